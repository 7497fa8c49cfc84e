A = "Random exploration of generated cases; no absence proof."
def n(i, t, extra=""): NOTES[i] = (t, (extra + " " if extra else "") + A)
n("C02", "stateful property-based testing against a model of the dictionary", "Equal hashes and evictions are generated on purpose.")
n("C03", "property-based round trip")
n("C04", "stateful property-based testing against a model of the stores", "Single-threaded histories.")
n("C05", "stateful property-based testing against a direct filter, differential between stores")
n("C06", "property-based testing against recomputed cascade and geometry")
n("C07", "property-based testing of conservation laws (length, area, containment)", "Tolerance 3e-7 degrees per vertex.")
n("C08", "property-based round trip of generated stylesheets, generated violations of the grammar")
n("C09", "property-based testing against a direct interpretation of rules", "Schedules of threads are those of the operating system.")
n("C10", "property-based testing against an own evaluator")
n("C11", "property-based testing of meshes against recomputed places and shapes")
n("C12", "property-based round trip and differential between both forms")
n("C13", "property-based round trip of files written byte by byte")
n("C14", "property-based metamorphic testing (split, direction and order of members)")
n("C15", "structure-aware mutation fuzzing under AddressSanitizer", "No crash, hang or sanitizer report; acceptance itself is not judged.")
n("C16", "property-based testing against own interpolation", "Schedules of threads are those of the operating system.")
n("C17", "property-based testing of invariants of meshes")
n("C18", "property-based testing by sampled coverage and invariants")
n("C19", "property-based testing by sampled coverage, sums of areas and invariants")
n("C20", "property-based testing of geometric invariants of buildings")
n("C21", "stateful property-based testing with injected faults against a model of the cache")
n("C22", "property-based testing against a reference of rewriting and turtle", "Weighted choices are judged statistically to eight standard deviations.")
n("C23", "property-based testing against expected calls of recording builders")
n("C24", "stateful property-based testing, differential against the engine called directly")
n("C25", "property-based fault injection (cancellation at any callback)")
n("C26", "property-based testing of the C# library, differential against the engine and models")
n("C27", "stateful property-based testing against a model")
n("C28", "stateful property-based testing, differential between C# library and exported functions")
n("C29", "property-based testing with played servers, differential against the engine")
n("C30", "stateful model-based testing of operation sequences, with threads")
n("C31", "generated concurrent histories: differential against the sequential run, with ThreadSanitizer as a monitor")
