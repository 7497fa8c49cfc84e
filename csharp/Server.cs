// Executes commands of the harness on the C# library: one command per line on stdin, one answer per line on stdout.
// It is compiled together with the library's sources, so it sees internal classes. It has no oracle: see harness/props.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Runtime.InteropServices;
using System.Text;
using System.Threading;
using UnityEngine;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Data.Providers;
using UtyMap.Unity.Geocoding;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.Formats;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.IO.Compression;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;
using UtyRx;
using CancellationToken = UtyMap.Unity.CancellationToken;
using Mesh = UtyMap.Unity.Mesh;
using Range = UtyMap.Unity.Infrastructure.Primitives.Range<int>;

internal static partial class Server
{
    private static Stream _in;
    private static readonly object Out = new object();
    // mono writes to the standard output itself, so answers have a file of their own
    [DllImport("libc")]
    private static extern IntPtr write(int file, IntPtr data, IntPtr size);
    private static readonly Encoding Utf8 = new UTF8Encoding(false);

    // ---- protocol

    private static string ReadLine()
    {
        var bytes = new MemoryStream();
        for (;;)
        {
            int b = _in.ReadByte();
            if (b < 0) Environment.Exit(0);
            if (b == '\n') return Utf8.GetString(bytes.ToArray());
            bytes.WriteByte((byte) b);
        }
    }

    private static void WriteLine(string line)
    {
        var bytes = Utf8.GetBytes(line + "\n");
        lock (Out)
        {
            var pinned = GCHandle.Alloc(bytes, GCHandleType.Pinned);
            for (int n = 0; n < bytes.Length;)
            {
                var k = write(3, Marshal.UnsafeAddrOfPinnedArrayElement(bytes, n), (IntPtr) (bytes.Length - n)).ToInt32();
                if (k <= 0) Environment.Exit(0);
                n += k;
            }
            pinned.Free();
        }
    }

    private static string Escape(string s)
    {
        return s == null ? "\\0" : s.Replace("\\", "\\\\").Replace("\t", "\\t").Replace("\n", "\\n").Replace("\r", "\\r");
    }

    private static string Unescape(string s)
    {
        if (s.IndexOf('\\') < 0) return s;
        var r = new StringBuilder();
        for (int i = 0; i < s.Length; ++i)
        {
            if (s[i] != '\\') { r.Append(s[i]); continue; }
            switch (s[++i])
            {
                case 't': r.Append('\t'); break;
                case 'n': r.Append('\n'); break;
                case 'r': r.Append('\r'); break;
                default: r.Append(s[i]); break;
            }
        }
        return r.ToString();
    }

    private static byte[] Unhex(string s)
    {
        var r = new byte[s.Length / 2];
        for (int i = 0; i < r.Length; ++i) r[i] = (byte) ((Digit(s[2 * i]) << 4) | Digit(s[2 * i + 1]));
        return r;
    }

    private static int Digit(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

    private static string Hex(byte[] bytes)
    {
        var r = new StringBuilder(bytes.Length * 2);
        foreach (var b in bytes) { r.Append("0123456789abcdef"[b >> 4]); r.Append("0123456789abcdef"[b & 15]); }
        return r.ToString();
    }

    /// <summary> Arguments of a command and its answer. </summary>
    private class Call
    {
        private readonly string[] _args;
        private int _at;
        private readonly StringBuilder _answer = new StringBuilder("OK");
        public Call(string line) { _args = line.Split('\t'); }
        public bool More { get { return _at < _args.Length; } }
        public string S() { return Unescape(_args[_at++]); }
        public int I() { return int.Parse(_args[_at++], CultureInfo.InvariantCulture); }
        public long L() { return long.Parse(_args[_at++], CultureInfo.InvariantCulture); }
        public double D() { return BitConverter.Int64BitsToDouble(L()); }
        public byte[] B() { return Unhex(_args[_at++]); }
        public GeoCoordinate G() { var lat = D(); return new GeoCoordinate(lat, D()); }
        public BoundingBox Box() { var min = G(); return new BoundingBox(min, G()); }
        public QuadKey Q() { var x = I(); var y = I(); return new QuadKey(x, y, I()); }
        public void Put(string s) { lock (_answer) _answer.Append('\t').Append(Escape(s)); }
        public void Put(double d) { lock (_answer) _answer.Append('\t').Append(BitConverter.DoubleToInt64Bits(d).ToString(CultureInfo.InvariantCulture)); }
        public void Put(int i) { lock (_answer) _answer.Append('\t').Append(i.ToString(CultureInfo.InvariantCulture)); }
        public void Put(long i) { lock (_answer) _answer.Append('\t').Append(i.ToString(CultureInfo.InvariantCulture)); }
        public void Put(bool b) { Put(b ? 1 : 0); }
        public void Put(GeoCoordinate g) { Put(g.Latitude); Put(g.Longitude); }
        public void Put(BoundingBox b) { Put(b.MinPoint); Put(b.MaxPoint); }
        public void Put(QuadKey q) { Put(q.TileX); Put(q.TileY); Put(q.LevelOfDetail); }
        public void Put(Vector3 v) { Put((double) v.x); Put((double) v.y); Put((double) v.z); }
        public string Answer { get { return _answer.ToString(); } }
    }

    private static void Main()
    {
        _in = new BufferedStream(Console.OpenStandardInput(), 65536);
        var commands = typeof(Server).GetMethods(System.Reflection.BindingFlags.NonPublic | System.Reflection.BindingFlags.Static)
            .Where(m => m.Name.StartsWith("Do"))
            .ToDictionary(m => m.Name.Substring(2), m => (Action<Call>) Delegate.CreateDelegate(typeof(Action<Call>), m));
        for (;;)
        {
            var line = ReadLine();
            if (line.Length == 0) continue;
            var call = new Call(line);
            var name = call.S();
            try
            {
                commands[name](call);
                WriteLine(call.Answer);
            }
            catch (Exception e)
            {
                WriteLine("EX\t" + e.GetType().Name + "\t" + Escape(e.Message));
            }
        }
    }

    // ---- session

    private static void DoHello(Call c)
    {
        Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture;
        CloseLibrary();
        c.Put(c.S());
    }

    private static void DoCulture(Call c)
    {
        Thread.CurrentThread.CurrentCulture = new CultureInfo(c.S());
    }

    // ---- tiles

    private static void DoKey(Call c) { var g = c.G(); c.Put(GeoUtils.CreateQuadKey(g, c.I())); }
    private static void DoTileBox(Call c) { c.Put(GeoUtils.QuadKeyToBoundingBox(c.Q())); }
    private static void DoKeyText(Call c) { c.Put(c.Q().ToString()); }
    private static void DoKeyParse(Call c) { c.Put(QuadKey.FromString(c.S())); }
    private static void DoKeyEquals(Call c)
    {
        var a = c.Q();
        var b = c.Q();
        c.Put(a.Equals(b));
        c.Put(a.Equals((object) b));
        c.Put(a.GetHashCode() == b.GetHashCode());
        c.Put(new HashSet<QuadKey> { a }.Contains(b));
        c.Put(a.Equals("a"));
    }
    private static void DoTiles(Call c)
    {
        var box = c.Box();
        foreach (var q in GeoUtils.BoundingBoxToQuadKeys(box, c.I())) c.Put(q);
    }

    // ---- coordinates

    private static IProjection Projection(Call c)
    {
        var kind = c.S();
        if (kind == "sphere") return new SphericalProjection((float) c.D());
        if (kind == "scaled") { var scale = (float) c.D(); return new ScaledProjection(Projection(c), scale); }
        return new CartesianProjection(c.G());
    }
    private static void DoProject(Call c) { var p = Projection(c); var g = c.G(); c.Put(p.Project(g, c.D())); }
    private static void DoUnproject(Call c) { var p = Projection(c); var x = (float) c.D(); var y = (float) c.D(); c.Put(p.Project(new Vector3(x, y, (float) c.D()))); }
    private static void DoToMap(Call c) { var zero = c.G(); var v = GeoUtils.ToMapCoordinate(zero, c.G()); c.Put((double) v.x); c.Put((double) v.y); }
    private static void DoToGeo(Call c) { var zero = c.G(); var x = c.D(); c.Put(GeoUtils.ToGeoCoordinate(zero, x, c.D())); }
    private static void DoToGeoVector(Call c) { var zero = c.G(); var x = (float) c.D(); c.Put(GeoUtils.ToGeoCoordinate(zero, new Vector2(x, (float) c.D()))); }
    private static void DoDistance(Call c) { var a = c.G(); c.Put(GeoUtils.Distance(a, c.G())); }
    private static void DoTileRect(Call c)
    {
        var p = Projection(c);
        var r = GeoUtils.QuadKeyToRect(p, c.Q());
        foreach (var v in new[] { r.Left, r.Bottom, r.Right, r.Top, r.Width, r.Height, r.Center.x, r.Center.y, r.BottomLeft.x, r.BottomLeft.y, r.TopRight.x, r.TopRight.y, r.TopLeft.x, r.TopLeft.y, r.BottomRight.x, r.BottomRight.y }) c.Put((double) v);
        c.Put(GeoUtils.RectToBoundingBox(p, r));
    }
    private static void DoAround(Call c) { var g = c.G(); var w = c.D(); c.Put(BoundingBox.Create(g, w, c.D())); }
    private static void DoAroundSquare(Call c) { var g = c.G(); c.Put(BoundingBox.Create(g, (float) c.D())); }
    private static void DoBox(Call c)
    {
        // builds a box by a list of operations, then asks
        BoundingBox b = null;
        for (;;)
        {
            switch (c.S())
            {
                case "box": b = c.Box(); break;
                case "new": b = new BoundingBox(); break;
                case "empty": b = BoundingBox.Empty(); break;
                case "extend": b.Extend(c.G()); break;
                case "point": b = b + c.G(); break;
                case "add": b = b + c.Box(); break;
                case "contains": c.Put(b.Contains(c.G())); break;
                case "intersects": c.Put(b.Intersects(c.Box())); break;
                case "center": c.Put(b.Center()); break;
                default: c.Put(b); return;
            }
        }
    }
    private static void DoCoordinates(Call c)
    {
        var a = c.G();
        var b = c.G();
        c.Put(a == b);
        c.Put(a != b);
        c.Put(a.Equals(b));
        c.Put(a.Equals(new object()));
        c.Put(a.GetHashCode() == b.GetHashCode());
    }

    private static void Put(Call c, Color v) { c.Put((double) v.r); c.Put((double) v.g); c.Put((double) v.b); c.Put((double) v.a); }
    private static void DoColor(Call c) { Put(c, ColorUtils.FromUnknown(c.S())); }
    private static void DoColorOfInt(Call c) { Put(c, ColorUtils.FromInt(c.I())); }

    // ---- animations

    private static void DoPath(Call c)
    {
        var kind = c.S();
        var points = new Vector3[c.I()];
        for (int i = 0; i < points.Length; ++i) { var x = (float) c.D(); var y = (float) c.D(); points[i] = new Vector3(x, y, (float) c.D()); }
        UtyMap.Unity.Animations.Path.IPathInterpolator path;
        if (kind == "line") path = new UtyMap.Unity.Animations.Path.LinearInterpolator(points);
        else path = new UtyMap.Unity.Animations.Path.SplineInterpolator(points);
        while (c.More) { var t = (float) c.D(); c.Put(path.GetPoint(t)); c.Put(path.GetDirection(t)); }
    }
    private static UtyMap.Unity.Animations.Time.ITimeInterpolator TimeOf(Call c)
    {
        var kind = c.S();
        var factor = (float) c.D();
        if (kind == "linear") return new UtyMap.Unity.Animations.Time.LinearInterpolator();
        if (kind == "accelerate") return new UtyMap.Unity.Animations.Time.AccelerateInterpolator(factor);
        if (kind == "decelerate") return new UtyMap.Unity.Animations.Time.DecelerateInterpolator(factor);
        return new UtyMap.Unity.Animations.Time.AccelerateDecelerateInterpolator();
    }

    private static void DoTime(Call c)
    {
        var time = TimeOf(c);
        while (c.More) c.Put((double) time.GetTime((float) c.D()));
    }

    // ---- primitives

    private static void DoRange(Call c)
    {
        var a = new Range(c.I(), c.I());
        var b = new Range(c.I(), c.I());
        c.Put(a.IsValid());
        c.Put(a.Contains(c.I()));
        c.Put(a.Contains(b));
        c.Put(a.IsInside(b));
    }

    private class Backwards : IComparer<int>
    {
        public int Compare(int x, int y) { return 3 * (y - x); }
    }

    private static void DoTree(Call c)
    {
        var tree = c.I() == 1 ? new RangeTree<int, int>(new Backwards()) : new RangeTree<int, int>();
        while (c.More)
        {
            switch (c.S())
            {
                case "add":
                    try { var from = c.I(); var to = c.I(); tree.Add(from, to, c.I()); c.Put("added"); }
                    catch (ArgumentOutOfRangeException) { c.Put("refused"); }
                    break;
                case "pair": { var from = c.I(); var to = c.I(); tree.Add(new RangeValuePair<int, int>(from, to, c.I())); break; }
                case "remove": { var from = c.I(); var to = c.I(); c.Put(tree.Remove(new RangeValuePair<int, int>(from, to, c.I()))); break; }
                case "contains": { var from = c.I(); var to = c.I(); c.Put(tree.Contains(new RangeValuePair<int, int>(from, to, c.I()))); break; }
                case "clear": tree.Clear(); break;
                case "rebuild": tree.Rebuild(); c.Put(tree.IsInSync); break;
                case "auto": tree.AutoRebuild = c.I() == 1; break;
                case "at": c.Put(String.Join(" ", tree[c.I()].Select(p => Text(p)).ToArray())); break;
                case "between": { var from = c.I(); c.Put(String.Join(" ", tree[from, c.I()].Select(p => Text(p)).ToArray())); break; }
                case "min": c.Put(tree.Min); break;
                case "max": c.Put(tree.Max); break;
                case "values": c.Put(String.Join(" ", tree.Values.Select(v => v.ToString()).ToArray())); break;
                case "all": c.Put(String.Join(" ", tree.Select(p => Text(p)).ToArray())); break;
                case "copy": { var array = new RangeValuePair<int, int>[tree.Count]; tree.CopyTo(array, 0); c.Put(String.Join(" ", array.Select(p => Text(p)).ToArray())); break; }
                case "count": c.Put(tree.Count); break;
            }
        }
    }
    private static string Text(RangeValuePair<int, int> p) { return p.From + ":" + p.To + ":" + p.Value; }

    // ---- formats

    private static void Dump(JSONNode n, StringBuilder s)
    {
        if (ReferenceEquals(n, null)) { s.Append("null"); return; }
        if (n is JSONArray)
        {
            s.Append('[');
            foreach (JSONNode i in n.AsArray) { Dump(i, s); s.Append(','); }
            s.Append(']');
        }
        else if (n is JSONClass)
        {
            s.Append('{');
            foreach (KeyValuePair<string, JSONNode> p in n.AsObject) { s.Append(Quote(p.Key)).Append(':'); Dump(p.Value, s); s.Append(','); }
            s.Append('}');
        }
        else if (n is JSONData) s.Append(Quote(n.Value));
        else s.Append(n.GetType().Name);
    }
    private static string Quote(string s) { return "<" + s.Replace("\\", "\\\\").Replace("<", "\\<").Replace(">", "\\>") + ">"; }
    private static string Dump(JSONNode n) { var s = new StringBuilder(); Dump(n, s); return s.ToString(); }

    private static JSONNode Build(Call c)
    {
        switch (c.S())
        {
            case "array": { var a = new JSONArray(); for (int n = c.I(); n > 0; --n) a.Add(Build(c)); return a; }
            case "object": { var o = new JSONClass(); for (int n = c.I(); n > 0; --n) { var key = c.S(); o.Add(key, Build(c)); } return o; }
            case "string": return new JSONData(c.S());
            case "int": return new JSONData(c.I());
            case "double": return new JSONData(c.D());
            case "float": return new JSONData((float) c.D());
            default: return new JSONData(c.I() == 1);
        }
    }
    private static void DoJsonRead(Call c)
    {
        c.Put(Dump(JSON.Parse(c.S())));
    }
    private static void DoJsonWrite(Call c)
    {
        var n = Build(c);
        c.Put(Dump(n));
        c.Put(n.ToString());
        c.Put(n.ToString(""));
        c.Put(Dump(JSON.Parse(n.ToString())));
        c.Put(Dump(JSON.Parse(n.ToString(""))));
        c.Put(Dump(JSONNode.LoadFromBase64(n.SaveToBase64())));
    }
    /// <summary> Value at given path of a text. </summary>
    private static void DoJsonValue(Call c)
    {
        var n = JSON.Parse(c.S());
        for (int depth = c.I(); depth > 0; --depth)
            n = n is JSONArray ? n[c.I()] : n[c.S()];
        c.Put(n.AsInt);
        c.Put(n.AsDouble);
        c.Put((double) n.AsFloat);
        c.Put(n.AsBool);
        c.Put(n.Value);
    }

    private static void DoUnzip(Call c)
    {
        foreach (var p in CompressionUtils.Unzip(c.B())) { c.Put(p.Key); c.Put(Hex(p.Value)); }
    }

    // ---- services

    private class Resolver : IPathResolver
    {
        public string Resolve(string path) { return path; }
    }

    private class Trace : ITrace
    {
        public readonly List<string> Errors = new List<string>();
        public void Debug(string category, string message) { }
        public void Debug(string category, string format, string arg1) { }
        public void Debug(string category, string format, string arg1, string arg2) { }
        public void Info(string category, string message) { }
        public void Info(string category, string format, string arg1) { }
        public void Info(string category, string format, string arg1, string arg2) { }
        public void Warn(string category, string message) { }
        public void Warn(string category, string format, string arg1) { }
        public void Warn(string category, string format, string arg1, string arg2) { }
        public void Error(string category, Exception ex, string message) { Add(ex); }
        public void Error(string category, Exception ex, string format, string arg1) { Add(ex); }
        public void Error(string category, Exception ex, string format, string arg1, string arg2) { Add(ex); }
        public void Dispose() { }
        private void Add(Exception ex) { lock (Errors) Errors.Add(ex.GetType().Name + ": " + ex.Message); }
    }

    /// <summary> Asks the harness for what an url has. </summary>
    private class Network : INetworkService
    {
        public readonly List<string> Urls = new List<string>();
        public IObservable<string> Get(string url, Dictionary<string, string> headers = null)
        {
            return Observable.Return(Utf8.GetString(Ask(url)));
        }
        public IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> headers = null)
        {
            return Observable.Return(Ask(url));
        }
        private static byte[] Ask(string url)
        {
            lock (Out)
            {
                WriteLine("CALL\t" + Escape(url));
                return Unhex(ReadLine());
            }
        }
    }

    private class Observer<T> : IObserver<T>
    {
        private readonly Action<T> _next;
        public Observer(Action<T> next) { _next = next; }
        public void OnCompleted() { }
        public void OnError(Exception error) { }
        public void OnNext(T value) { _next(value); }
    }

    private static IConfigSection Config(Call c)
    {
        var config = new ConfigBuilder();
        for (int n = c.I(); n > 0; --n)
        {
            var key = c.S();
            switch (key)
            {
                case "use default": config = ConfigBuilder.GetDefault(); break;
                case "use osm": { var url = c.S(); var query = c.S(); config.SetOsmMapData(url, query, c.S()); break; }
                case "use mapzen": { var url = c.S(); var layers = c.S(); var format = c.S(); config.SetMapzenMapData(url, layers, format, c.S()); break; }
                case "use elevation": { var url = c.S(); var grid = c.I(); var format = c.S(); config.SetMapzenEleData(url, grid, format, c.S()); break; }
                case "use srtm": { var url = c.S(); config.SetSrtmEleData(url, c.S()); break; }
                case "use local": config.SetLocalElevationData(c.S()); break;
                case "use import": config.SetImport(c.S()); break;
                case "use index": config.SetIndex(c.S()); break;
                case "use geocoding": config.SetGeocodingServer(c.S()); break;
                default: config.Add(key, c.S()); break;
            }
        }
        return config.Build();
    }

    /// <summary> Has data of given tiles only. </summary>
    private class Presence : IMapDataLibrary
    {
        public readonly HashSet<QuadKey> Tiles = new HashSet<QuadKey>();
        public void Dispose() { }
        public void Configure(string indexPath) { }
        public void EnableCache() { }
        public void DisableCache() { }
        public bool Exists(QuadKey quadKey) { return Tiles.Contains(quadKey); }
        public IObservable<int> Get(Tile tile, IList<IObserver<MapData>> observers) { return Observable.Return(100); }
        public IObservable<int> Get(MapQuery query, IList<IObserver<Element>> observers) { return Observable.Return(100); }
        public void Register(string storageKey) { }
        public void Register(string storageKey, string indexPath) { }
        public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, Range<int> levelOfDetails, CancellationToken cancellationToken) { return Observable.Return(100); }
        public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, QuadKey quadKey, CancellationToken cancellationToken) { return Observable.Return(100); }
        public IObservable<int> AddTo(string storageKey, Element element, Stylesheet stylesheet, Range<int> levelOfDetails, CancellationToken cancellationToken) { return Observable.Return(100); }
        public double GetElevation(ElevationDataType elevationDataType, QuadKey quadKey, GeoCoordinate coordinate) { return 0; }
    }

    /// <summary> Passes tiles to the provider of map data; answers with what it notifies about. </summary>
    private static void DoProvide(Call c)
    {
        var library = new Presence();
        var trace = new Trace();
        var provider = new AggregateMapDataProvider(new FileSystemService(new Resolver(), trace), new Network(), library, trace);
        provider.Configure(Config(c));
        for (int n = c.I(); n > 0; --n) library.Tiles.Add(c.Q());
        var ready = new AutoResetEvent(false);
        var got = new List<string>();
        provider.Subscribe(new Observer<Tuple<Tile, string>>(t =>
        {
            lock (got) got.Add(t.Item1.QuadKey + " " + t.Item1.ElevationType + " " + t.Item2);
            ready.Set();
        }));
        while (c.More)
        {
            var q = c.Q();
            provider.OnNext(new Tile(q, new Stylesheet(""), new CartesianProjection(new GeoCoordinate()), (ElevationDataType) c.I()));
            if (!ready.WaitOne(20000)) { c.Put("nothing"); break; }
            lock (got) { c.Put(String.Join("|", got.ToArray())); got.Clear(); }
        }
        foreach (var e in trace.Errors) c.Put("error: " + e);
    }

    /// <summary> Asks for all tiles at once. </summary>
    private static void DoProvideAll(Call c)
    {
        // there is no main thread of Unity
        var scheduler = Scheduler.DefaultSchedulers.TimeBasedOperations;
        Scheduler.DefaultSchedulers.TimeBasedOperations = Scheduler.ThreadPool;
        var library = new Presence();
        var trace = new Trace();
        var provider = new AggregateMapDataProvider(new FileSystemService(new Resolver(), trace), new Network(), library, trace);
        Scheduler.DefaultSchedulers.TimeBasedOperations = scheduler;
        provider.Configure(Config(c));
        for (int n = c.I(); n > 0; --n) library.Tiles.Add(c.Q());
        int left = 0;
        var ready = new ManualResetEvent(false);
        var got = new List<string>();
        var tiles = new List<Tile>();
        while (c.More)
        {
            var q = c.Q();
            tiles.Add(new Tile(q, new Stylesheet(""), new CartesianProjection(new GeoCoordinate()), (ElevationDataType) c.I()));
        }
        left = tiles.Count;
        provider.Subscribe(new Observer<Tuple<Tile, string>>(t =>
        {
            lock (got)
            {
                got.Add(t.Item1.QuadKey + " " + t.Item1.ElevationType + " " + t.Item2);
                if (--left == 0) ready.Set();
            }
        }));
        foreach (var tile in tiles) provider.OnNext(tile);
        ready.WaitOne(20000);
        lock (got) { c.Put(got.Count); foreach (var q in got) c.Put(q); }
        foreach (var e in trace.Errors) c.Put("error: " + e);
    }

    private static void DoGeocode(Call c)
    {
        var geocoder = new NominatimGeocoder(new Network());
        geocoder.Configure(Config(c));
        geocoder.Subscribe(new Observer<GeocoderResult>(r =>
        {
            c.Put(r.Element.Id);
            c.Put(r.Element.Geometry[0]);
            c.Put(r.DisplayName);
            c.Put(r.BoundingBox != null);
            if (r.BoundingBox != null) c.Put(r.BoundingBox);
        }));
        switch (c.S())
        {
            case "name": geocoder.OnNext(new Tuple<string, BoundingBox>(c.S(), null)); break;
            case "box": { var name = c.S(); geocoder.OnNext(new Tuple<string, BoundingBox>(name, c.Box())); break; }
            default: geocoder.OnNext(new Tuple<GeoCoordinate, float>(c.G(), 100)); break;
        }
    }

    // ---- the library which uses the engine

    [DllImport("UtyMap.Shared")]
    private static extern void disconnect();

    private static MapDataLibrary _library;
    private static Trace _trace;
    private static IProjection _projection;

    private static void CloseLibrary()
    {
        if (_library == null) return;
        _library = null;
        disconnect();
    }

    private static void PutErrors(Call c)
    {
        lock (_trace.Errors)
        {
            c.Put(_trace.Errors.Count);
            foreach (var e in _trace.Errors) c.Put(e);
            _trace.Errors.Clear();
        }
    }

    private static void DoOpen(Call c)
    {
        CloseLibrary();
        _trace = new Trace();
        _library = new MapDataLibrary(new Resolver(), _trace);
        _library.Configure(c.S());
        _projection = Projection(c);
    }
    private static void DoClose(Call c) { CloseLibrary(); }
    private static void DoCache(Call c) { if (c.I() == 1) _library.EnableCache(); else _library.DisableCache(); }
    private static void DoMemory(Call c) { _library.Register(c.S()); }
    private static void DoDisk(Call c) { var key = c.S(); _library.Register(key, c.S()); }
    private static void DoExists(Call c) { c.Put(_library.Exists(c.Q())); }
    private static void DoElevation(Call c) { var type = (ElevationDataType) c.I(); var q = c.Q(); c.Put(_library.GetElevation(type, q, c.G())); }

    private static Dictionary<string, string> Strings(Call c)
    {
        var r = new Dictionary<string, string>();
        for (int n = c.I(); n > 0; --n) { var key = c.S(); r[key] = c.S(); }
        return r;
    }
    private static void DoAddElement(Call c)
    {
        var key = c.S();
        var style = new Stylesheet(c.S());
        var id = c.L();
        var geometry = new GeoCoordinate[c.I()];
        for (int i = 0; i < geometry.Length; ++i) geometry[i] = c.G();
        var element = new Element(id, geometry, new double[geometry.Length], Strings(c), null);
        var min = c.I();
        var range = new Range(min, c.I());
        if (c.I() == 1) new MapDataEditor(_library, style).Add(key, element, range);
        else _library.AddTo(key, element, style, range, new CancellationToken()).Wait();
        PutErrors(c);
    }
    private static void DoAddFile(Call c)
    {
        var key = c.S();
        var path = c.S();
        var style = new Stylesheet(c.S());
        var token = new CancellationToken();
        token.SetCancelled(c.I() == 1);
        if (c.S() == "tile") _library.AddTo(key, path, style, c.Q(), token).Wait();
        else { var min = c.I(); _library.AddTo(key, path, style, new Range(min, c.I()), token).Wait(); }
        PutErrors(c);
    }
    private static void Put(Call c, Element e)
    {
        c.Put("element");
        c.Put(e.Id);
        c.Put(e.Geometry.Length);
        for (int i = 0; i < e.Geometry.Length; ++i) { c.Put(e.Geometry[i]); c.Put(e.Heights[i]); }
        foreach (var d in new[] { e.Tags, e.Styles })
        {
            c.Put(d.Count);
            foreach (var p in d) { c.Put(p.Key); c.Put(p.Value); }
        }
    }
    private static void Put(Call c, Mesh m)
    {
        c.Put("mesh");
        c.Put(m.Name);
        c.Put(m.Vertices.Length);
        foreach (var v in m.Vertices) c.Put(v);
        c.Put(m.Triangles.Length);
        foreach (var t in m.Triangles) c.Put(t);
        c.Put(m.Colors.Length);
        foreach (var v in m.Colors) { c.Put((double) v.r); c.Put((double) v.g); c.Put((double) v.b); c.Put((double) v.a); }
    }
    private static void DoLoad(Call c)
    {
        var style = new Stylesheet(c.S());
        var q = c.Q();
        var tile = new Tile(q, style, _projection, (ElevationDataType) c.I());
        int cancelAt = c.I(), count = 0;
        if (cancelAt == 0) tile.Dispose();
        var observer = new Observer<MapData>(d =>
        {
            if (!ReferenceEquals(d.Tile, tile)) c.Put("wrong tile");
            d.Variant.Match(e => Put(c, e), m => Put(c, m));
            if (++count == cancelAt) tile.Dispose();
        });
        _library.Get(tile, new IObserver<MapData>[] { observer }).Wait();
        c.Put("end");
        PutErrors(c);
    }
    private static void DoErrors(Call c) { PutErrors(c); }

    /// <summary> Names what was fetched for tiles, as given. </summary>
    private class Fetched : IMapDataProvider
    {
        private readonly List<IObserver<Tuple<Tile, string>>> _observers = new List<IObserver<Tuple<Tile, string>>>();
        public string Path;
        public void Configure(IConfigSection config) { }
        public IDisposable Subscribe(IObserver<Tuple<Tile, string>> observer) { _observers.Add(observer); return Disposable.Empty; }
        public void OnCompleted() { }
        public void OnError(Exception error) { }
        public void OnNext(Tile tile) { foreach (var o in _observers) o.OnNext(new Tuple<Tile, string>(tile, Path)); }
    }

    /// <summary> Requests tiles from the store of map data. </summary>
    private static void DoRequests(Call c)
    {
        var provider = new Fetched();
        var store = new MapDataStore(provider, _library);
        var disk = c.S();
        if (disk == "") store.Register("memory");
        else store.Register("disk", disk);
        var done = new AutoResetEvent(false);
        Tile tile = null;
        store.Subscribe(new Observer<MapData>(d =>
        {
            if (!ReferenceEquals(d.Tile, tile)) c.Put("wrong tile");
            d.Variant.Match(e => Put(c, e), m => Put(c, m));
        }));
        store.Subscribe(new Observer<Tile>(t => { c.Put(ReferenceEquals(t, tile) ? "tile" : "wrong tile"); done.Set(); }));
        while (c.More)
        {
            var q = c.Q();
            tile = new Tile(q, new Stylesheet(c.S()), _projection, ElevationDataType.Flat);
            provider.Path = c.S();
            store.OnNext(tile);
            done.WaitOne(3000);
            c.Put("end");
            PutErrors(c);
        }
    }
    private static CompositionRoot _root;

    /// <summary> Starts everything as an application does; only the network is the harness. </summary>
    private static void DoStart(Call c)
    {
        CloseLibrary();
        _trace = new Trace();
        _projection = Projection(c);
        _root = new CompositionRoot(new UtyDepend.Container(), Config(c))
            .RegisterAction((r, _) => r.RegisterInstance<ITrace>(_trace))
            .RegisterAction((r, _) => r.RegisterInstance<IPathResolver>(new Resolver()))
            .RegisterAction((r, _) => r.RegisterInstance<INetworkService>(new Network()))
            .RegisterAction((r, _) => r.RegisterInstance<Stylesheet>(new Stylesheet("")))
            .Setup();
        var store = _root.GetService<IMapDataStore>();
        _library = (MapDataLibrary) _root.GetService<IMapDataLibrary>();
        var disk = c.S();
        if (disk == "") store.Register("memory");
        else store.Register("disk", disk);
        _tileDone = new AutoResetEvent(false);
        store.Subscribe(new Observer<MapData>(d => { lock (_arrived) _arrived.Add(d); }));
        store.Subscribe(new Observer<Tile>(t => { lock (_arrived) _loaded.Add(t); _tileDone.Set(); }));
        _arrived.Clear();
        _loaded.Clear();
    }
    private static AutoResetEvent _tileDone;
    private static readonly List<MapData> _arrived = new List<MapData>();
    private static readonly List<Tile> _loaded = new List<Tile>();

    /// <summary> Requests a tile from an application which is started. </summary>
    private static void DoRequest(Call c)
    {
        var q = c.Q();
        var style = new Stylesheet(c.S());
        var tile = new Tile(q, style, _projection, (ElevationDataType) c.I());
        _root.GetService<IMapDataStore>().OnNext(tile);
        _tileDone.WaitOne(4000);
        lock (_arrived)
        {
            foreach (var d in _arrived)
            {
                if (!ReferenceEquals(d.Tile, tile)) c.Put("wrong tile");
                d.Variant.Match(e => Put(c, e), m => Put(c, m));
            }
            foreach (var t in _loaded) c.Put(ReferenceEquals(t, tile) ? "tile" : "wrong tile");
            _arrived.Clear();
            _loaded.Clear();
        }
        c.Put("end");
        PutErrors(c);
    }
    /// <summary> Adds an element with the editor of an application which is started. </summary>
    private static void DoEdit(Call c)
    {
        var key = c.S();
        var style = new Stylesheet(c.S());
        var id = c.L();
        var geometry = new GeoCoordinate[c.I()];
        for (int i = 0; i < geometry.Length; ++i) geometry[i] = c.G();
        var element = new Element(id, geometry, new double[geometry.Length], Strings(c), null);
        var min = c.I();
        new MapDataEditor(_library, style).Add(key, element, new Range(min, c.I()));
        PutErrors(c);
    }
    /// <summary> Finds places with data which the application has. </summary>
    private static void DoPlaces(Call c)
    {
        using (var geocoder = new UtyMapGeocoder(_root.GetService<IMapDataStore>()))
        {
            var results = new List<GeocoderResult>();
            geocoder.Subscribe(new Observer<GeocoderResult>(results.Add));
            if (c.S() == "name") { var name = c.S(); geocoder.OnNext(new Tuple<string, BoundingBox>(name, c.Box())); }
            else { var g = c.G(); geocoder.OnNext(new Tuple<GeoCoordinate, float>(g, (float) c.D())); }
            c.Put(results.Count);
            foreach (var r in results) { c.Put(r.Element.Id); c.Put(r.Element.Geometry[0]); c.Put(r.DisplayName); }
        }
        PutErrors(c);
    }

    private static void DoSearch(Call c)
    {
        string not = c.S(), and = c.S(), or = c.S();
        var box = c.Box();
        var min = c.I();
        var query = new MapQuery(not, and, or, box, new Range(min, c.I()));
        int cancelAt = c.I(), count = 0;
        if (cancelAt == 0) query.CancelToken.SetCancelled(true);
        var observer = new Observer<Element>(e => { Put(c, e); if (++count == cancelAt) query.CancelToken.SetCancelled(true); });
        _library.Get(query, new IObserver<Element>[] { observer }).Wait();
        c.Put("end");
        PutErrors(c);
    }
}
