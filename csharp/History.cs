// Commands about objects with a state: animations, tiles, sets, messages, configuration, trace, files.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Text;
using System.Threading;
using UnityEngine;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Animations;
using UtyMap.Unity.Data;
using UtyMap.Unity.Infrastructure;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyRx;
using Animation = UtyMap.Unity.Animations.Animation;
using Animator = UtyMap.Unity.Animations.Animator;
using ITimeInterpolator = UtyMap.Unity.Animations.Time.ITimeInterpolator;

internal static partial class Server
{
    // ---- animations

    private class Leaf : TransformAnimation
    {
        public int Count;
        public double Last;
        public Leaf(ITimeInterpolator time, TimeSpan duration, bool loop) : base(null, time, duration, loop) { }
        protected override void UpdateTransform(Transform transform, float time) { ++Count; Last = time; }
    }

    private class Stage : Animator
    {
        public int Updates;
        protected override void OnAnimationUpdate(float deltaTime) { ++Updates; }
        public override void AnimateTo(GeoCoordinate coordinate, float zoom, TimeSpan duration, ITimeInterpolator timeInterpolator) { }
        public void Set(Animation animation) { SetAnimation(animation); }
    }

    private static Animation ReadAnimation(Call c, List<Animation> all, List<int> finished)
    {
        Animation animation;
        if (c.S() == "leaf")
        {
            var time = TimeOf(c);
            var duration = TimeSpan.FromSeconds(c.D());
            animation = new Leaf(time, duration, c.I() == 1);
        }
        else
        {
            var parts = new Animation[c.I()];
            for (int i = 0; i < parts.Length; ++i) parts[i] = ReadAnimation(c, all, finished);
            animation = new CompositeAnimation(parts);
        }
        int index = all.Count;
        int again = c.I();
        all.Add(animation);
        finished.Add(0);
        animation.Finished += (sender, args) =>
        {
            ++finished[index];
            if (again-- > 0) animation.Start();
        };
        return animation;
    }

    private static void DoAnimate(Call c)
    {
        var all = new List<Animation>();
        var finished = new List<int>();
        var roots = new Animation[c.I()];
        for (int i = 0; i < roots.Length; ++i) roots[i] = ReadAnimation(c, all, finished);
        var stage = new Stage();
        while (c.More)
        {
            switch (c.S())
            {
                case "set": stage.Set(roots[c.I()]); break;
                case "start": stage.Start(); break;
                case "cancel": stage.Cancel(); break;
                case "update": stage.Update((float) c.D()); break;
                case "stop": all[c.I()].Stop(); break;
                case "begin": all[c.I()].Start(); break;
            }
            c.Put(stage.IsRunningAnimation);
            c.Put(stage.Updates);
            for (int i = 0; i < all.Count; ++i)
            {
                c.Put(all[i].IsRunning);
                c.Put(finished[i]);
                var leaf = all[i] as Leaf;
                if (leaf != null) { c.Put(leaf.Count); c.Put(leaf.Last); }
            }
        }
    }

    // ---- tiles

    private static void DoTileHistory(Call c)
    {
        var projections = new IProjection[] { new CartesianProjection(new GeoCoordinate(0, 0)), new SphericalProjection(100) };
        var sheets = new[] { new Stylesheet("a"), new Stylesheet("b") };
        var tiles = new List<Tile>();
        while (c.More)
        {
            var what = c.S();
            int i = c.I();
            switch (what)
            {
                case "new":
                    var q = c.Q();
                    var sheet = sheets[c.I()];
                    var projection = projections[c.I()];
                    tiles.Add(new Tile(q, sheet, projection, (ElevationDataType) c.I()));
                    c.Put(tiles[i].BoundingBox);
                    c.Put(tiles[i].ToString());
                    break;
                case "has": c.Put(tiles[i].Has(c.L())); break;
                case "register": tiles[i].Register(c.L()); break;
                case "dispose": tiles[i].Dispose(); break;
                case "state": c.Put(tiles[i].IsDisposed); c.Put(tiles[i].CancelationToken.IsCancelled != 0); break;
                case "same":
                    var other = tiles[c.I()];
                    c.Put(tiles[i].Equals(other));
                    c.Put(tiles[i].GetHashCode() == other.GetHashCode());
                    c.Put(tiles[i].Equals("tile"));
                    break;
            }
        }
        foreach (var tile in tiles) tile.Dispose();
    }

    // ---- sets and dictionaries

    private static void DoSets(Call c)
    {
        var set = new SafeHashSet<string>();
        var dictionary = new SafeDictionary<string, int>();
        while (c.More)
        {
            switch (c.S())
            {
                case "add": c.Put(set.Add(c.S())); break;
                case "remove": c.Put(set.Remove(c.S())); break;
                case "contains": c.Put(set.Contains(c.S())); break;
                case "count": c.Put(set.Count); break;
                case "all": c.Put(string.Join(" ", set.OrderBy(s => s, StringComparer.Ordinal).ToArray())); break;
                case "clear": set.Clear(); break;
                case "put": { var key = c.S(); c.Put(dictionary.TryAdd(key, c.I())); break; }
                case "drop": c.Put(dictionary.TryRemove(c.S())); break;
                case "get": { int v; c.Put(dictionary.TryGetValue(c.S(), out v)); c.Put(v); break; }
                case "empty": dictionary.Clear(); break;
            }
        }
    }

    /// <summary> Several threads change the same set and the same dictionary. </summary>
    private static void DoThreads(Call c)
    {
        var keys = c.I();
        var set = new SafeHashSet<int>();
        var dictionary = new SafeDictionary<int, int>();
        var scripts = new List<string>();
        while (c.More) scripts.Add(c.S());
        var balance = new int[2, keys];
        var errors = 0;
        var gate = new ManualResetEvent(false);
        var threads = new List<Thread>();
        for (int t = 0; t < scripts.Count; ++t)
        {
            var script = scripts[t];
            var number = t;
            var thread = new Thread(() =>
            {
                gate.WaitOne();
                try
                {
                    for (int i = 0; i + 1 < script.Length; i += 2)
                    {
                        int key = script[i + 1] - 'a', v;
                        switch (script[i])
                        {
                            case '+': if (set.Add(key)) Interlocked.Increment(ref balance[0, key]); break;
                            case '-': if (set.Remove(key)) Interlocked.Decrement(ref balance[0, key]); break;
                            case '?': set.Contains(key); break;
                            case '#': if (set.Count > keys) Interlocked.Increment(ref errors); break;
                            case '>': if (dictionary.TryAdd(key, 100 * number + key)) Interlocked.Increment(ref balance[1, key]); break;
                            case '<': if (dictionary.TryRemove(key)) Interlocked.Decrement(ref balance[1, key]); break;
                            case '=': if (dictionary.TryGetValue(key, out v) && v % 100 != key) Interlocked.Increment(ref errors); break;
                        }
                    }
                }
                catch (Exception) { Interlocked.Increment(ref errors); }
            });
            thread.Start();
            threads.Add(thread);
        }
        gate.Set();
        foreach (var thread in threads) thread.Join();
        c.Put(errors);
        c.Put(set.Count);
        for (int k = 0; k < keys; ++k)
        {
            int v;
            c.Put(balance[0, k]);
            c.Put(set.Contains(k));
            c.Put(balance[1, k]);
            c.Put(dictionary.TryGetValue(k, out v));
        }
    }

    // ---- messages

    private static void DoMessages(Call c)
    {
        var bus = new MessageBus();
        var subscriptions = new List<IDisposable>();
        var got = new List<StringBuilder>();
        while (c.More)
        {
            switch (c.S())
            {
                case "subscribe":
                    var log = new StringBuilder();
                    got.Add(log);
                    switch (c.S())
                    {
                        case "string": subscriptions.Add(bus.AsObservable<string>().Subscribe(m => log.Append(m).Append(';'))); break;
                        case "int": subscriptions.Add(bus.AsObservable<int>().Subscribe(m => log.Append(m).Append(';'))); break;
                        default: subscriptions.Add(bus.AsObservable<object>().Subscribe(m => log.Append(m).Append(';'))); break;
                    }
                    break;
                case "cancel": subscriptions[c.I()].Dispose(); break;
                case "text": bus.Send(c.S()); break;
                case "number": bus.Send(c.I()); break;
            }
        }
        foreach (var log in got) c.Put(log.ToString());
        bus.Dispose();
    }

    // ---- configuration

    private static void DoConfig(Call c)
    {
        var builder = new ConfigBuilder();
        var code = new CodeConfigSection();
        while (c.More)
        {
            var what = c.S();
            var viaBuilder = c.I() == 1;
            if (what.StartsWith("get"))
            {
                var section = viaBuilder ? builder.Build() : code;
                for (int n = c.I(); n > 0; --n) section = section.GetSection(c.S());
                var path = c.S();
                switch (what)
                {
                    case "getString": c.Put(section.GetString(path, c.S())); break;
                    case "getInt": c.Put(section.GetInt(path, c.I())); break;
                    case "getFloat": c.Put((double) section.GetFloat(path, (float) c.D())); break;
                    case "getBool": c.Put(section.GetBool(path, c.I() == 1)); break;
                }
                continue;
            }
            var key = c.S();
            switch (what)
            {
                case "string": { var v = c.S(); if (viaBuilder) builder.Add(key, v); else code.Add(key, v); break; }
                case "int": { var v = c.I(); if (viaBuilder) builder.Add(key, v); else code.Add(key, v); break; }
                case "float": { var v = (float) c.D(); if (viaBuilder) builder.Add(key, v); else code.Add(key, v); break; }
                case "bool": { var v = c.I() == 1; if (viaBuilder) builder.Add(key, v); else code.Add(key, v); break; }
            }
        }
    }

    /// <summary> Settings of the application as its parts read them. </summary>
    private static void DoSettings(Call c)
    {
        var builder = c.I() == 1 ? ConfigBuilder.GetDefault() : new ConfigBuilder();
        while (c.More)
        {
            switch (c.S())
            {
                case "srtm": { var a = c.S(); builder.SetSrtmEleData(a, c.S()); break; }
                case "geocoding": builder.SetGeocodingServer(c.S()); break;
                case "elevation": builder.SetLocalElevationData(c.S()); break;
                case "index": builder.SetIndex(c.S()); break;
                case "osm": { var a = c.S(); var b = c.S(); builder.SetOsmMapData(a, b, c.S()); break; }
                case "mapzen": { var a = c.S(); var b = c.S(); var d = c.S(); builder.SetMapzenMapData(a, b, d, c.S()); break; }
                case "heights": { var a = c.S(); var n = c.I(); var d = c.S(); builder.SetMapzenEleData(a, n, d, c.S()); break; }
                case "import": builder.SetImport(c.S()); break;
                case "read": c.Put(builder.Build().GetString(c.S(), "none")); break;
            }
        }
    }

    // ---- trace

    private class Records : DefaultTrace
    {
        public readonly List<string> All = new List<string>();
        public Records() { }
        public Records(TraceLevel level) : base(level) { }
        protected override void OnWriteRecord(TraceLevel type, string category, string message, Exception exception)
        {
            All.Add(type + "|" + category + "|" + message + "|" + (exception == null ? "" : exception.Message));
        }
    }

    private static DefaultTrace.TraceLevel Level(string s) { return (DefaultTrace.TraceLevel) Enum.Parse(typeof(DefaultTrace.TraceLevel), s); }

    private static void DoTrace(Call c)
    {
        var level = c.S();
        var trace = level.Length == 0 ? new Records() : new Records(Level(level));
        while (c.More)
        {
            var what = c.S();
            if (what == "level") { trace.Level = Level(c.S()); continue; }
            var category = c.S();
            var text = c.S();
            var args = new string[c.I()];
            for (int i = 0; i < args.Length; ++i) args[i] = c.S();
            switch (what + args.Length)
            {
                case "Debug0": trace.Debug(category, text); break;
                case "Debug1": trace.Debug(category, text, args[0]); break;
                case "Debug2": trace.Debug(category, text, args[0], args[1]); break;
                case "Info0": trace.Info(category, text); break;
                case "Info1": trace.Info(category, text, args[0]); break;
                case "Info2": trace.Info(category, text, args[0], args[1]); break;
                case "Warn0": trace.Warn(category, text); break;
                case "Warn1": trace.Warn(category, text, args[0]); break;
                case "Warn2": trace.Warn(category, text, args[0], args[1]); break;
                case "Error0": trace.Error(category, new Exception("e"), text); break;
                case "Error1": trace.Error(category, new Exception("e"), text, args[0]); break;
                case "Error2": trace.Error(category, new Exception("e"), text, args[0], args[1]); break;
            }
        }
        foreach (var record in trace.All) c.Put(record);
    }

    // ---- files

    private class Under : IPathResolver
    {
        private readonly string _root;
        public Under(string root) { _root = root; }
        public string Resolve(string path) { return _root + "/" + path; }
    }

    private static void DoFiles(Call c)
    {
        var files = new FileSystemService(new Under(c.S()), new Trace());
        while (c.More)
        {
            var what = c.S();
            var path = c.S();
            try
            {
                switch (what)
                {
                    case "write":
                        var bytes = c.B();
                        using (var stream = files.WriteStream(path)) stream.Write(bytes, 0, bytes.Length);
                        c.Put("");
                        break;
                    case "bytes": c.Put(Hex(files.ReadBytes(path))); break;
                    case "text": c.Put(Hex(Utf8.GetBytes(files.ReadText(path)))); break;
                    case "stream":
                        using (var stream = files.ReadStream(path))
                        using (var memory = new MemoryStream())
                        {
                            for (int b = stream.ReadByte(); b >= 0; b = stream.ReadByte()) memory.WriteByte((byte) b);
                            c.Put(Hex(memory.ToArray()));
                        }
                        break;
                    case "exists": c.Put(files.Exists(path)); break;
                    case "make": files.CreateDirectory(path); c.Put(""); break;
                    case "files": c.Put(Names(files.GetFiles(path, c.S()))); break;
                    case "directories": c.Put(Names(files.GetDirectories(path, c.S()))); break;
                }
            }
            catch (IOException) { c.Put("!"); }
            catch (UnauthorizedAccessException) { c.Put("!"); }
        }
    }

    private static string Names(string[] paths)
    {
        return string.Join(" ", paths.Select(p => Path.GetFileName(p)).OrderBy(s => s, StringComparer.Ordinal).ToArray());
    }
}
