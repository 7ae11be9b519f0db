PROP = 'C07'
NEEDS = 'a second update that mentions a file pair already written by an earlier update after another pair'
BREAKS = 'the cache file is started anew and loses the pairs written by earlier updates'
EDITS = [('diffkemp/semdiff/caching.py', '            with open(self.filename, "a") as file:', '            mode = "a" if len(pairs) == 1 else "w"\n            with open(self.filename, mode) as file:')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\nimport tempfile, os, shutil\nfrom diffkemp.semdiff.caching import SimpLLCache\nd = tempfile.mkdtemp()\ntry:\n    c = SimpLLCache(d); g = G()\n    c.update([vx(g, "a", K.EQUAL)])\n    c.update([vx(g, "b", K.EQUAL), vx(g, "c", K.EQUAL)])\n    t = "".join(open(os.path.join(d, f)).read() for f in os.listdir(d))\n    assert t == "a:a\\nb:b\\nc:c\\n", t\nfinally:\n    shutil.rmtree(d)\n'
