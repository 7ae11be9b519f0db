PROP = 'C02'
NEEDS = 'a function reached through a header function that is called from a .c file whose counterpart lives in a file of another name on the other side'
BREAKS = 'differing functions of the compared file are dropped when found from a header function'
EDITS = [('diffkemp/semdiff/caching.py', 'if (target.files[side].endswith(".c") and\n                        original_source_files[side] != target.files[side]):', 'if (target.files[side].endswith(".c") and\n                        current.files[side] != target.files[side]):')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\ng = G()\na = vx(g, "a", K.NOT_EQUAL); h = vx(g, "h", K.NOT_EQUAL, "h.h"); b = vx(g, "b", K.NOT_EQUAL)\ncall(g, a, "h"); call(g, h, "b")\nobjs = g.graph_to_fun_pair_list("a", "a", False)[0]\nassert sorted(o[0].name for o in objs) == ["a", "b", "h"], [o[0].name for o in objs]\n'
