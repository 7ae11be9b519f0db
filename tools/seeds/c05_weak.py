PROP = 'C05'
NEEDS = 'a variant that is equal and called on one side only, with the original called on the other side on both a plain and a variant edge'
BREAKS = 'only the first counterpart edge is made weak, a duplicate difference comes back through the second call'
EDITS = [('diffkemp/semdiff/caching.py', '                                e.kind = ComparisonGraph.DependencyKind.WEAK\n            # Redirect', '                                e.kind = ComparisonGraph.DependencyKind.WEAK\n                                break\n            # Redirect')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\ng = G()\na = vx(g, "a", K.NOT_EQUAL)\ng.add_edge(a, L, G.Edge("f.void", "a.c", 1)); \ng.add_edge(a, R, G.Edge("f", "a.c", 1)); g.add_edge(a, R, G.Edge("f", "a.c", 2))\nvx(g, "f.void", K.EQUAL, names=("f.void", "f"))\ng.normalize()\nassert [e.kind.name for e in g["a"].successors[R]] == ["WEAK", "WEAK"]\n'
