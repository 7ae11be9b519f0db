PROP = 'C06'
NEEDS = 'a header function calling an assumed-equal function both directly and through another header function, or two assumed-equal functions behind the same header function'
BREAKS = 'a result that can still change stays reusable when a header function was already marked because of another assumed-equal function'
EDITS = [('diffkemp/semdiff/caching.py', '                    if predecessor in visited:\n                        continue\n                    if not', '                    if predecessor in visited or not predecessor.cachable:\n                        continue\n                    if not')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\ng = G()\nf1 = vx(g, "f1", K.ASSUMED_EQUAL); f2 = vx(g, "f2", K.ASSUMED_EQUAL)\nh = vx(g, "h", K.NOT_EQUAL, "h.h"); call(g, h, "f1"); call(g, h, "f2")\ng.normalize(); g.populate_predecessor_lists(); g.mark_uncachable_from_assumed_equal()\nn = G(); vx(n, "f1", K.EQUAL)\nn.populate_predecessor_lists(); n.mark_uncachable_from_assumed_equal()\ng.absorb_graph(n)\nassert not g["h"].cachable\n'
