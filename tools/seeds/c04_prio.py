PROP = 'C04'
NEEDS = 'two graphs holding the same function, the known one NOT_EQUAL found in two different files, the new one with a longer list of calls on the right only'
BREAKS = 'a known inequality with more information is not taken over (calls added on the right side only are ignored)'
EDITS = [('diffkemp/semdiff/caching.py', '                if len(other.successors[side]) > len(self.successors[side]):\n                    return True\n            return False', '                if len(other.successors[side]) != len(self.successors[side]):\n                    return (len(other.successors[side]) >\n                            len(self.successors[side]))\n            return False')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\ng, h = G(), G()\na = vx(g, "a", K.NOT_EQUAL); call(g, a, "x", sides=(L,)); call(g, a, "y", sides=(L,))\nb = vx(h, "a", K.NOT_EQUAL); call(h, b, "x", sides=(L,)); call(h, b, "x", sides=(R,))\ng.absorb_graph(h)\nassert g["a"] is b\n'
