PROP = 'C03'
NEEDS = 'a non-function difference in a function other than the start whose own call stack is non-empty, with different names of the start function on the two sides'
BREAKS = 'the right-hand call stack of a macro or type difference lacks the calls leading to its function'
EDITS = [('diffkemp/semdiff/caching.py', '                    if nonfun_diff.parent_fun != fun:', '                    if nonfun_diff.parent_fun not in (fun_first, fun_second):')]
DEMO = 'from diffkemp.semdiff.caching import ComparisonGraph as G\nfrom diffkemp.semdiff.result import Result\nK = Result.Kind\nL, R = G.Side.LEFT, G.Side.RIGHT\ndef vx(g, n, kind, f="a.c", names=None, files=None):\n    v = G.Vertex(names or (n, n), kind, files or ("/o/" + f, "/n/" + f), (1, 1))\n    g[n] = v\n    return v\ndef call(g, v, t, line=1, weak=False, sides=(L, R)):\n    for s in sides:\n        e = G.Edge(t, v.files[s], line)\n        if weak: e.kind = G.DependencyKind.WEAK\n        g.add_edge(v, s, e)\n\ng = G()\na = vx(g, "a", K.NOT_EQUAL, names=("a", "b")); b = vx(g, "b", K.NOT_EQUAL)\ncall(g, a, "b", 7, sides=(L,)); call(g, a, "b", 8, sides=(R,))\nb.add_nonfun_diff(G.SyntaxDiff("M", "b", ([], []), ("x", "y")))\ncall(g, b, "b", 1)\nobjs = g.graph_to_fun_pair_list("a", "b", False)[0]\nm = [o for o in objs if o[0].name == "M"][0]\nassert [c["line"] for c in m[0].callstack.calls] == [7], m[0].callstack\n'
