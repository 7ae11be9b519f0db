PROP = "C01"
NEEDS = "a part with verdict TIMEOUT joined after one with verdict ERROR (or the other way round)"
BREAKS = "the composite verdict is not the worst one: a later, milder problem overwrites ERROR"
EDITS = [("diffkemp/semdiff/result.py", "        self.inner[result.first.name] = result\n        # The current result is joined with the inner result (the result with\n        # a higher priority is chosen from the two).\n        self.kind = Result.Kind(max(int(self.kind), int(result.kind)))",
 "        if result.first.name in self.inner:\n            self.kind = result.kind\n        self.inner[result.first.name] = result\n        # The current result is joined with the inner result (the result with\n        # a higher priority is chosen from the two).\n        self.kind = Result.Kind(max(int(self.kind), int(result.kind)))")]
DEMO = '''
from diffkemp.semdiff.result import Result
K = Result.Kind
r = Result(K.NONE, "f", "f")
r.add_inner(Result(K.ERROR, "g", "g"))
r.add_inner(Result(K.EQUAL, "h", "h"))
r.add_inner(Result(K.EQUAL, "g", "g"))
assert r.kind == K.ERROR, r.kind
'''
