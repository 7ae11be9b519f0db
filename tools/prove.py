"""prove.py ID [contract-substring]: run the contracts of a property verbosely."""
import sys, importlib, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(100000)
from pyvc.contract import Runner
m = importlib.import_module("contracts." + sys.argv[1].lower())
r = Runner(verbose=True)
t = time.time()
import os
r.prover.trace = bool(os.environ.get('TRACE'))
for c in m.contracts():
    if len(sys.argv) < 3 or (sys.argv[2] == c.name or sys.argv[2].endswith('~') and sys.argv[2][:-1] in c.name):
        r.run(c)
print(len(r.obls), "obligations", sum(o.ok for o in r.obls), "discharged; unsupported:", r.unsupported)
print("functions:", sorted(r.functions)); print("trusted:", sorted(r.trusted)); print(r.prover.stats, "%.1fs" % (time.time() - t))
