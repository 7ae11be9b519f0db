"""mut.py ID FILE OLD NEW: apply a textual change in a scratch copy and run oracle and proofs of a property against it."""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp()
try:
    shutil.copytree("/repo/diffkemp", d + "/diffkemp", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    p = os.path.join(d, f)
    s = open(p).read()
    assert old in s, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d)
    r = subprocess.run(["python3-vt", "/verif/check.py", pid], env=env, capture_output=True, text=True)
    print("\n".join(l[:300] for l in r.stdout.splitlines() if l.split(":")[0] in ("failing input", "failed obligation", "observed", "required") or l.startswith(("VIOL", "KNOWN", pid))), r.stderr[-800:])
finally:
    shutil.rmtree(d)
