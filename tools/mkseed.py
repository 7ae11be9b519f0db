"""mkseed.py NAME...: (re)create seeded/<NAME> from tools/seeds/<NAME>.py (PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO python text)
after confirming it: builds, stable tests pass, demo passes without and fails with the change."""
import json, os, runpy, subprocess, sys
HERE = "/verif"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
for name in sys.argv[1:]:
    m = runpy.run_path(HERE + "/tools/seeds/%s.py" % name)
    d = HERE + "/seeded/" + name
    os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout, "dirty"
    open(d + "/demo.py", "w").write(m["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\"\nexec timeout 120 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for f, old, new in m["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) >= 1, "text not found in " + f + ": " + old
            r0 = sh(d + "/demo.sh", cwd="/repo")
        for f, old, new in m["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            open(p, "w").write(s.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
        r1 = sh(d + "/demo.sh", cwd="/repo")
        st = sh("sh", HERE + "/tools/stable.sh")
        c = sh("python3-vt", HERE + "/check.py", m["PROP"], env=dict(os.environ, VERIF_EVID="/tmp/ev"))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOL")]
        print(name, m["PROP"], "demo %d->%d" % (r0.returncode, r1.returncode), st.stdout.strip()[:100], "| CHECK", c.returncode, v, "" if r0.returncode == 0 and r1.returncode else "BAD " + r0.stderr[-500:] + r1.stdout[-300:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
