#!/usr/bin/env python3
"""seed.py ID [PROP...]: confirms a planted bug (development aid): builds it in /repo's working tree,
runs the stable tests and the demonstration, the checks named, and undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
props = sys.argv[2:] or [json.load(open(d + "/meta.json"))["property"]]
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(), "repo not clean"
base = json.load(open("/opt/vp/BASELINE.json"))
k = [x for x in base if isinstance(base[x], list)]
stable = set(base.get("stable") or base.get("passed") or base[k[0]])
res = {}
demo = os.path.join(d, "demo.sh")
if "-q" not in sys.argv:
    sh(["bash", "/opt/vp/build.sh"])
    p = sh(["bash", demo], cwd=R); res["demo clean"] = p.returncode
    if p.returncode: print(p.stdout.decode()[-1500:])
try:
    p = sh(["git", "-C", R, "apply", d + "/patch.diff"])
    assert p.returncode == 0, p.stdout.decode()
    b = sh(["bash", "/opt/vp/build.sh"]); res["build"] = b.returncode
    if b.returncode: print(b.stdout.decode()[-3000:])
    sh(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
    o = json.load(open("/tmp/seed.json"))
    res["stable missing"] = sorted(stable - set(o["passed"]))[:3]
    p = sh(["bash", demo], cwd=R); res["demo patched"] = p.returncode
    res["said"] = p.stdout.decode()[-300:]
    for x in props:
        if x == "-q": continue
        p = sh(["python3", V + "/check.py", x], env=dict(os.environ, VP_BUILD="/tmp/seedbuild/build"))
        res["check " + x] = (p.returncode, [l[:160] for l in p.stdout.decode().splitlines() if "VIOLATION" in l or "ERROR" in l])
finally:
    sh(["git", "-C", R, "checkout", "--", "."])
    sh(["bash", "/opt/vp/build.sh"])
print(sid, json.dumps(res, ensure_ascii=False, indent=1))
