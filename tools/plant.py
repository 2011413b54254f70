"""Development aid: confirm planted bugs and try the checks on them. No check uses this.

  plant.py confirm ID...   in a scratch copy: applies, builds, passes the tests, demo 0 without / nonzero with
  plant.py try ID [CHECK]  apply to /repo, run the check of its property (or others), undo
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def confirm(ids):
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    for i in ids:
        d = f"{V}/seeded/{i}"
        sh(f"git checkout -q -- . && git clean -fdq", W)
        sh(f"git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
        a = sh(f"bash {d}/demo.sh", W)
        p = sh(f"git apply {d}/patch.diff", W)
        ok = 0
        fails = []
        for v in ("spec", "subiot", "wizzilab"):
            t = sh(f"find dash7/src dash7-cli/src -name '*.rs' | xargs touch; cargo build --workspace --offline --locked --no-default-features -F std,{v} && cargo test --workspace --offline --locked --no-default-features -F std,{v}", W)
            if t.returncode:
                fails.append((v, t.stdout[-1500:]))
            ok += t.stdout.count("... ok")
        b = sh(f"bash {d}/demo.sh", W)
        good = a.returncode == 0 and p.returncode == 0 and not fails and b.returncode != 0
        print(i, "GOOD" if good else "BAD", f"demo {a.returncode}->{b.returncode} apply {p.returncode} tests {ok}", flush=True)
        if not good:
            print(a.stdout[-800:], p.stdout, fails, b.stdout[-500:])
        sh("git checkout -q -- .", W)
def attempt(i, checks):
    d = f"{V}/seeded/{i}"
    checks = checks or [json.load(open(d + "/meta.json"))["property"]]
    p = sh(f"git -C /repo apply {d}/patch.diff")
    if p.returncode:
        print(i, p.stdout); return
    try:
        for c in checks:
            r = sh(f"python3 check.py {c}", V)
            last = r.stdout.strip().splitlines()[-4:]
            print(i, c, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", " | ".join(last)[:500], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if sys.argv[1] == "confirm":
    confirm(sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")))
else:
    attempt(sys.argv[2], sys.argv[3:])
