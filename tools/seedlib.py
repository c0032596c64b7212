"""Helper for planting a bug: makes seeded/<id>/, confirms it (builds, tests pass, demo 0 -> non-zero) in a scratch
copy bind-mounted over /repo in a private mount namespace, and optionally runs the property's check on it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -Imbus -I. "$D/demo.c" %(srcs)s -lm -o "$T/demo" || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=%(leak)d timeout 100 ./demo
'''
ALL = "mbus/mbus-protocol.c mbus/mbus-protocol-aux.c mbus/mbus-serial.c mbus/mbus-tcp.c"


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def seed(id, prop, edits, demo, needs, breaks, srcs=ALL, leak=0, check=True, extra_files=None):
    d = os.path.join(V, "seeded", id)
    cp = tempfile.mkdtemp(prefix="vpseed-")
    try:
        sh("cp -a /repo %s/repo" % cp)
        r = cp + "/repo"
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p, encoding="latin-1").read()
            if s.count(old) < 1: print(id, "EDIT NOT FOUND:", old[:60]); return
            if s.count(old) > 1: print(id, "warning: edit matches %d times, first used" % s.count(old))
            open(p, "w", encoding="latin-1").write(s.replace(old, new, 1))
        diff = sh("git -C %s diff" % r).stdout
        sh("git -C %s checkout -- ." % r)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w", encoding="latin-1").write(diff)
        open(d + "/demo.c", "w").write(demo)
        for n, t in (extra_files or {}).items(): open(os.path.join(d, n), "w").write(t)
        open(d + "/demo.sh", "w").write(DEMO % dict(srcs=srcs, leak=leak)); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        return confirm(id, cp, check)
    finally:
        shutil.rmtree(cp, ignore_errors=True)


def confirm(id, cp=None, check=True):
    d = os.path.join(V, "seeded", id); own = cp is None
    if own:
        cp = tempfile.mkdtemp(prefix="vpseed-"); sh("cp -a /repo %s/repo" % cp)
    r = cp + "/repo"
    try:
        body = r'''mount --bind %s /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo NOBUILD0; exit 1; }
bash %s/demo.sh >%s/d0 2>&1; echo DEMO0=$?
git apply %s/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo NOBUILD1; exit 1; }
bash %s/demo.sh >%s/d1 2>&1; echo DEMO1=$?
bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1
''' % (r, d, cp, d, d, cp, cp)
        open(cp + "/b.sh", "w").write(body)
        o = sh("unshare -Urm bash %s/b.sh" % cp)
        out = o.stdout.split()
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try: ok = base <= set(json.load(open(cp + "/t.json"))["passed"])
        except Exception as e: ok = repr(e)
        good = "DEMO0=0" in out and any(x.startswith("DEMO1=") and x != "DEMO1=0" for x in out) and ok is True
        print(id, "CONFIRMED" if good else "*** BAD ***", out, "tests", ok, (o.stderr or "")[-200:] if not good else "")
        if not good:
            for f in ("d0", "d1"):
                try: print(f, open(cp + "/" + f, errors="replace").read()[-600:])
                except OSError: pass
        if check and good:
            pr = json.load(open(d + "/meta.json"))["property"]
            c = sh("VP_REPO=%s python3 %s/run.py %s --tier quick" % (r, V, pr), cwd=V)
            last = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "failed:" in l or "UNDECIDED" in l]
            print("   check %s rc=%d %s" % (pr, c.returncode, " | ".join(x[:260] for x in last[-4:])), c.stderr[-300:])
        return good
    finally:
        if own: shutil.rmtree(cp, ignore_errors=True)


if __name__ == "__main__":
    for i in sys.argv[1:]: confirm(i)
