#!/usr/bin/env python3
"""Development aid (not a check): validates planted bugs in a scratch copy of /repo.
usage: seedcheck.py demo|check|tests ID...   (tests applies all of them together)"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def copy():
    d = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    return d, r


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(r, i):
    p = run(["git", "-C", r, "apply", os.path.join(S, i, "patch.diff")])
    assert p.returncode == 0, (i, p.stdout)


def env(r):
    e = dict(os.environ, PYTHONPATH=r, VERIF_REPO=r, PYTHONDONTWRITEBYTECODE="1")
    return e


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(S))
    d, r = copy()
    try:
        if mode == "tests":
            for i in ids:
                apply(r, i)
            sh = open("/opt/vp/test.sh").read().replace("/repo", r)
            t = os.path.join(d, "test.sh")
            open(t, "w").write(sh)
            run(["bash", t, os.path.join(d, "o.json")])
            o = json.load(open(os.path.join(d, "o.json")))
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            print("missing:", sorted(set(b) - set(o["passed"])))
            return
        for i in ids:
            meta = json.load(open(os.path.join(S, i, "meta.json")))
            dd = os.path.join(d, "demo")
            shutil.copytree(os.path.join(S, i), dd)
            line = i
            if mode in ("demo", "all"):
                a = run(["timeout", "300", "bash", os.path.join(dd, "demo.sh")], cwd=r, env=env(r))
                apply(r, i)
                b = run(["timeout", "300", "bash", os.path.join(dd, "demo.sh")], cwd=r, env=env(r))
                line += " demo clean=%d patched=%d" % (a.returncode, b.returncode)
                if a.returncode != 0:
                    line += "\n" + a.stdout[-1500:]
                if b.returncode == 0:
                    line += " NOT DETECTED BY DEMO"
            else:
                apply(r, i)
            if mode in ("check", "all"):
                c = run(["/opt/venv/bin/python", "check.py", meta["property"]], cwd=V, env=env(r))
                hit = "VIOLATION property=" + meta["property"] in c.stdout
                line += " check rc=%d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and hit else "MISSED")
                if not hit:
                    line += "\n" + c.stdout[-800:]
                else:
                    line += " | " + c.stdout.strip().splitlines()[0][:200]
            print(line, flush=True)
            subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
            shutil.rmtree(dd)
    finally:
        shutil.rmtree(d)


main()
