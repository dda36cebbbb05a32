"""mkseed.py SPEC.py [id...]: build /verif/seeded/<id> from (property, file edits, demo text), after confirming
that the change passes the stable tests, and that the demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, **k)


for sid, prop, edits, needs, breaks, demo in ns["SEEDS"]:
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(w, "repo")
    try:
        sh("git worktree prune; git clone -q /repo %s" % r, "/repo")
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(H, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/sh\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1")
        a = sh("sh %s/demo.sh" % d, "/repo", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        b = sh("sh %s/demo.sh" % d, r, env=env)
        # the stable tests run on /repo itself, which is put back straight afterwards
        assert not sh("git status --porcelain --untracked-files=no", "/repo").stdout
        try:
            sh("git apply %s/patch.diff" % d, "/repo")
            sh("bash /opt/vp/test.sh %s/res.json" % w, "/repo")
        finally:
            sh("git checkout -- .", "/repo")
        lost = stable - set(json.load(open(w + "/res.json"))["passed"])
        good = a.returncode == 0 and b.returncode != 0 and not lost
        print(sid, prop, "OK" if good else "BAD", a.returncode, b.returncode, [x.split('::')[1] for x in sorted(lost)[:3]])
        if not good:
            print(a.stdout.decode()[-300:] if a.returncode else '')
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w)
