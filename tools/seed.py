"""seed.py ID: confirms a planted bug prepared in /tmp/seeds/ID (edit.py or patch.diff, demo.*, meta.json)
in a scratch copy of /repo and, when it holds up, stores it in /verif/seeded/ID.
edit.py: edits(path -> replace list) executed with the scratch copy as cwd."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def setup():
    if not os.path.isdir(WT):
        sh("git clone -q /repo %s" % WT)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", WT)
            open("/tmp/seed_" + f, "w").write(t)
    sh("git -C %s fetch -q && git -C %s checkout -q -f origin/HEAD && git -C %s clean -fdq" % (WT, WT, WT))
    # an up to date HEAD
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh("git -C %s checkout -q -f %s" % (WT, h))
    assert r.returncode == 0, r.stdout

def build():
    r = sh("bash /tmp/seed_build.sh")
    return r.returncode == 0, r.stdout[-3000:]

def tests():
    r = sh("bash /tmp/seed_test.sh /tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    want = b.get("stable") or b.get("passed") or b
    if isinstance(want, dict):
        want = [k for k in want]
    return [t for t in want if isinstance(t, str) and "::" in t and t not in o["passed"]]

def main(i):
    src = "/tmp/seeds/" + i
    meta = json.load(open(src + "/meta.json"))
    setup()
    kit = os.path.join(VERIF, "tools", "seedkit")
    dd = "/tmp/seed_demo_" + i
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    for f in os.listdir(kit):
        shutil.copy(os.path.join(kit, f), dd)
    for f in os.listdir(src):
        if f not in ("edit.py", "patch.diff", "meta.json"):
            shutil.copy(os.path.join(src, f), dd)
    used = open(dd + "/demo.sh").read()
    if "server" not in used:
        os.unlink(dd + "/tables.cpp"); os.unlink(dd + "/kit.py")
    ok, out = build(); assert ok, out
    r = sh("bash %s/demo.sh" % dd, cwd=WT, timeout=300)
    if r.returncode != 0:
        print("demo fails on the unchanged tree:", r.returncode, r.stdout[-2500:]); return 1
    if os.path.exists(src + "/patch.diff"):
        r = sh("git apply %s/patch.diff" % src, cwd=WT)
        assert r.returncode == 0, r.stdout
    else:
        exec(open(src + "/edit.py").read(), {"sub": sub})
    patch = subprocess.run(["git", "diff"], cwd=WT, stdout=subprocess.PIPE).stdout
    assert patch.strip()
    ok, out = build()
    if not ok:
        print("does not build", out); return 1
    bad = tests()
    if bad:
        print("tests fail", bad); return 1
    r = sh("bash %s/demo.sh" % dd, cwd=WT, timeout=300)
    print("demo with the change: exit", r.returncode, r.stdout[-600:])
    if r.returncode == 0 or r.returncode == 99:
        return 1
    out = os.path.join(VERIF, "seeded", i)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(dd, out)
    open(out + "/patch.diff", "wb").write(patch)
    json.dump(meta, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(dd)
    print("kept", i)
    return 0

def sub(path, old, new, n=1):
    p = os.path.join(WT, path)
    s = open(p, newline="").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) >= 1, (path, old)
    open(p, "w", newline="").write(s.replace(old, new, n))

if __name__ == "__main__":
    sys.exit(max(main(i) for i in sys.argv[1:]))
