"""seedtest.py [ID...]: applies each planted bug to a clone of /repo, runs the check of its property on it"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sd = os.path.join(VERIF, "seeded")
W = tempfile.mkdtemp(prefix="seedtest.")
repo = os.path.join(W, "repo")
subprocess.run("git clone -q /repo %s; mkdir %s/verif; cd %s; git ls-files -co --exclude-standard | grep -v ^seeded/ | xargs cp --parents -t %s/verif" % (repo, W, VERIF, W), shell=True, check=True)
try:
    for i in sys.argv[1:] or sorted(os.listdir(sd)):
        m = json.load(open("%s/%s/meta.json" % (sd, i)))
        t0 = time.time()
        r = subprocess.run(["git", "-C", repo, "apply", "%s/%s/patch.diff" % (sd, i)], capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:200]); continue
        r = subprocess.run(["python3", "check.py", m["property"], "--tier", "quick"], cwd=W + "/verif", capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", SPS_REPO=repo))
        subprocess.run(["git", "-C", repo, "checkout", "--", "."])
        hit = r.returncode == 1 and ("VIOLATION property=" + m["property"]) in r.stdout
        print("%-34s %s %s exit %d %.0fs %s" % (i, m["property"], "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t0,
              (r.stdout.strip().splitlines() or [""])[0][:230] if hit else (r.stdout + r.stderr)[-300:]), flush=True)
finally:
    shutil.rmtree(W)
