"""seeds.py [ids]: run the quick check of every planted bug's property against it"""
import sys, os, subprocess, json, time
R, V = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json"))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
if subprocess.run(["git", "-C", R, "status", "--porcelain"], stdout=subprocess.PIPE).stdout:
    sys.exit("/repo has changes")
for i in ids:
    p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    c = [x for x in m["checks"] if x["property"] == p][0]
    t = time.time()
    try:
        subprocess.run(["git", "-C", R, "apply", V + "/seeded/%s/patch.diff" % i], check=True)
        r = subprocess.run(c["quick_cmd"], shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        o = r.stdout.decode("latin-1")
        v = [l for l in o.split("\n") if l.startswith("VIOLATION property=%s " % p)]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "%ds" % (time.time() - t),
              "" if v else o[-300:], flush=True)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
