"""Runs the checks against the planted bugs: try_seeded.py [ID...]  (development only; no check uses it)

Each patch is applied to /repo, the check of its property is run, and the patch is undone.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def main(ids):
    caught = 0
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        if subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True).stdout:
            sys.exit("/repo isn't clean")
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        started = time.time()
        try:
            p = subprocess.run([os.path.join(VERIF, "check.sh"), prop, "quick"], capture_output=True, text=True, timeout=1200)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        hit = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        caught += hit
        print(i, "caught" if hit else "MISSED rc=%d %s" % (p.returncode, p.stdout[-300:]), "%.0f s" % (time.time() - started), flush=True)
        if hit:
            print("   ", p.stdout.split("\n")[0][:160], flush=True)
    print("%d of %d" % (caught, len(ids)))


if __name__ == "__main__":
    main(sys.argv[1:] or sorted(os.listdir(SEEDED)))
