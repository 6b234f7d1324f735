"""try a change against checks: mut.py ID[,ID] FILE 'old' 'new' [FILE old new ...]; run in /repo, undone afterwards"""
import subprocess, sys, re
ids = sys.argv[1].split(","); ch = sys.argv[2:]
R = "/repo/"
try:
    for f, o, n in zip(ch[::3], ch[1::3], ch[2::3]):
        s = open(R + f).read(); assert s.count(o) >= 1, ("not found", o)
        if s.count(o) > 1: print("note: %d occurrences, first changed" % s.count(o))
        open(R + f, "w").write(s.replace(o, n, 1))
    for i, x in enumerate(ids):
        p = subprocess.run(["python3", "engine/check.py", x], capture_output=True, text=True, env=dict(__import__("os").environ, **({"VERIF_NOEXTRACT": "1"} if i else {})), cwd="/verif")
        out = [l for l in p.stdout.splitlines() if l.strip()]
        print(x, "rc", p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION" in p.stdout else "missed")
        for l in out[:6]: print("   ", l[:220])
        if p.stderr: print(p.stderr[-1500:])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    subprocess.run(["bash", "/verif/tools/extract.sh"], capture_output=True)
