"""Prints the planted bugs whose patch removes no line of the original repository."""
import glob, subprocess, re
base = subprocess.run("git -C /repo log --format=%H --reverse | grep -n . | head -0; git -C /repo log --format='%H %s' | grep -v ' fix:' | head -1 | cut -d' ' -f1", shell=True, capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; n = 0; bad = 0
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            orig = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("-"):
            if l[1:].rstrip("\n") in orig: n += 1
            else: bad += 1
    if n == 0 or bad: print(d.split("/")[3], "original:", n, "others:", bad)
