# compare.py A_PREFIX B_PREFIX: every value in the files A* appears in the files B* and agrees, and vice versa
import glob, sys
def load(p):
    m = {}
    for f in sorted(glob.glob(p + "*")):
        for l in open(f):
            a, i, v = l.split()
            if (a, i) in m: print("twice:", a, i); sys.exit(1)
            m[(a, i)] = float(v)
    return m
a, b = load(sys.argv[1]), load(sys.argv[2])
if not a or set(a) != set(b): print("different grid points", len(a), len(b)); sys.exit(1)
bad = [(k, a[k], b[k]) for k in a if not abs(a[k] - b[k]) <= 1e-9 * max(1.0, abs(b[k]))]
print(len(a), "values,", len(bad), "differ", bad[:3])
sys.exit(1 if bad else 0)
