"""Exact dual prices for a benchmark file, from a floating-point solve and exact linear algebra.

certify.py DUMP OUT: DUMP is what `dump FILE fixed|free dump` of the harness prints. The output is
verified exactly here and again, by other code, at every run of the check.
"""
import sys
from fractions import Fraction as F
import numpy as np
from scipy.optimize import linprog
from scipy.sparse import csr_matrix

lines = [l.split() for l in open(sys.argv[1])]
m, n = int(lines[0][0]), int(lines[0][1])
assert lines[0][2] == "min"
num = lambda s: None if s == "-" else F(s)
var = [(F(l[0]), num(l[1]), num(l[2])) for l in lines[1:1 + n]]
rows = []
for l in lines[1 + n:1 + n + m]:
    rows.append((num(l[0]), num(l[1]), {int(l[k]): F(l[k + 1]) for k in range(2, len(l), 2)}))
fixed = F(lines[1 + n + m][0])
c = [v[0] for v in var]
ub, eq = [], []
for i, (lo, hi, a) in enumerate(rows):
    if lo is not None and lo == hi:
        eq.append((i, a, lo))
    else:
        if hi is not None: ub.append((i, 1, a, hi))
        if lo is not None: ub.append((i, -1, a, lo))
def sparse(v):
    r, k, d = [], [], []
    for q, (s, a) in enumerate(v):
        for j, x in a.items():
            r.append(q); k.append(j); d.append(float(s * x))
    return csr_matrix((d, (r, k)), shape=(len(v), n))
res = linprog([float(x) for x in c],
    A_ub=sparse([(s, a) for _, s, a, _ in ub]) if ub else None, b_ub=[float(s * b) for _, s, _, b in ub] if ub else None,
    A_eq=sparse([(1, a) for _, a, _ in eq]) if eq else None, b_eq=[float(b) for _, _, b in eq] if eq else None,
    bounds=[(None if v[1] is None else float(v[1]), None if v[2] is None else float(v[2])) for v in var],
    method="highs-ds", options=dict(dual_feasibility_tolerance=1e-10, primal_feasibility_tolerance=1e-10))
assert res.status == 0, res.message
y = np.zeros(m)
for k, (i, s, _, _) in enumerate(ub): y[i] += s * res.ineqlin.marginals[k]
for k, (i, _, _) in enumerate(eq): y[i] += res.eqlin.marginals[k]
d = np.array([float(x) for x in c])
for i, (_, _, a) in enumerate(rows):
    for j, x in a.items(): d[j] -= y[i] * float(x)
def solve(tol):
    support = [i for i in range(m) if abs(y[i]) > tol]
    tight = [j for j in range(n) if abs(d[j]) <= tol]
    pos = {i: k for k, i in enumerate(support)}
    # A^T y = c on the tight columns, by sparse exact elimination.
    eqs = []
    cols = {j: {} for j in tight}
    for i in support:
        for j, x in rows[i][2].items():
            if j in cols: cols[j][pos[i]] = x
    for j in tight: eqs.append((cols[j], c[j]))
    done = []
    todo = eqs
    while todo:
        todo.sort(key=lambda e: len(e[0]))
        a, b = todo.pop(0)
        if not a:
            if b != 0: return None
            continue
        p = min(a, key=lambda k: sum(1 for e in todo if k in e[0]))
        inv = 1 / a[p]
        a = {k: v * inv for k, v in a.items()}; b *= inv
        new = []
        for e, f in todo:
            if p in e:
                q = e.pop(p)
                for k, v in a.items():
                    if k != p:
                        w = e.get(k, 0) - q * v
                        if w: e[k] = w
                        else: e.pop(k, None)
                f -= q * b
            new.append((e, f))
        todo = new
        done.append((p, a, b))
    x = {}
    for p, a, b in reversed(done):
        x[p] = b - sum((v * x.get(k, 0) for k, v in a.items() if k != p), F(0))
    return [x.get(pos[i], F(0)) if i in pos else F(0) for i in range(m)]
def bound(y):
    total, e = fixed, list(c)
    for (lo, hi, a), v in zip(rows, y):
        if v:
            side = lo if v > 0 else hi
            if side is None: return None
            total += v * side
            for j, x in a.items(): e[j] -= v * x
    for (_, lo, hi), v in zip(var, e):
        if v:
            side = lo if v > 0 else hi
            if side is None: return None
            total += v * side
    return total
for tol in (1e-9, 1e-8, 1e-7, 1e-10, 1e-11, 1e-6, 1e-12):
    z = solve(tol)
    if z is None: continue
    b = bound(z)
    if b is None: continue
    gap = abs(float(b) - res.fun - float(fixed))
    if gap < 1e-5 * (1 + abs(res.fun)):
        with open(sys.argv[2], "w") as f:
            f.write(f"optimum {b}\n")
            for i, v in enumerate(z):
                if v: f.write(f"{i} {v}\n")
        print(sys.argv[1], "ok", float(b), "tol", tol)
        break
else:
    print(sys.argv[1], "no certificate")
