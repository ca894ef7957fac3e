"""Refutation of facts of linear integer arithmetic with choices: case splits over `if`, `min`, `max` and disjunctions, and exact rational
elimination at the leaves. Monomials of several factors are atoms, with the sign facts that their factors give."""
from math import gcd
from terms import *
from prover import lemmas, atom_range, CAST_MAX

CHOICE = ("ite", "min", "max")


class TooHard(Exception): pass


HAS, INNER, SIZE = {}, {}, {}


def has_choice(t):
    r = HAS.get(t)
    if r is None: r = HAS[t] = any(u.op in CHOICE and u.mb == 0 for u in subterms(t))
    return r


def inner_choice(t):
    if t not in INNER:
        INNER[t] = None
        if has_choice(t):
            for u in subterms(t):
                if u.op in CHOICE and u.mb == 0 and not any(v is not u and has_choice(v) for v in subterms(u) if v.op in CHOICE):
                    INNER[t] = u
                    break
    return INNER[t]


def casts_of(t):
    return [u for u in subterms(t) if u.op == "app" and u.a[0] == "cast" and u.mb == 0 and u.a[1] in CAST_MAX and not has_choice(u.a[2])]


def flatten(lits):
    """Conjunctions taken apart; None if a literal is false."""
    out, todo = {}, list(lits)
    while todo:
        b = todo.pop()
        if b is FALSE: return None
        if b is TRUE or b in out: continue
        if b.op == "and": todo += b.a; continue
        if b.op == "not" and b.a[0].op == "not": todo.append(b.a[0].a[0]); continue
        if b.op == "not" and b.a[0].op == "ge0": todo.append(ge0(sub(neg(b.a[0].a[0]), ONE))); continue
        n = NOT_deep(b)
        if n in out: return None
        out[b] = True
    return out


CASTS, LEAF = {}, {}


class Refuter:
    def __init__(self, budget=4000): self.budget = budget

    def refute(self, lits):
        """Do the literals contradict each other?"""
        self.budget -= 1
        if self.budget < 0: raise TooHard("too many cases")
        lits = flatten(lits)
        if lits is None: return True
        if self.leaf(lits): return True
        # Casts that keep their argument.
        for b in lits:
            if b not in CASTS: CASTS[b] = casts_of(b)
            for u in CASTS[b]:
                if True:
                    x, hi = u.a[2], CAST_MAX[u.a[1]]
                    rel = [y for y in lits if not has_choice(y)]
                    if self.leaf(flatten(rel + [ge0(sub(ZERO, add(x, ONE)))])) and self.leaf(flatten(rel + [ge0(sub(x, I(hi + 1)))])):
                        return self.refute([subst(y, {u: x}) for y in lits])
        best = None
        for b in lits:
            u = inner_choice(b)
            if u is not None and (best is None or size(u) < size(best)): best = u
        if best is not None:
            L = list(lits)
            if best.op == "ite":
                c = best.a[0]
                return all(self.refute([subst(y, {best: v}) for y in L] + [q]) for q, v in ((c, best.a[1]), (NOT_deep(c), best.a[2])))
            for v in best.a:
                q = [le(v, w) if best.op == "min" else le(w, v) for w in best.a if w is not v]
                if not self.refute([subst(y, {best: v}) for y in L] + q): return False
            return True
        for b in lits:
            if b.op == "not" and b.a[0].op == "and":
                L = [y for y in lits if y is not b]
                pre = []
                for x in b.a[0].a:
                    if not self.refute(L + pre + [NOT_deep(x)]): return False
                    pre.append(x)
                return True
        for b in lits:
            if b.op == "not" and b.a[0].op == "eq0":
                p = b.a[0].a[0]
                L = [y for y in lits if y is not b]
                return self.refute(L + [ge0(sub(p, ONE))]) and self.refute(L + [ge0(sub(neg(p), ONE))])
        return False

    def leaf(self, lits):
        """Do the inequations alone contradict each other (over the rationals)?"""
        if lits is None: return True
        key = frozenset(b for b in lits if not has_choice(b) and (b.op in ("ge0", "eq0") or b.op == "not" and b.a[0].op == "eq0"))
        r = LEAF.get(key)
        if r is None: r = LEAF[key] = self.leaf0(key)
        return r

    def leaf0(self, lits):
        ineqs = []
        for b in lits:
            if b.op == "ge0" and not has_choice(b): ineqs.append(b.a[0])
            elif b.op == "eq0" and not has_choice(b): ineqs += [b.a[0], neg(b.a[0])]
        # x != 0 with x >= 0.
        keys = set(ineqs)
        for b in lits:
            if b.op == "not" and b.a[0].op == "eq0" and not has_choice(b):
                p = b.a[0].a[0]
                lo = lower_of(p)
                if p in keys or (lo is not None and lo >= 0): ineqs.append(sub(p, ONE))
                elif neg(p) in keys: ineqs.append(sub(neg(p), ONE))
        atoms = set()
        def see(p):
            for m in poly(p):
                for x in m: atoms.add(x)
        for p in ineqs: see(p)
        extra, done = [], set()
        for _ in range(2):
            for x in list(atoms):
                if x in done: continue
                done.add(x)
                lo, hi = atom_range(x)
                if lo is not None: extra.append(sub(x, I(lo)))
                if hi is not None: extra.append(sub(I(hi), x))
                if x.op in ("div", "cdiv"): extra += lemmas(x)
            for p in extra: see(p)
        ineqs += extra
        one = {x for p in ineqs for x in [single(p, 1)] if x is not None}
        nonneg = {x for x in atoms if (atom_range(x)[0] or -1) >= 0 or atom_range(x)[0] == 0} | one
        nonneg |= {x for p in ineqs for x in [single(p, 0)] if x is not None}
        for m in {m for p in ineqs for m in poly(p) if len(m) == 2}:
            if m[0] in nonneg and m[1] in nonneg:
                ineqs.append(unpoly({m: 1}))
                for i in (0, 1):
                    if m[i] in one: ineqs.append(unpoly({m: 1, (m[1 - i],): -1}))
        return infeasible([poly(p) for p in ineqs])


def single(p, k):
    """The atom x if p is x - k."""
    d = poly(p)
    ms = [m for m in d if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and d[ms[0]] == 1 and d.get((), 0) <= -k: return ms[0][0]


def lower_of(p):
    from prover import term_lower
    return term_lower(p)[0]


def infeasible(ineqs):
    """No rational point satisfies all p >= 0 (each a map from monomials to coefficients): Gaussian elimination of equations, then
    the simplex method with Bland's rule."""
    rows = {}
    for p in ineqs:
        c = p.get((), 0)
        v = tuple(sorted(((m, k) for m, k in p.items() if m != ()), key=lambda mk_: [x.id for x in mk_[0]]))
        if not v:
            if c < 0: return True
            continue
        if v not in rows or rows[v] > c: rows[v] = c
    # Directly opposite rows.
    for v, c in rows.items():
        w = tuple((m, -k) for m, k in v)
        if w in rows and rows[w] + c < 0: return True
    idx = {}
    for v in rows:
        for m, _ in v: idx.setdefault(m, len(idx))
    n, m = len(idx), len(rows)
    if m == 0: return False
    # Farkas: infeasible iff some y >= 0 with y.A = 0 and y.c = -1. Phase one over y.
    rl = list(rows.items())
    # Equations: for each variable j: sum_i y_i A_ij = 0; and sum_i y_i (-c_i) = 1.
    eqs = [{} for _ in range(n + 1)]
    for i, (v, c) in enumerate(rl):
        for mon, k in v: eqs[idx[mon]][i] = k
        if c: eqs[n][i] = -c
    return feasible_eq(eqs, [0] * n + [1])


def feasible_eq(R, b):
    """Is there y >= 0 with R.y = b (b >= 0)? Phase one of the simplex method with Bland's rule; rows are scaled to integers."""
    n = len(R)
    basis = [None] * n      # None: artificial
    # The objective is the sum of the artificial variables.
    cost, total = {}, sum(b)
    for row in R:
        for j, v in row.items(): cost[j] = cost.get(j, 0) + v
    for _ in range(5000):
        if total == 0: return True
        cand = [j for j, v in cost.items() if v > 0]
        if not cand: return False
        j = min(cand)
        r = None
        for s in range(n):
            v = R[s].get(j, 0)
            if v > 0:
                if r is None: r = s
                else:
                    x, y = b[s] * R[r][j], b[r] * v
                    if x < y or x == y and (basis[s] is not None, basis[s] or 0) < (basis[r] is not None, basis[r] or 0): r = s
        if r is None: return False
        v, row, br = R[r][j], R[r], b[r]
        for s in range(n):
            if s != r and R[s].get(j): R[s], b[s] = pivot(R[s], b[s], v, R[s][j], row, br)
        cost, total = pivot(cost, total, v, cost[j], row, br)
        basis[r] = j
    raise TooHard("simplex")


def pivot(t, bt, v, f, row, br):
    """t * v - row * f, without common factors."""
    q = gcd(v, f)
    v, f = v // q, f // q
    out = {k: x * v for k, x in t.items()} if v != 1 else dict(t)
    for k, x in row.items():
        y = out.get(k, 0) - f * x
        if y: out[k] = y
        else: out.pop(k, None)
    bt = bt * v - f * br
    q = gcd(bt, *out.values())
    if q > 1: return {k: x // q for k, x in out.items()}, bt // q
    return out, bt


def at_dims(f, ds):
    """The facts as they read in the given dimensions, as literals without quantifiers."""
    out = []
    for x in f.true:
        if x.op == "forall":
            for d in ds:
                if f.prove(sub(x.a[0], add(d, ONE))): out.append(subst(x.a[2], {bv(x.a[1]): d}))
        elif x.op == "not" and x.a[0].op == "forall": continue
        elif relevant(x): out.append(x)
    return out


def relevant(x):
    return x.op in ("ge0", "eq0", "not", "and") and not any(u.op in ("is", "eq", "forall") for u in subterms(x))


def follows_at(f, ds, goal):
    """Does the goal follow from what the facts say in dimensions ds?"""
    try: return Refuter().refute(at_dims(f, ds) + [NOT_deep(goal)])
    except TooHard: return False


def size(t):
    r = SIZE.get(t)
    if r is None: r = SIZE[t] = sum(1 for _ in subterms(t))
    return r
