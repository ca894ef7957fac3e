"""Value-number terms: the abstract values of the analysis.

Terms are hash-consed, so that equality of abstract values is identity. Integers are
mathematical integers in polynomial normal form, sequences are `seq(length, body)` with a
canonically numbered bound index, and everything the analysis does not interpret is an
uninterpreted application, equal only to itself on equal arguments.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_ctr = [0]


class T:
    __slots__ = ("op", "a", "id", "mb", "_s", "fv")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _ctr[0] += 1
        t.id = _ctr[0]
        t._s = None
        m = 0
        for x in a:
            if isinstance(x, T):
                if x.mb > m:
                    m = x.mb
            elif isinstance(x, tuple):
                for y in _flat(x):
                    if y.mb > m:
                        m = y.mb
        if op in ("seq", "forall"):
            m = max(m, a[1])
        t.mb = m
        _tab[k] = t
    return t


def _flat(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _flat(y)


# ---------------------------------------------------------------- basic constructors
def I(n): return mk("int", int(n))
def B(b): return mk("bool", bool(b))
def S(s): return mk("str", s)
def CH(c): return mk("char", c)


TRUE, FALSE = B(True), B(False)
UNIT = mk("tup")
ZERO, ONE = I(0), I(1)


def sym(name, ty=None): return mk("sym", name, ty)
def tup(*a): return mk("tup", *a)
def arr(*a): return mk("arr", *a)
def app(f, *a): return mk("app", f, *a)


def adt(name, vi, vn, names, *fields): return mk("adt", name, vi, vn, tuple(names), *fields)


OPT = "core::option::Option"
RES = "core::result::Result"
NONE = adt(OPT, 0, "None", ())
def some(x): return adt(OPT, 1, "Some", ("0",), x)
def ok(x): return adt(RES, 0, "Ok", ("0",), x)
def err(x): return adt(RES, 1, "Err", ("0",), x)


def ref(cell, path=()): return mk("ref", cell, tuple(path))
def pf(i, n=None): return mk("pf", i, n)
def pv(i, n): return mk("pv", i, n)
def pi(ix): return mk("pi", ix)


# ---------------------------------------------------------------- type information
TY = {}       # atom -> integer type name
UNSIGNED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


ELTY = {}        # sequence -> type of its elements


def settype(t, ty):
    if t.op not in ("int", "poly") and ty and (ty in UNSIGNED or ty in SIGNED):
        old = TY.get(t)
        if t.op == "at" and t.a[0] not in ELTY: ELTY[t.a[0]] = ty
        if old is None: TY[t] = ty
        elif old != ty and old in UNSIGNED and ty in UNSIGNED and UNSIGNED[ty] < UNSIGNED[old]: TY[t] = ty
    return t


# Integer types of the elements of sequences that are fields, by field (owner unknown: only names on which all structures agree).
FIELD_ELEMS = {}


def type_of(t):
    if t.op == "at" and t.a[0].op == "fld":
        ty = FIELD_ELEMS.get(t.a[0].a[-1])
        if ty: return ty
    return TY.get(t)


def range_of_type(ty):
    if ty in UNSIGNED:
        return 0, 2 ** UNSIGNED[ty] - 1
    if ty in SIGNED:
        n = SIGNED[ty]
        return -2 ** (n - 1), 2 ** (n - 1) - 1
    return None, None


# ---------------------------------------------------------------- polynomials
def poly(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return r


def _lift_ite2(f, a, b):
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return ite(a.a[0], f(a.a[1], b.a[1]), f(a.a[2], b.a[2]))
    return None


def add(a, b):
    r = _lift_ite2(add, a, b)
    if r is not None: return r
    return unpoly(padd(poly(a), poly(b)))


def sub(a, b):
    r = _lift_ite2(sub, a, b)
    if r is not None: return r
    return unpoly(padd(poly(a), poly(b), -1))


def neg(a): return unpoly({m: -c for m, c in poly(a).items()})


def mul(a, b):
    r = {}
    for m, c in poly(a).items():
        for n, d in poly(b).items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * d
    return unpoly(r)


def isint(t): return t.op == "int"


def div(a, b):
    if isint(a) and isint(b) and b.a[0] != 0 and a.a[0] >= 0 and b.a[0] > 0:
        return I(a.a[0] // b.a[0])
    if isint(b) and b.a[0] == 1: return a
    if a is ZERO: return ZERO
    if a is b and b.op != "int": pass
    # (a + b - 1) / b is the ceiling of a / b.
    d = sub(a, sub(b, ONE))
    if not isint(b) and not occurs(b, d) and a.op == "poly": return cdiv(d, b)
    if isint(b) and a.op == "poly" and poly(a).get((), 0) == b.a[0] - 1: return cdiv(d, b)
    return mk("div", a, b)


def cdiv(a, b):
    """The ceiling of a / b."""
    if isint(a) and isint(b) and b.a[0] > 0: return I(-(-a.a[0] // b.a[0]))
    if isint(b) and b.a[0] == 1: return a
    if a is ZERO: return ZERO
    return mk("cdiv", a, b)


def rem(a, b):
    if isint(a) and isint(b) and b.a[0] > 0 and a.a[0] >= 0:
        return I(a.a[0] % b.a[0])
    if isint(b) and b.a[0] == 1: return ZERO
    if a is ZERO: return ZERO
    if b.op == "int" and b.a[0] <= 0 or a.op == "int" and a.a[0] < 0: return mk("rem", a, b)
    return sub(a, mul(b, mk("div", a, b)))


def imin(a, b):
    if a is b: return a
    if isint(a) and isint(b): return I(min(a.a[0], b.a[0]))
    d = sub(a, b)
    if isint(d): return a if d.a[0] <= 0 else b
    xs = set()
    for x in (a, b):
        xs |= set(x.a) if x.op == "min" else {x}
    xs = sorted(xs, key=lambda x: x.id)
    return mk("min", *xs)


def imax(a, b):
    if a is b: return a
    if a is ZERO and TY.get(b) in UNSIGNED: return b
    if b is ZERO and TY.get(a) in UNSIGNED: return a
    if isint(a) and isint(b): return I(max(a.a[0], b.a[0]))
    d = sub(a, b)
    if isint(d): return a if d.a[0] >= 0 else b
    xs = set()
    for x in (a, b):
        xs |= set(x.a) if x.op == "max" else {x}
    xs = sorted(xs, key=lambda x: x.id)
    return mk("max", *xs)


# ---------------------------------------------------------------- booleans
def _content(d):
    from math import gcd
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, c)
    return g


def ge0(p):
    if isint(p): return B(p.a[0] >= 0)
    if p.op == "ite" and (isint(p.a[1]) or isint(p.a[2])):
        return ite(p.a[0], ge0(p.a[1]), ge0(p.a[2]))
    d = poly(p)
    if len(d) <= 2:
        # A sum of ones and zeros compared with none.
        for m, c in d.items():
            if len(m) == 1 and m[0].op == "sum" and abs(c) == 1 and d.get((), 0) == (0 if c < 0 else -1) and len(d) == (1 if c < 0 else 2):
                r = none_of(m[0])
                if r is not None: return r if c < 0 else NOT_deep(r)
    g = _content(d)
    if g > 1:
        d = {m: (c // g) for m, c in d.items()}   # floor division is exact on the constant
        p = unpoly(d)
    for m, c in d.items():
        # An argument that cannot be the one that decides: min(x, b) < b says x < b.
        if len(m) == 1 and m[0].op in ("min", "max") and c in (1, -1):
            x = m[0]
            rest = unpoly({n: e for n, e in d.items() if n != m})
            alone = (x.op == "min") == (c == -1)      # one of the arguments suffices
            keep = []
            for b in x.a:
                v = add(rest, b if c == 1 else neg(b))
                if isint(v) and (v.a[0] < 0) == alone: continue
                keep.append(b)
            if len(keep) != len(x.a):
                if not keep: return B(not alone)
                y = keep[0]
                for b in keep[1:]: y = imin(y, b) if x.op == "min" else imax(y, b)
                return ge0(add(rest, y if c == 1 else neg(y)))
    return mk("ge0", p)


def le(a, b): return ge0(sub(b, a))
def lt(a, b): return ge0(sub(sub(b, a), ONE))


def none_of(p):
    """The condition that a sum of ones and zeros is zero."""
    if p.op == "sum" and p.a[0].op == "seq":
        n, h, b = p.a[0].a
        if b.op == "ite" and isint(b.a[1]) and isint(b.a[2]) and {b.a[1].a[0], b.a[2].a[0]} == {0, 1}:
            return mk("forall", n, h, NOT_deep(b.a[0]) if b.a[2].a[0] == 0 else b.a[0])
    return None


def eq0(p):
    if isint(p): return B(p.a[0] == 0)
    if p.op == "sum":
        r = none_of(p)
        if r is not None: return r
    if p.op == "ite" and (isint(p.a[1]) or isint(p.a[2])):
        return ite(p.a[0], eq0(p.a[1]), eq0(p.a[2]))
    d = poly(p)
    g = _content(d)
    if g > 1:
        if d.get((), 0) % g: return FALSE
        d = {m: c // g for m, c in d.items()}
    for m, c in d.items():
        # min(x, b) = b says x >= b.
        if len(d) == 2 and () not in d and len(m) == 1 and m[0].op in ("min", "max") and c in (1, -1):
            x = m[0]
            b = unpoly({n: -c * e for n, e in d.items() if n != m})
            if b in x.a:
                keep = [u for u in x.a if u is not b]
                y = keep[0]
                for u in keep[1:]: y = imin(y, u) if x.op == "min" else imax(y, u)
                return ge0(sub(y, b)) if x.op == "min" else ge0(sub(b, y))
    lead = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))[0]
    if lead[1] < 0: d = {m: -c for m, c in d.items()}
    return mk("eq0", unpoly(d))


def NOT(b):
    if b.op == "bool": return B(not b.a[0])
    if b.op == "not": return b.a[0]
    if b.op == "ge0": return ge0(sub(I(-1), b.a[0]))
    if b.op == "ite": return ite(b.a[0], NOT(b.a[1]), NOT(b.a[2]))
    return mk("not", b)


def AND(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out: out.append(y)
    for x in out:
        if NOT(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", *sorted(out, key=lambda x: x.id))


def OR(*xs): 
    return NOT_deep(AND(*[NOT_deep(x) for x in xs]))


def NOT_deep(x):
    if x.op == "and": return mk("not", x)
    if x.op == "not" and x.a[0].op == "and": return x.a[0]
    return NOT(x)


def conc(t):
    """Is the term a fully known constant?"""
    if t.op in ("int", "bool", "str", "char", "float", "bytes"): return True
    if t.op in ("tup", "arr"): return all(conc(x) for x in t.a)
    if t.op == "adt": return all(conc(x) for x in t.a[4:])
    return False


INTY = ("int", "poly", "div", "cdiv", "rem", "min", "max", "len", "prod", "sum")


def EQ(a, b, integer=False):
    if a is b: return TRUE
    if conc(a) and conc(b) and (a.op == b.op or {a.op, b.op} == {"str", "cat"}):
        return FALSE
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]: return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.a[4:], b.a[4:])])
    if a.op == "tup" and b.op == "tup":
        return AND(*[EQ(x, y) for x, y in zip(a.a, b.a)])
    if integer or a.op in INTY or b.op in INTY or a in TY or b in TY:
        x, y = (a, b) if a.op == "discr" else (b, a)
        if x.op == "discr" and isint(y):
            for (v, i, n) in x.a[1]:
                if v == y.a[0]: return IS(x.a[0], n)
            return FALSE
        return eq0(sub(a, b))
    for x, y in ((a, b), (b, a)):
        # A character made of one byte is below 256, and differs between bytes.
        if x.op == "char" and y.op == "app" and y.a[0] == "chr": return eq0(sub(y.a[1], I(ord(x.a[0])))) if ord(x.a[0]) < 256 else FALSE
        if x.op == "bool": return y if x.a[0] else NOT(y)
        if x.op == "adt" and not x.a[4:]:
            return IS(y, x.a[2])
        if x.op == "str" and y.op == "cat":
            # Constant prefixes or suffixes that disagree.
            h, l = y.a[0], y.a[-1]
            if h.op == "str" and not x.a[0].startswith(h.a[0]): return FALSE
            if l.op == "str" and not x.a[0].endswith(l.a[0]): return FALSE
    isname = lambda q: q.op == "app" and q.a[0] == "name"
    if (a.op == "cat" or isname(a)) and (b.op in ("cat", "str") or isname(b)) or isname(b):
        xs, ys = ([*q.a] if q.op == "cat" else [q] if q.op != "str" or q.a[0] else [] for q in (a, b))
        if any(isname(q) for q in xs + ys):
            n = len(xs), len(ys)
            for d in (0, -1):
                while xs and ys and xs[d] is ys[d]: xs.pop(d); ys.pop(d)
            if len(xs) == len(ys) == 1 and isname(xs[0]) and isname(ys[0]): return FALSE
            if not xs or not ys:
                if any(isname(q) or q.op == "str" for q in xs + ys): return FALSE
            if (len(xs), len(ys)) != n: return EQ(cat(*xs), cat(*ys))
    if a.id > b.id: a, b = b, a
    return mk("eq", a, b)


def IS(t, vn):
    if t.op == "adt": return B(t.a[2] == vn)
    if t.op == "ite": return ite(t.a[0], IS(t.a[1], vn), IS(t.a[2], vn))
    if t.op == "rec":
        # A part of a variant was replaced in place, so the value is of that variant.
        for k, _ in t.a[1]:
            if k.op == "pvf": return B(k.a[0] == vn)
    if vn == "None": return NOT(mk("is", t, "Some"))
    if vn == "Err": return NOT(mk("is", t, "Ok"))
    return mk("is", t, vn)


ONCE = []


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return NOT(c)
    if a.op == "adt" and b.op == "adt" and a.a[:4] == b.a[:4]:
        return adt(*a.a[:4], *[ite(c, x, y) for x, y in zip(a.a[4:], b.a[4:])])
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return tup(*[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a is FALSE: return AND(NOT_deep(c), b)
    if b is FALSE: return AND(c, a)
    if c.op in ("ge0", "eq0") and not ONCE:
        ONCE.append(c)
        try:
            a2 = subst(a, {c: TRUE}) if occurs(c, a) else a
            b2 = subst(b, {c: FALSE}) if occurs(c, b) else b
        finally: ONCE.pop()
        if a2 is not a or b2 is not b: return ite(c, a2, b2)
    r = _ceil_ite(c, a, b)
    if r is not None: return r
    if c.op == "ge0" and a.op in NUMERIC and b.op in NUMERIC:
        # The greater or the lesser of two numbers.
        d = sub(a, b)
        if c.a[0] is d or c.a[0] is sub(d, ONE): return imax(a, b)
        d = neg(d)
        if c.a[0] is d or c.a[0] is sub(d, ONE): return imin(a, b)
        # Zero as one case of a formula.
        x = add(c.a[0], ONE)
        if TY.get(x) in UNSIGNED and occurs(x, a) and subst(a, {x: ZERO}) is b: return a
    return mk("ite", c, a, b)


def _rem_of(p):
    """(a, b) if p is the polynomial of a % b (up to sign)."""
    for q in (p, neg(p)):
        d = poly(q)
        for m, c in d.items():
            if c != -1: continue
            for i, x in enumerate(m):
                if x.op == "div":
                    rest = ONE
                    for j, y in enumerate(m):
                        if j != i: rest = mul(rest, y)
                    if rest is x.a[1] and sub(q, sub(x.a[0], mul(x.a[1], x))) is ZERO:
                        return x.a[0], x.a[1], x
            # constant divisors
        for m, c in d.items():
            if len(m) == 1 and m[0].op == "div" and isint(m[0].a[1]) and c == -m[0].a[1].a[0]:
                x = m[0]
                if sub(q, sub(x.a[0], mul(x.a[1], x))) is ZERO:
                    return x.a[0], x.a[1], x
    return None


def _ceil_ite(c, a, b):
    if c.op == "eq0": zero, nonzero, p = a, b, c.a[0]
    elif c.op == "ge0": zero, nonzero, p = b, a, add(c.a[0], ONE)
    else: return None
    d = sub(nonzero, zero) if (nonzero.op in NUMERIC and zero.op in NUMERIC) else None
    if d is None or not isint(d): return None
    r = _rem_of(p)
    if r is None: return None
    n, m, q = r
    # zero/nonzero may be 0/1 or q/q+1 (+ anything)
    if d.a[0] == 1: return add(sub(zero, q), cdiv(n, m))
    return add(zero, mul(d, sub(cdiv(n, m), q)))


NUMERIC = ("int", "poly", "div", "cdiv", "rem", "min", "max", "len", "sym", "fld", "vfld", "at", "fresh", "bv", "app", "prod", "sum", "k", "phi")


# ---------------------------------------------------------------- projections
def fld(t, i, n=None):
    o = t.op
    if o == "boxmem": return t          # the layers of Box and MaybeUninit
    if o == "adt": return t.a[4 + i] if 4 + i < len(t.a) else mk("fld", t, i, n)
    if o in ("tup", "arr"): return t.a[i] if i < len(t.a) else mk("fld", t, i, n)
    if o == "clos": return t.a[1 + i]
    if o == "ite": return ite(t.a[0], fld(t.a[1], i, n), fld(t.a[2], i, n))
    if o == "rec":
        for k, v in t.a[1]:
            if k.op == "pf" and k.a[0] == i: return v
        return fld(t.a[0], i, n)
    return mk("fld", t, i, n)


def vfld(t, vn, i, n=None):
    o = t.op
    if o == "adt":
        if t.a[2] == vn: return t.a[4 + i]
        return mk("vfld", t, vn, i)
    if o == "ite":
        x, y = t.a[1], t.a[2]
        # An impossible branch does not matter.
        if x.op == "adt" and x.a[2] != vn: return vfld(y, vn, i, n)
        if y.op == "adt" and y.a[2] != vn: return vfld(x, vn, i, n)
        return ite(t.a[0], vfld(x, vn, i, n), vfld(y, vn, i, n))
    if o == "rec":
        for k, v in t.a[1]:
            if k.op == "pvf" and k.a[0] == vn and k.a[1] == i: return v
        return vfld(t.a[0], vn, i, n)
    return mk("vfld", t, vn, i)


def discr(t, variants):
    if t.op == "adt":
        for (v, i, n) in variants:
            if i == t.a[1]: return I(v)
    if t.op == "ite":
        return ite(t.a[0], discr(t.a[1], variants), discr(t.a[2], variants))
    return mk("discr", t, variants)


def rec(base, steps):
    """Functional update of fields of an otherwise unknown value."""
    d = {}
    if base.op == "rec":
        d.update(dict(base.a[1])); base = base.a[0]
    d.update(steps)
    return mk("rec", base, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


# ---------------------------------------------------------------- sequences
def bv(h): return mk("bv", h)


_fresh = [0]


def fresh(prefix="x", ty="usize"):
    _fresh[0] += 1
    t = mk("fresh", prefix, _fresh[0])
    if ty: TY[t] = ty
    return t


def mkseq(n, x, body):
    """The sequence of length n whose element at index x is body."""
    g = ge0(sub(sub(n, ONE), x))
    if g is not TRUE and g is not FALSE and body.op != "bv" and occurs(g, body): body = subst(body, {g: TRUE})
    h = body.mb + 1
    b = subst(body, {x: bv(h)})
    TY[bv(h)] = "usize"
    if b.op == "at" and b.a[1] is bv(h) and not occurs(bv(h), b.a[0]) and length(b.a[0]) is n:
        return b.a[0]
    return mk("seq", n, h, b)


def constseq(n, v):
    if isint(n) and n.a[0] <= 16: return arr(*[v] * n.a[0])
    return mk("seq", n, v.mb + 1, v)


def inst(s, e):
    return subst(s.a[2], {bv(s.a[1]): e})


def at(s, i):
    o = s.op
    if o == "seq": return inst(s, i)
    if o in ("arr", "bytes") and isint(i):
        xs = s.a if o == "arr" else [I(x) for x in s.a[0]]
        if 0 <= i.a[0] < len(xs): return xs[i.a[0]]
    if o == "arr" and s.a and all(x is s.a[0] for x in s.a): return s.a[0]
    if o == "upd":
        d = sub(s.a[1], i)
        if d is ZERO: return s.a[2]
        if isint(d): return at(s.a[0], i)
    if o == "subseq": return at(s.a[0], add(s.a[1], i))
    if o == "splice" and isint(i) and isint(s.a[1]) and isint(s.a[2]):
        return at(s.a[3], sub(i, s.a[1])) if s.a[1].a[0] <= i.a[0] < s.a[2].a[0] else at(s.a[0], i)
    if o == "scat" and isint(i):
        k = i.a[0]
        for p in s.a:
            n = length(p)
            if not isint(n): break
            if k < n.a[0]: return at(p, I(k))
            k -= n.a[0]
    if o == "ite": return ite(s.a[0], at(s.a[1], i), at(s.a[2], i))
    if o == "str" and isint(i):
        xs = s.a[0].encode()
        if 0 <= i.a[0] < len(xs): return I(xs[i.a[0]])
    r = mk("at", s, i)
    if s in ELTY and r not in TY: TY[r] = ELTY[s]
    return r


def elem_size(ty):
    ty = ty.split("::")[-1]
    return {"bool": 1}.get(ty) or int(ty.lstrip("uif")) // 8


def length(s):
    o = s.op
    if o == "seq": return s.a[0]
    if o == "arr": return I(len(s.a))
    if o == "bytes": return I(len(s.a[0]))
    if o == "str": return I(len(s.a[0].encode()))
    if o in ("upd", "splice"): return length(s.a[0])
    if o == "app" and s.a[0] == "encoded": return mul(I(elem_size(s.a[1].a[0])), length(s.a[3]))
    if o == "app" and s.a[0] == "cartesian" and s.a[1].op == "seq" and s.a[1].a[2].op == "adt" and s.a[1].a[2].a[0].endswith("::Range"):
        # The product of no iterators yields nothing.
        x = fresh()
        r = at(s.a[1], x)
        n = length(s.a[1])
        return ite(eq0(n), ZERO, prod(mkseq(n, x, imax(ZERO, sub(r.a[5], r.a[4])))))
    if o == "app" and s.a[0] == "nd_flat": return prod(nd_shape(s.a[1]))
    if o == "app" and s.a[0] == "encoded1": return I(elem_size(s.a[1].a[0]))
    if o == "subseq": return sub(s.a[2], s.a[1])
    if o == "phi" and len(s.a) > 3: return s.a[3]      # a loop that keeps the length, which engine.do_loop proves
    if o in ("scat", "cat"):
        r = ZERO
        for p in s.a: r = add(r, length(p))
        return r
    if o == "ite" and (isint(length(s.a[1])) or length(s.a[1]) is length(s.a[2])):
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    t = mk("len", s)
    TY[t] = "usize"
    return t


# N-dimensional arrays: app(nd_vec, order, shape, elements), app(nd_elem, shape, element),
# app(nd_slice, array, starts, shape), app(nd_assign, array, starts, shape, array), app(nd_t, array).
def nd_shape(v):
    if v.op == "app":
        k = v.a[0]
        if k == "nd_vec": return v.a[2]
        if k == "nd_elem": return v.a[1]
        if k == "nd_slice": return v.a[3]
        if k == "nd_assign": return nd_shape(v.a[1])
        if k == "nd_t":
            s = nd_shape(v.a[1])
            x, n = fresh(), length(s)
            return mkseq(n, x, at(s, sub(sub(n, ONE), x)))
    return app("nd_shape", v)


def nd_slice(v, starts, shape): return app("nd_slice", v, starts, shape)


def upd(s, i, v):
    if s.op == "arr" and isint(i) and 0 <= i.a[0] < len(s.a):
        l = list(s.a); l[i.a[0]] = v
        return arr(*l)
    if s.op == "upd" and s.a[1] is i: s = s.a[0]
    if v.op == "at" and v.a[0] is s and v.a[1] is i: return s
    if s.op == "bytes" and isint(i):
        return upd(arr(*[I(x) for x in s.a[0]]), i, v)
    return mk("upd", s, i, v)


def subseq(s, a, b):
    if a is ZERO and b is length(s): return s
    if s.op in ("arr",) and isint(a) and isint(b) and 0 <= a.a[0] <= b.a[0] <= len(s.a):
        return arr(*s.a[a.a[0]:b.a[0]])
    if s.op == "splice" and s.a[1] is a and s.a[2] is b: return s.a[3]
    if s.op == "subseq": return subseq(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "seq":
        x = fresh()
        return mkseq(sub(b, a), x, inst(s, add(a, x)))
    return mk("subseq", s, a, b)


def splice(old, a, b, new):
    """old with the elements [a, b) replaced by new, whose length is b - a."""
    if new.op == "subseq" and new.a[0] is old and new.a[1] is a and new.a[2] is b: return old
    if a is ZERO and b is length(old): return new
    if old.op == "arr" and isint(a) and isint(b) and new.op == "arr" and len(new.a) == b.a[0] - a.a[0]:
        return arr(*old.a[:a.a[0]], *new.a, *old.a[b.a[0]:])
    if new.op in ("upd", "splice") and new.a[0].op == "subseq" and new.a[0].a[0] is old and new.a[0].a[1] is a and new.a[0].a[2] is b:
        if new.op == "upd": return upd(old, add(a, new.a[1]), new.a[2])
        return splice(old, add(a, new.a[1]), add(a, new.a[2]), new.a[3])
    if old.op == "splice" and old.a[1] is a and old.a[2] is b: old = old.a[0]
    return mk("splice", old, a, b, new)


def scat(*ps):
    out = []
    for p in ps:
        for q in (p.a if p.op == "scat" else (p,)):
            if q.op == "arr" and not q.a: continue
            if q.op == "seq" and q.a[0] is ZERO: continue
            if out and out[-1].op == "arr" and q.op == "arr":
                out[-1] = arr(*out[-1].a, *q.a)
            else: out.append(q)
    if not out: return arr()
    if len(out) == 1: return out[0]
    return mk("scat", *out)


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.a if p.op == "cat" else (p,)):
            if q.op == "char": q = S(q.a[0])
            if q.op == "str" and not q.a[0]: continue
            if out and out[-1].op == "str" and q.op == "str":
                out[-1] = S(out[-1].a[0] + q.a[0])
            else: out.append(q)
    if not out: return S("")
    if len(out) == 1: return out[0]
    return mk("cat", *out)


def prod(s):
    if s.op == "arr":
        r = ONE
        for x in s.a: r = mul(r, x)
        return r
    t = mk("prod", s)
    return t


def sumof(s):
    if s.op == "arr":
        r = ZERO
        for x in s.a: r = add(r, x)
        return r
    if s.op == "seq" and isint(s.a[2]): return mul(s.a[0], s.a[2])
    return mk("sum", s)


def flat(s):
    """Concatenation of a sequence of sequences."""
    if s.op == "arr": return scat(*s.a)
    if s.op == "seq" and s.a[2].op == "arr" and len(s.a[2].a) == 1:
        h = s.a[1]
        return rebuild(s, (s.a[0], h, s.a[2].a[0]))
    return mk("flat", s)


def sjoin(s):
    """Concatenation of a sequence of strings."""
    if s.op == "arr": return cat(*s.a)
    return mk("sjoin", s)


def forall(n, x, c):
    if c is TRUE or n is ZERO: return TRUE
    h = c.mb + 1
    TY[bv(h)] = "usize"
    return mk("forall", n, h, subst(c, {x: bv(h)}))


# ---------------------------------------------------------------- substitution
SMART = {
    "ge0": ge0, "eq0": eq0, "not": lambda x: NOT_deep(x), "ite": ite, "at": at, "len": length,
    "upd": upd, "subseq": subseq, "splice": splice, "scat": scat, "cat": cat, "div": div, "cdiv": cdiv, "rem": rem,
    "and": AND, "is": IS, "prod": prod, "eq": EQ, "sum": sumof, "flat": flat, "sjoin": sjoin,
    "fld": fld, "discr": discr,
}


def rebuild(t, a):
    o = t.op
    if o == "poly":
        r = ZERO
        for m, c in a[0]:
            x = I(c)
            for y in m: x = mul(x, y)
            r = add(r, x)
        return r
    if o == "min":
        r = a[0]
        for x in a[1:]: r = imin(r, x)
        return r
    if o == "max":
        r = a[0]
        for x in a[1:]: r = imax(r, x)
        return r
    if o == "vfld": return vfld(*a)
    if o in ("seq", "forall"):
        n, h, body = a
        h2 = body.mb + 1
        if h2 != h and not (t.a[2] is body):
            # Renumber canonically.
            TY[bv(h2)] = "usize"
            body = subst(body, {bv(h): bv(h2)})
            h = h2
        if o == "seq" and body.op == "at" and body.a[1] is bv(h) and not occurs(bv(h), body.a[0]) and length(body.a[0]) is n:
            return body.a[0]
        if o == "forall" and (body is TRUE or n is ZERO): return TRUE
        return mk(o, n, h, body)
    if o == "rec": return _rec_rebuild(a)
    f = SMART.get(o)
    r = f(*a) if f else mk(o, *a)
    if t in TY and r.op not in ("int", "poly"): TY.setdefault(r, TY[t])
    return r


def _rec_rebuild(a):
    base, steps = a
    if base.op == "adt":
        l = list(base.a)
        okk = True
        for k, v in steps:
            if k.op == "pf": l[4 + k.a[0]] = v
            elif k.op == "pvf" and k.a[0] == base.a[2]: l[4 + k.a[1]] = v
            else: okk = False
        if okk: return mk("adt", *l)
    return rec(base, dict(steps))


def subst(t, m):
    """Replace terms by terms, simplifying again."""
    if not m: return t
    memo = {}
    shadow = {k.a[0]: k for k in m if k.op == "bv"}

    def go(t):
        r = m.get(t)
        if r is not None: return r
        r = memo.get(t)
        if r is not None: return r
        if t.op in ("seq", "forall") and t.a[1] in shadow:
            # An inner binder of the same number hides the outer one.
            n = go(t.a[0])
            rest = {k: v for k, v in m.items() if k is not shadow[t.a[1]]}
            body = subst(t.a[2], rest) if rest else t.a[2]
            a2 = (n, t.a[1], body)
        else:
            a2 = goa(t.a)
        r = t if a2 == t.a else rebuild(t, a2)
        memo[t] = r
        return r

    def goa(a):
        ch = False
        out = []
        for x in a:
            if isinstance(x, T): y = go(x)
            elif isinstance(x, tuple): y = goa(x)
            else: y = x
            if y is not x: ch = True
            out.append(y)
        return tuple(out) if ch else a
    return go(t)


def occurs(x, t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x: return True
        if y in seen: continue
        seen.add(y)
        for z in y.a:
            if isinstance(z, T): st.append(z)
            elif isinstance(z, tuple): st.extend(_flat(z))
    return False


def anywhere(t, pred):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if pred(y): return y
        for z in y.a:
            if isinstance(z, T): st.append(z)
            elif isinstance(z, tuple): st.extend(_flat(z))
    return None


def subterms(t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        yield y
        for z in y.a:
            if isinstance(z, T): st.append(z)
            elif isinstance(z, tuple): st.extend(_flat(z))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 40: return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "int": return str(a[0])
    if o == "bool": return "true" if a[0] else "false"
    if o == "str": return repr(a[0])
    if o == "char": return "'" + a[0] + "'"
    if o == "sym": return str(a[0])
    if o == "fresh": return f"{a[0]}{a[1]}"
    if o == "bv": return f"i{a[0]}"
    if o == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(s(x) for x in m)
            out.append((f"{c}*" if c not in (1,) else "") + ms if m else str(c))
        return "(" + " + ".join(out) + ")"
    if o == "ge0": return f"{s(a[0])} >= 0"
    if o == "eq0": return f"{s(a[0])} == 0"
    if o == "eq": return f"{s(a[0])} == {s(a[1])}"
    if o == "not": return f"!({s(a[0])})"
    if o == "and": return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "is": return f"{s(a[0])} is {a[1]}"
    if o == "ite": return f"if({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if o == "adt":
        nm = a[2]
        if not a[4:]: return nm
        return nm + "{" + ", ".join(f"{n}: {s(x)}" for n, x in zip(a[3], a[4:])) + "}"
    if o == "tup": return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "arr": return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "fld": return f"{s(a[0])}.{a[2] if a[2] is not None else a[1]}"
    if o == "vfld": return f"{s(a[0])}.{a[1]}.{a[2]}"
    if o == "seq": return f"[{s(a[2])} for i{a[1]}<{s(a[0])}]"
    if o == "forall": return f"(forall i{a[1]}<{s(a[0])}: {s(a[2])})"
    if o == "at": return f"{s(a[0])}[{s(a[1])}]"
    if o == "len": return f"len({s(a[0])})"
    if o == "ref": return "&" + s(a[0]) + "".join(s(x) for x in a[1])
    if o == "pf": return f".{a[1] if a[1] is not None else a[0]}"
    if o == "pv": return f"as {a[1]}"
    if o == "pi": return f"[{s(a[0])}]"
    if o == "clos": return "closure:" + a[0].split("::")[-1] + ("(" + ", ".join(s(x) for x in a[1:]) + ")")
    if o == "app": return f"{a[0]}(" + ", ".join(s(x) for x in a[1:]) + ")"
    if o == "discr": return f"discr({s(a[0])})"
    if o == "obj": return f"obj{a[1:]}"
    if o == "k": return f"k{a[1]}"
    if o == "res":
        return f"{a[0]}#{a[1]}" + ("[" + ",".join(s(x) for x in a[2]) + "]" if a[2] else "")
    if o == "ev" and a and isinstance(a[1] if len(a) > 1 else None, T) and a[1].op == "res":
        return f"{s(a[1])}(" + ", ".join(s(x) for x in a[2:]) + ")"
    if o == "cat": return "cat(" + ", ".join(s(x) for x in a) + ")"
    return f"{o}(" + ", ".join(s(x) for x in a) + ")"
