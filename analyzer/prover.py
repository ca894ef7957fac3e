"""Facts known on an abstract path, and what follows from them."""
from terms import *

MAXD = 5
CAST_MAX = {"isize": 2 ** 63 - 1, "i64": 2 ** 63 - 1, "usize": 2 ** 64 - 1, "u64": 2 ** 64 - 1, "u32": 2 ** 32 - 1, "i32": 2 ** 31 - 1}
NEST = [0]      # depth of hypothetical reasoning; bounded, so that it terminates


DEEP = [0]


class Facts:
    __slots__ = ("true", "lin", "_memo", "eqs")

    def __init__(self):
        self.true = {}
        self.lin = ()
        self.eqs = ()
        self._memo = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.true = dict(self.true)
        f.lin = self.lin
        f.eqs = self.eqs
        f._memo = {}
        return f

    def add(self, b):
        """Assume b. Returns False if that is contradictory."""
        d = self.decide(b)
        if d is False: return False
        if d is True: return True
        self._add(b)
        return True

    def _add(self, b):
        if b.op == "and":
            for x in b.a: self._add(x)
            return
        if b in self.true or b is TRUE: return
        self.true[b] = True
        if b.op == "ge0": self.lin = self.lin + (b.a[0],) + tuple(undiv(b.a[0]))
        elif b.op == "eq0":
            self.lin = self.lin + (b.a[0], neg(b.a[0]))
            self.eqs = self.eqs + (b.a[0],)
        elif b.op == "not" and b.a[0].op == "eq0":
            # x != 0 with x >= 0 gives x >= 1.
            p = b.a[0].a[0]
            if self.prove(p): self.lin = self.lin + (sub(p, ONE),)
            elif self.prove(neg(p)): self.lin = self.lin + (sub(neg(p), ONE),)
        elif b.op == "ge0": pass
        self._memo = {}
        # Disjunctions that became units.
        if NEST[0] > 0: return
        for t in list(self.true):
            if t.op == "not" and t.a[0].op == "and":
                left = [x for x in t.a[0].a if self.decide(x) is not True]
                if len(left) == 1 and NOT_deep(left[0]) not in self.true:
                    self._add(NOT_deep(left[0]))

    def decide(self, b):
        if b is TRUE: return True
        if b is FALSE: return False
        r = self._memo.get(b, 0)
        if r != 0: return r
        r = self._decide(b)
        self._memo[b] = r
        return r

    def _decide(self, b):
        r = self._decide0(b)
        if r is None and b.op in ("fld", "vfld", "is", "eq", "app", "at") : r = self._by_forall(b)
        elif r is None and b.op in ("ge0", "eq0") and NEST[0] < 2: r = self._by_instance(b)
        return r

    def _by_instance(self, b):
        """Decide an (in)equation with the universal facts about the elements it mentions."""
        fs = [f for f in self.true if f.op == "forall"]
        if not fs: return None
        cands = [u for u in subterms(b) if u.op == "at" and u.mb == 0]
        if not cands: return None
        new = []
        for f in fs:
            n, h, c = f.a
            hit = set()
            for u in subterms(c):
                if u.op == "at" and u.a[1].op == "bv" and u.a[1].a[0] == h:
                    for v in cands:
                        if v.a[0] is u.a[0]: hit.add(v.a[1])
            for i in hit:
                if self.prove(i) and self.prove(sub(sub(n, i), ONE)):
                    x = subst(c, {bv(h): i})
                    if x not in self.true: new.append(x)
        if not new: return None
        NEST[0] += 2
        try:
            g = self.copy()
            for x in new: g._add(x)
            return g.decide(b)
        finally:
            NEST[0] -= 2

    def _by_forall(self, b):
        """An instance of a known universal fact that says b or its negation."""
        fs = [f for f in self.true if f.op == "forall"]
        if not fs: return None
        cands = [u for u in subterms(b) if u.op == "at"]
        for f in fs:
            n, h, c = f.a
            hit = set()
            for u in subterms(c):
                if u.op == "at" and u.a[1].op == "bv" and u.a[1].a[0] == h:
                    for v in cands:
                        if v.a[0] is u.a[0]: hit.add(v.a[1])
            for i in hit:
                x = subst(c, {bv(h): i})
                xs = x.a if x.op == "and" else (x,)
                for y, r in ((b, True), (NOT_deep(b), False)):
                    if y in xs and self.prove(i) and self.prove(sub(sub(n, i), ONE)): return r
        return None

    def _decide0(self, b):
        if b in self.true: return True
        if NOT_deep(b) in self.true: return False
        o = b.op
        if o == "not":
            r = self.decide(b.a[0])
            return None if r is None else (not r)
        if o == "and":
            u = False
            for x in b.a:
                r = self.decide(x)
                if r is False: return False
                if r is None: u = True
            return None if u else True
        if o == "ge0":
            if self.prove(b.a[0]): return True
            if self.prove(sub(I(-1), b.a[0])): return False
            return None
        if o == "eq0":
            p = b.a[0]
            if self.prove(sub(p, ONE)) or self.prove(sub(neg(p), ONE)): return False
            if self.prove(p) and self.prove(neg(p)): return True
            # x == c1 known with another constant
            return None
        if o == "is":
            t, vn = b.a
            if vn not in ("Some", "Ok"):
                for f in self.true:
                    if f.op == "is" and f.a[0] is t and f.a[1] != vn: return False
            if t.op == "ite":
                c = self.decide(t.a[0])
                if c is not None: return self.decide(IS(t.a[1] if c else t.a[2], vn))
            if t.op == "at" or t.op == "app":
                for f in self.true:
                    if f.op == "eq" and t in f.a:
                        other = f.a[0] if f.a[1] is t else f.a[1]
                        if other.op == "adt": return other.a[2] == vn
            return None
        if o == "eq":
            x, y = b.a
            for p, q in ((x, y), (y, x)):
                if conc(q):
                    for f in self.true:
                        if f.op == "eq" and p in f.a:
                            r = f.a[0] if f.a[1] is p else f.a[1]
                            if conc(r) and r is not q: return False
            x2, y2 = self.simp(x), self.simp(y)
            if x2 is not x or y2 is not y:
                return self.decide(EQ(x2, y2))
            return None
        if o == "ite":
            c = self.decide(b.a[0])
            if c is not None: return self.decide(b.a[1] if c else b.a[2])
            l, r = self.decide(b.a[1]), self.decide(b.a[2])
            if l is not None and l == r: return l
            return None
        if o == "forall":
            n, h, c = b.a
            if self.prove(neg(n)): return True
            for f in self.true:
                if f.op == "forall" and f.a[2] is c and f.a[1] == h and self.prove(sub(f.a[0], n)):
                    return True
            if NEST[0] >= 2: return None
            x = fresh("w")
            g = self.copy()
            NEST[0] += 1
            try:
                if g.add(lt(x, n)) and g.add(ge0(x)):
                    if g.decide(subst(c, {bv(h): x})) is True: return True
            finally:
                NEST[0] -= 1
            return None
        return None

    # ------------------------------------------------------------ arithmetic
    def lower(self, d):
        """A lower bound of a polynomial from the types of its atoms alone."""
        lo = 0
        for m, c in d.items():
            if m == ():
                lo += c
                continue
            a, b = 1, 1
            for x in m:
                l, h = atom_range(x)
                if l is None or l < 0: return None
                a *= l
                b = None if (b is None or h is None) else b * h
            if c > 0: lo += c * a
            else:
                if b is None: return None
                lo += c * b
        return lo

    def prove(self, p, depth=MAXD):
        if isint(p): return p.a[0] >= 0
        key = ("p", p)
        r = self._memo.get(key)
        if r is not None: return r
        r = self._prove(p, depth, frozenset())
        self._memo[key] = r
        return r

    def _prove(self, p, depth, used):
        if isint(p): return p.a[0] >= 0
        key = ("q", p, depth, used)
        r = self._memo.get(key)
        if r is None: r = self._memo[key] = self._prove0(p, depth, used)
        return r

    def _prove0(self, p, depth, used):
        d = poly(p)
        lo = self.lower(d)
        if lo is not None and lo >= 0: return True
        if depth == 0: return False
        for m, c in d.items():
            for x in m:
                if x.op == "ite" and len(m) == 1:
                    if DEEP[0] >= 3: return False
                    DEEP[0] += 1
                    try: k = self.decide(x.a[0])
                    finally: DEEP[0] -= 1
                    rest = unpoly({n: e for n, e in d.items() if n != m})
                    if k is True: return self._prove(add(rest, mul(I(c), x.a[1])), depth - 1, used)
                    if k is False: return self._prove(add(rest, mul(I(c), x.a[2])), depth - 1, used)
                    if NEST[0] >= 3: return False
                    a, b = self.copy(), self.copy()
                    okk = True
                    NEST[0] += 1
                    try:
                        if a.add(x.a[0]): okk = a._prove(add(rest, mul(I(c), x.a[1])), depth - 1, used)
                        if okk and b.add(NOT_deep(x.a[0])): okk = b._prove(add(rest, mul(I(c), x.a[2])), depth - 1, used)
                    finally:
                        NEST[0] -= 1
                    return okk
        for m, c in d.items():
            x = m[0] if len(m) == 1 else None
            if x is not None and ((x.op == "min" and c > 0) or (x.op == "max" and c < 0)):
                rest = unpoly({n: e for n, e in d.items() if n != m})
                if all(self._prove(add(rest, mul(I(c), y)), depth - 1, used) for y in x.a): return True
                break
        for q in undiv(p):
            if ("u", q) not in used and self._prove(q, depth - 1, used | {("u", q)}): return True
        cands = []
        for q in self.lin:
            if q not in used: cands.append(q)
        for q in lemmas(p): 
            if q not in used: cands.append(q)
        for m in d:
            for x in m:
                # An indivisible number is not divided by one.
                if x.op == "div" and self.false_eq(sub(x.a[0], mul(x.a[1], x))): cands.append(sub(x.a[0], add(x, x)))
        for q in cands:
            if any(e > 0 and m != () and d.get(m, 0) < e for m, e in poly(q).items()): continue
            l = self.lower(poly(sub(p, q)))
            if l is not None and l >= 0: return True
        # Eliminate a monomial that stands in the way.
        bad = []
        for m, c in d.items():
            if m == (): continue
            l = self.lower({m: c})
            if l is None or l < 0: bad.append(m)
        if not bad and depth == MAXD: bad = [m for m in d if m != ()]
        bad.sort(key=lambda m: -len(m))
        for m in bad[:3]:
            c = d[m]
            for q in cands:
                e = poly(q).get(m, 0)
                if e == 0 or (e > 0) != (c > 0): continue
                from math import gcd
                g = gcd(abs(c), abs(e))
                np = sub(mul(p, I(abs(e) // g)), mul(q, I(abs(c) // g)))
                if self._prove(np, depth - 1, used | {q}): return True
            # multiply a fact by a nonnegative atom to reach a product
            if len(m) == 2:
                for i in (0, 1):
                    x, y = m[i], m[1 - i]
                    l, h = atom_range(x)
                    if l is None or l < 0: continue
                    for q in self.lin:
                        qd = poly(q)
                        e = qd.get((y,), 0)
                        if e == 0 or (e > 0) != (c > 0) or len(qd) > 3: continue
                        qq = mul(q, x)
                        if qq in used: continue
                        from math import gcd
                        g = gcd(abs(c), abs(e))
                        np = sub(mul(p, I(abs(e) // g)), mul(qq, I(abs(c) // g)))
                        if self._prove(np, depth - 1, used | {qq}): return True
        # Split a maximum below, or a minimum above.
        return False

    def false_eq(self, p):
        """Do the facts say outright that p is not zero?"""
        return NOT(EQ(p, ZERO, True)) in self.true or NOT(EQ(neg(p), ZERO, True)) in self.true

    def simp(self, t):
        """Resolve choices that the facts decide."""
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op in ("min", "max"):
                a = list(t.a)
                for x in t.a:      # as the facts have it, word for word
                    if any(y is not x and y in a and self.states(sub(x, y) if t.op == "min" else sub(y, x)) for y in t.a): a.remove(x)
                a = [go(x) for x in a]
                keep = []
                for x in a:
                    if any(y is not x and (self.prove(sub(x, y)) if t.op == "min" else self.prove(sub(y, x)))
                           for y in keep): continue
                    keep = [y for y in keep if not (self.prove(sub(y, x)) if t.op == "min" else self.prove(sub(x, y)))]
                    keep.append(x)
                r = keep[0]
                for x in keep[1:]: r = imin(r, x) if t.op == "min" else imax(r, x)
            elif t.op == "ite":
                c = self.decide(t.a[0])
                if c is None:
                    c0 = go(t.a[0])
                    if c0 is not t.a[0]: c = self.decide(c0)
                r = go(t.a[1]) if c is True else go(t.a[2]) if c is False else ite(t.a[0], go(t.a[1]), go(t.a[2]))
            elif t.op == "and":
                r = AND(*[FALSE if d is False else go(x) for x in t.a for d in (self.decide(x),) if d is not True])
            elif t.op == "cdiv":
                n, m = go(t.a[0]), go(t.a[1])
                q = div(n, m)
                z = self.decide(eq0(sub(n, mul(m, q))))
                if z is None and (n is not t.a[0] or m is not t.a[1]): z = self.decide(eq0(sub(t.a[0], mul(t.a[1], div(t.a[0], t.a[1])))))
                r = q if z is True else add(q, ONE) if z is False else cdiv(n, m)
            elif t.op == "app" and t.a[0] == "cast" and t.a[1] in CAST_MAX:
                v = go(t.a[2])
                r = v if self.prove(v) and self.prove(sub(I(CAST_MAX[t.a[1]]), v)) else rebuild(t, (t.a[0], t.a[1], v)) if v is not t.a[2] else t
            elif t.op == "prod" and t.a[0].op == "seq" and self.decide(eq0(t.a[0].a[0])) is True: r = ONE
            elif t.op in ("seq", "forall"):
                # Inside, the index is known to be in range.
                n = go(t.a[0])
                x = fresh("i")
                g = self.copy()
                g.add(ge0(x)); g.add(lt(x, t.a[0])); g.add(lt(x, n))
                b = g.simp(subst(t.a[2], {bv(t.a[1]): x}))
                r = mkseq(n, x, b) if t.op == "seq" else forall(n, x, b)
            else:
                ch = False
                out = []
                for x in t.a:
                    y = go(x) if isinstance(x, T) else (got(x) if isinstance(x, tuple) else x)
                    if y is not x: ch = True
                    out.append(y)
                r = rebuild(t, tuple(out)) if ch else t
                if r.op == "at": r = self.at(r.a[0], r.a[1])
            memo[t] = r
            return r

        def got(x):
            y = tuple(go(z) if isinstance(z, T) else (got(z) if isinstance(z, tuple) else z) for z in x)
            return x if all(p is q for p, q in zip(x, y)) else y
        return go(t)

    def at(self, s, i):
        """The element of an updated sequence, where the facts tell which part holds it."""
        if s.op == "upd":
            d = sub(s.a[1], i)
            if self.prove(sub(d, ONE)) or self.prove(sub(neg(d), ONE)): return self.at(s.a[0], i)
            if self.prove(d) and self.prove(neg(d)): return s.a[2]
        elif s.op == "splice":
            old, a, b, new = s.a
            if self.prove(sub(sub(a, i), ONE)) or self.prove(sub(i, b)): return self.at(old, i)
            if self.prove(sub(i, a)) and self.prove(sub(sub(b, i), ONE)): return self.at(new, sub(i, a))
        elif s.op == "scat" and len(s.a) > 1:
            n = length(s.a[0])
            if self.prove(sub(sub(n, i), ONE)): return self.at(s.a[0], i)
            if self.prove(sub(i, n)): return self.at(scat(*s.a[1:]), sub(i, n))
        return at(s, i)

    def same_cases(self, a, b, depth=4):
        """Are two terms equal in every case of the choices they make?"""
        a, b = self.simp(a), self.simp(b)
        if a is b: return True
        c = next((t.a[0] for t in (a, b) if t.op == "ite"), None)
        if c is None or depth == 0: return self.same(a, b) if a.op not in ("ite",) and b.op not in ("ite",) else False
        for d in (c, NOT_deep(c)):
            g = self.copy()
            if g.add(d):
                # A disjunction is taken apart.
                if d.op == "not" and d.a[0].op == "and":
                    done = self.copy()
                    for x in d.a[0].a:
                        h = done.copy()
                        if h.add(NOT_deep(x)) and not h.same_cases(a, b, depth - 1): return False
                        if not done.add(x): break
                elif not g.same_cases(a, b, depth - 1): return False
        return True

    def chosen(self):
        """These facts with the choices in them that the facts decide made; None if there are none."""
        if not any(occurs_op(x, "ite") for x in self.true): return None
        g = self.copy()
        some = False
        for x in list(self.true):
            if occurs_op(x, "ite"):
                y = self.simp(x)
                if y is not x and y.op != "bool" and y not in g.true:
                    some = True
                    g._add(y)
        return g if some else None

    def states(self, d):
        """Do the facts say, literally, that d is not negative?"""
        return mk("ge0", d) in self.true or mk("ge0", sub(d, ONE)) in self.true

    def same(self, a, b):
        """Are two terms equal under these facts?"""
        if a is b: return True
        a, b = self.simp(a), self.simp(b)
        if a is b: return True
        if a.op in NUMERIC + ("ite",) and b.op in NUMERIC + ("ite",):
            d = sub(a, b)
            if self.prove(d) and self.prove(neg(d)): return True
            if (occurs_op(a, "max") or occurs_op(a, "min")) and self.decide(ge0(d)) is True and self.decide(ge0(neg(d))) is True: return True
            if occurs_op(a, "div") != occurs_op(b, "div") or occurs_op(a, "cdiv") != occurs_op(b, "cdiv"):
                g = self.chosen()
                if g is not None: return g.same(a, b)
        if a.op == b.op == "seq":
            if not self.same(a.a[0], b.a[0]): return False
            x = fresh("i")
            g = self.copy()
            g.add(ge0(x)); g.add(lt(x, a.a[0]))
            return g.same(inst(a, x), inst(b, x))
        if a.op == b.op and a.op in ("scat", "arr", "cat", "tup") and len(a.a) == len(b.a) and all(self.same(x, y) for x, y in zip(a.a, b.a)): return True
        if a.op == b.op == "subseq" and a.a[0] is b.a[0] and self.same(a.a[1], b.a[1]) and self.same(a.a[2], b.a[2]): return True
        if a.op == b.op == "adt" and a.a[:3] == b.a[:3]:
            return all(self.same(x, y) for x, y in zip(a.a[4:], b.a[4:]))
        sq = ("seq", "upd", "splice", "subseq", "scat")
        if (a.op in sq or b.op in sq) and a.op in sq + ("at", "fld", "sym", "vfld", "phi", "arr") and b.op in sq + ("at", "fld", "sym", "vfld", "phi", "arr"):
            if not self.same(length(a), length(b)): return False
            x = fresh("i")
            g = self.copy()
            g.add(ge0(x)); g.add(lt(x, length(a)))
            return g.same_cases(elem(a, x), elem(b, x))
        return False


def occurs_op(t, op): return anywhere(t, lambda u: u.op == op)


def elem(s, x):
    """The element of s at x, by cases."""
    if s.op == "upd": return ite(eq0(sub(x, s.a[1])), s.a[2], elem(s.a[0], x))
    if s.op == "splice": return ite(AND(le(s.a[1], x), lt(x, s.a[2])), elem(s.a[3], sub(x, s.a[1])), elem(s.a[0], x))
    if s.op == "subseq": return elem(s.a[0], add(s.a[1], x))
    if s.op == "scat":
        n = length(s.a[0])
        return ite(lt(x, n), elem(s.a[0], x), elem(scat(*s.a[1:]), sub(x, n)))
    return at(s, x)


def atom_range(x):
    if x.op == "len" and x.a[0].op == "app" and x.a[0].a[0] in ("split", "rsplit"): return 1, None
    if x.op in ("len", "prod_u", "k"): return 0, None
    ty = type_of(x)
    if ty: 
        lo, hi = range_of_type(ty)
        return lo, hi
    if x.op in ("div", "cdiv"):
        l, _ = term_lower(x.a[0])
        return (0, None) if l is not None and l >= 0 else (None, None)
    if x.op == "min":
        ls = [term_lower(y)[0] for y in x.a]
        if all(l is not None for l in ls): return min(ls), None
    if x.op == "max":
        ls = [term_lower(y)[0] for y in x.a]
        ls = [l for l in ls if l is not None]
        if ls: return max(ls), None
    if x.op in ("prod", "sum"):
        s = x.a[0]
        if s.op == "seq":
            l, _ = term_lower(s.a[2])
            if l is not None and l >= 0: return 0, None
        return 0, None
    if x.op == "ite":
        ls = [term_lower(y)[0] for y in x.a[1:]]
        if all(l is not None for l in ls): return min(ls), None
    return None, None


def term_lower(t):
    d = poly(t)
    lo = 0
    for m, c in d.items():
        a, b = 1, 1
        for x in m:
            l, h = atom_range(x)
            if l is None or l < 0:
                if len(m) == 1 and c > 0 and l is not None: a = l; continue
                return None, None
            a *= l
            b = None if (b is None or h is None) else b * h
        if c > 0: lo += c * a
        elif b is None: return None, None
        else: lo += c * b
    return lo, None


def undiv(p):
    """Inequalities over the integers that say the same as p >= 0 without a quotient in it."""
    d = poly(p)
    for m, c in d.items():
        if len(m) != 1 or m[0].op not in ("div", "cdiv") or c not in (1, -1): continue
        D = m[0]
        if sum(1 for n in d if D in n) > 1: continue
        q = unpoly({n: e for n, e in d.items() if n != m})
        x, y = D.a
        if c == -1: return [sub(sub(mul(add(q, ONE), y), x), ONE) if D.op == "div" else sub(mul(q, y), x)]
        r = neg(q)
        return [sub(x, mul(r, y)) if D.op == "div" else sub(sub(x, mul(sub(r, ONE), y)), ONE)]
    return []


def lemmas(p):
    out = []
    seen = set()
    for m in poly(p):
        for x in m:
            if x in seen: continue
            seen.add(x)
            if x.op == "min":
                for y in x.a: out.append(sub(y, x))
            elif x.op == "max":
                for y in x.a: out.append(sub(x, y))
            elif x.op == "div":
                a, b = x.a
                out.append(sub(a, mul(b, x)))                       # b*x <= a
                out.append(sub(add(mul(b, x), sub(b, ONE)), a))     # a <= b*x + b-1
                out.append(sub(a, x))                               # x <= a   (b >= 1)
            elif x.op == "cdiv":
                a, b = x.a
                out.append(sub(mul(b, x), a))
                out.append(sub(add(a, sub(b, ONE)), mul(b, x)))
                out.append(sub(a, x))
            ty = type_of(x)
            if ty:
                lo, hi = range_of_type(ty)
                out.append(sub(x, I(lo)))
                out.append(sub(I(hi), x))
            elif x.op in ("len", "k"):
                out.append(x)
    return out
