"""Abstract interpretation of MIR over the value-number domain of terms.py.

Paths are partitioned by the branch conditions the facts cannot decide; calls are analysed in
context by inlining the callee's MIR; loops are summarised by a fixpoint that generalises every
location the body changes (closed forms for inductions, appends, products and in-place maps,
an opaque phi otherwise). Effects on files, streams and the store are recorded as events.
"""
import os
import json
import re
from terms import *
from prover import Facts


class AnalysisError(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "trace", "loops", "nev", "nloop")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.trace = ()
        self.loops = ()
        self.nev = 0
        self.nloop = 0

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.loops = self.loops
        s.nev = self.nev
        s.nloop = self.nloop
        return s

    def assume(self, b):
        return self.facts.add(b)


class Out:
    """An outcome of a piece of code: tag, target block, state, value."""
    __slots__ = ("tag", "bb", "st", "val")

    def __init__(self, tag, st, val=None, bb=None):
        self.tag, self.st, self.val, self.bb = tag, st, val, bb


MODELS = []
_mcache = {}


def model(*pats):
    def deco(f):
        for p in pats:
            MODELS.append((re.compile(p + r"$"), f))
        return f
    return deco


def find_model(name):
    if name in _mcache: return _mcache[name]
    r = []
    for p, f in MODELS:
        if p.match(name) and f not in r: r.append(f)
    _mcache[name] = r
    return r


def cell(fid, l): return mk("cell", fid, l)


INTS = set(UNSIGNED) | set(SIGNED)
INT_TERMS = ("int", "poly", "div", "cdiv", "rem", "min", "max", "len", "prod", "sum", "k")


class LengthChanges(Exception):
    """The parts of the state of a loop whose length was wrongly taken to be kept."""


def spread_min(v):
    """a + min(b, c) as min(a + b, a + c)."""
    if v.op != "poly": return v
    mins = [m[0] for m, c in poly(v).items() if len(m) == 1 and c == 1 and m[0].op == "min" and len(m[0].a) == 2]
    if len(mins) != 1: return v
    r = sub(v, mins[0])
    return v if occurs(mins[0], r) else imin(*(add(r, x) for x in mins[0].a))


class Engine:
    def __init__(self, facts, budget=400000):
        self.F = facts
        self.bodies = facts["bodies"]
        self.stops = []            # (predicate on names, handler): calls summarised as events
        self.dir_n = None          # the number of entries of a directory, if chosen
        self.unroll = True         # loops of a few iterations one after the other
        self.maypanic = {}         # (kind, function, detail) -> (cond, facts, span)
        self.budget = budget
        self.steps = 0
        self.stack = []
        self.visited = set()
        self.unmodelled = {}
        self.cfg = {}
        self.opts = set()
        self.adts = {a["path"]: a for a in facts["adts"]}
        byname = {}
        for a in facts["adts"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    m = re.match(r"(?:smallvec::SmallVec<\[|alloc::vec::Vec<)(u8|u16|u32|u64|usize)\b", f["ty"])
                    byname.setdefault(f["name"], set()).add(m.group(1) if m else None)
        FIELD_ELEMS.update({n: next(iter(t)) for n, t in byname.items() if len(t) == 1 and None not in t})
        self.impls = {}
        for r in facts["roots"]:
            if r.get("impl_trait"):
                self.impls.setdefault((r["impl_trait"], r["name"]), []).append(r)
        self.calls_seen = {}
        self.nextform = {}
        self.seq_facts = {}        # what is known about the elements of a symbolic sequence
        self.log = {}              # event -> [(facts, events before it, call stack)]
        self.outer = []            # traces of the enclosing loops' surroundings
        self.sp = None

    # ------------------------------------------------------------ control flow graph
    def graph(self, key):
        g = self.cfg.get(key)
        if g is not None: return g
        body = self.bodies[key]
        n = len(body["blocks"])
        succ = []
        for b in body["blocks"]:
            t = b["t"]; k = t["k"]
            if k == "goto": s = [t["t"]]
            elif k == "switch": s = [x[1] for x in t["ts"]] + [t["else"]]
            elif k in ("drop", "assert"): s = [t["t"]]
            elif k == "call": s = [t["t"]] if t.get("t") is not None else []
            else: s = []
            succ.append(s)
        # Reverse post-order.
        order, seen = [], set()

        def dfs(u):
            st = [(u, iter(succ[u]))]
            seen.add(u)
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        st.append((w, iter(succ[w])))
                        break
                else:
                    order.append(v)
                    st.pop()
        dfs(0)
        order.reverse()
        rpo = {v: i for i, v in enumerate(order)}
        pred = {v: [] for v in order}
        for v in order:
            for w in succ[v]: pred[w].append(v)
        # Dominators.
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in order[1:]:
                ps = [p for p in pred[v] if p in idom]
                if not ps: continue
                x = ps[0]
                for y in ps[1:]:
                    a, b = x, y
                    while a != b:
                        while rpo[a] > rpo[b]: a = idom[a]
                        while rpo[b] > rpo[a]: b = idom[b]
                    x = a
                if idom.get(v) != x:
                    idom[v] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for v in order:
            for w in succ[v]:
                if rpo[w] <= rpo[v]:
                    if not dom(w, v): raise AnalysisError("irreducible control flow in " + key)
                    L = loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(pred[x])
        # Blocks that only lead to unreachable.
        g = (succ, rpo, loops, self.liveness(key, body, order, succ, seen), pred)
        self.cfg[key] = g
        return g

    def liveness(self, key, body, order, succ, seen):
        """Locals (whole) live on entry to each block; used to forget dead values."""
        borrowed = set()
        uses, defs = {}, {}

        def pl_use(p, acc):
            acc.add(p[0])
            for e in p[1:]:
                if isinstance(e, dict) and "i" in e: acc.add(e["i"])

        def op_use(o, acc):
            if o["k"] != "const": pl_use(o["p"], acc)
        for i in seen:
            b = body["blocks"][i]
            u, d = set(), set()

            def use(l):
                for x in l:
                    if x not in d: u.add(x)
            for s in b["s"]:
                acc = set()
                if "p" in s:
                    r = s["r"]
                    for o in [r.get("o"), r.get("l"), r.get("r")]:
                        if isinstance(o, dict) and "k" in o: op_use(o, acc)
                    for o in r.get("ops", []): op_use(o, acc)
                    if "p" in r: pl_use(r["p"], acc)
                    if r["k"] == "ref":
                        borrowed.add(r["p"][0])
                    if len(s["p"]) > 1: pl_use(s["p"], acc)
                    use(acc)
                    if len(s["p"]) == 1: d.add(s["p"][0])
                elif "setd" in s:
                    pl_use(s["setd"], acc); use(acc)
            t = b["t"]
            acc = set()
            if t["k"] == "call":
                for o in t["a"]: op_use(o, acc)
                if t["f"].get("o"): op_use(t["f"]["o"], acc)
                if len(t["d"]) > 1: pl_use(t["d"], acc)
                use(acc)
                if len(t["d"]) == 1: d.add(t["d"][0])
            elif t["k"] in ("switch", "assert"):
                op_use(t["o"], acc); use(acc)
            elif t["k"] == "drop":
                pl_use(t["p"], acc); use(acc)
            elif t["k"] == "return":
                use({0})
            uses[i], defs[i] = u, d
        live = {i: set() for i in seen}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set()
                for w in succ[i]: o |= live.get(w, set())
                n = uses[i] | (o - defs[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        return {i: live[i] | borrowed for i in live}

    # ------------------------------------------------------------ memory
    def load(self, st, c):
        v = st.mem.get(c)
        if v is not None: return v
        if c.op == "cell": raise AnalysisError(f"read of uninitialised {c.a} in {self.stack[-1] if self.stack else '?'}")
        return c

    def get(self, st, c, path):
        v = self.load(st, c)
        i = 0
        while i < len(path):
            e = path[i]
            if v.op == "ref" and e.op != "deref":
                # A place through a stored reference.
                return self.get(st, v.a[0], v.a[1] + tuple(path[i:]))
            v, i = self.step(st, v, path, i)
            if v in st.mem and v.op not in ("cell", "int", "str", "bool"): v = st.mem[v]
        return v

    def step(self, st, v, path, i):
        e = path[i]
        if e.op == "pf": return fld(v, e.a[0], e.a[1]), i + 1
        if e.op == "pv":
            if i + 1 < len(path) and path[i + 1].op == "pf":
                return vfld(v, e.a[1], path[i + 1].a[0]), i + 2
            return v, i + 1
        if e.op == "pi": return at(v, e.a[0]), i + 1
        if e.op == "ps": return subseq(v, e.a[0], e.a[1]), i + 1
        if e.op == "pmap": return vfld(map_get(v, e.a[0]), "Some", 0), i + 1
        if e.op == "pn": return nd_slice(v, e.a[0], e.a[1]), i + 1
        raise AnalysisError("projection " + e.op)

    def put(self, st, c, path, nv):
        if not path:
            st.mem[c] = nv
            return
        old = st.mem.get(c)
        if old is None:
            if c.op == "cell": old = mk("undef")
            else: old = c
        if old.op == "ref":
            return self.put(st, old.a[0], old.a[1] + tuple(path), nv)
        r = self.setp(st, old, tuple(path), nv)
        if r is not None: st.mem[c] = r

    def setp(self, st, old, path, nv):
        if not path: return nv
        if old.op == "ref":
            self.put(st, old.a[0], old.a[1] + path, nv)
            return old
        e = path[0]
        if e.op == "pf":
            if old.op == "boxmem": return self.setp(st, old, path[1:], nv)
            sub_ = self.setp(st, fld(old, e.a[0], e.a[1]), path[1:], nv)
            return self.setfld(old, e.a[0], e.a[1], sub_)
        if e.op == "pv":
            if len(path) > 1 and path[1].op == "pf":
                i = path[1].a[0]
                x = self.setp(st, vfld(old, e.a[1], i), path[2:], nv)
                if old.op == "adt" and old.a[2] == e.a[1]:
                    l = list(old.a); l[4 + i] = x
                    return mk("adt", *l)
                return rec(old, {mk("pvf", e.a[1], i): x})
            return self.setp(st, old, path[1:], nv)
        if e.op == "pi":
            x = self.setp(st, at(old, e.a[0]), path[1:], nv)
            return upd(old, e.a[0], x)
        if e.op == "ps":
            x = self.setp(st, subseq(old, e.a[0], e.a[1]), path[1:], nv)
            return splice(old, e.a[0], e.a[1], x)
        if e.op == "pmap":
            x = self.setp(st, vfld(map_get(old, e.a[0]), "Some", 0), path[1:], nv)
            return app("map_insert", old, e.a[0], x)
        if e.op == "pn":
            x = self.setp(st, nd_slice(old, e.a[0], e.a[1]), path[1:], nv)
            return app("nd_assign", old, e.a[0], e.a[1], x)
        raise AnalysisError("assignment through " + e.op)

    def setfld(self, old, i, n, v):
        if old.op == "adt":
            l = list(old.a)
            while len(l) <= 4 + i: l.append(mk("undef"))
            l[4 + i] = v
            return mk("adt", *l)
        if old.op == "tup":
            l = list(old.a); l[i] = v
            return tup(*l)
        if old.op == "clos":
            l = list(old.a); l[1 + i] = v
            return mk("clos", *l)
        if old.op == "undef":
            l = [mk("undef")] * i + [v]
            return tup(*l)
        return rec(old, {pf(i, n): v})

    def target(self, st, v):
        """The place a reference value denotes."""
        n = 0
        while v.op == "ref":
            x = st.mem.get(v.a[0]) if not v.a[1] else None
            if x is not None and x.op == "ref": v = x
            else: return v.a[0], v.a[1]
            n += 1
            if n > 50: raise AnalysisError("cyclic reference")
        return v, ()

    def deref(self, st, v):
        n = 0
        while v.op == "ref":
            v = self.get(st, v.a[0], v.a[1])
            n += 1
            if n > 50: raise AnalysisError("cyclic reference")
        if v.op != "cell" and v in st.mem: return st.mem[v]
        return v

    def dd(self, st, v):
        """Value with every contained reference replaced by what it refers to."""
        v = self.deref(st, v)
        if v.op in ("cell", "int", "bool", "str", "char"): return v
        if not anywhere(v, lambda t: t.op == "ref"): return v
        memo = {}

        def go(t):
            if t in memo: return memo[t]
            if t.op == "ref":
                r = self.dd(st, t)
            else:
                a2 = goa(t.a)
                r = t if a2 == t.a else rebuild(t, a2)
            memo[t] = r
            return r

        def goa(a):
            return tuple(go(x) if isinstance(x, T) else goa(x) if isinstance(x, tuple) else x for x in a)
        return go(v)

    def place(self, st, fid, p):
        c, path = cell(fid, p[0]), ()
        for e in p[1:]:
            if e == "*":
                v = self.get(st, c, path)
                if v.op == "ref": c, path = v.a[0], v.a[1]
                else: c, path = v, ()
            elif isinstance(e, dict):
                if "f" in e: path += (pf(e["f"], e.get("n")),)
                elif "v" in e: path += (pv(e["v"], e.get("n")),)
                elif "i" in e:
                    path += (pi(self.load(st, cell(fid, e["i"]))),)
                elif "ci" in e:
                    i = I(e["ci"])
                    if e.get("end"): i = sub(length(self.dd(st, self.get(st, c, path))), i)
                    path += (pi(i),)
                elif "sub" in e:
                    a, b, fe = e["sub"]
                    hi = sub(length(self.get(st, c, path)), I(b)) if fe else I(b)
                    path += (mk("ps", I(a), hi),)
                else: raise AnalysisError("place projection " + str(e))
            else: raise AnalysisError("place projection " + str(e))
        return c, path

    def rd(self, st, fid, p):
        c, path = self.place(st, fid, p)
        return self.get(st, c, path)

    # ------------------------------------------------------------ constants and operands
    def const(self, v, ty=None, key=None):
        if "bool" in v: return B(v["bool"])
        if "int" in v: return I(v["int"])
        if "char" in v: return CH(chr(v["char"]) if isinstance(v["char"], int) else v["char"])
        if "str" in v: return S(v["str"])
        if "bytes" in v: return mk("bytes", tuple(v["bytes"]))
        if "float" in v: return mk("float", v["float"])
        if "ref" in v: return self.const(v["ref"])
        if "fn" in v: return self.fnterm(v["fn"])
        if "zst" in v: return UNIT if v["zst"] == "()" else mk("zst", v["zst"])
        if "bits" in v: return I(v["bits"])
        if "agg" in v:
            fs = [self.const(x) for x in v["agg"]]
            vn = v.get("variant")
            if vn: return adt(vn["adt"], vn["i"], vn["n"], v["names"] or (), *fs)
            if ty and ty.lstrip("&").startswith("["): return arr(*fs)
            return tup(*fs)
        if "opaque" in v: return app("const", v["opaque"])
        raise AnalysisError("constant " + str(v)[:80])

    def fnterm(self, f):
        t = mk("fn", f.get("def") or "?", json.dumps(f, sort_keys=True))
        return t

    def operand(self, st, fid, o):
        k = o["k"]
        if k == "const":
            if "v" in o and "opaque" not in o["v"]: return self.const(o["v"], o.get("ty"))
            if "fn" in o: return self.fnterm(o["fn"])
            if "promoted" in o:
                return self.promoted(o["promoted"])
            if "closure" in o:
                return mk("clos", o["closure"])
            if "generic" in o: return mk("sym", "const:" + str(o["generic"]), o.get("ty"))
            if o.get("ty") == "()": return UNIT
            return app("const", o.get("rdef") or o.get("def") or str(o.get("v") or o.get("ty")))
        v = self.rd(st, fid, o["p"])
        if k == "move" and len(o["p"]) == 1:
            st.mem.pop(cell(fid, o["p"][0]), None)
        return v

    def promoted(self, key):
        c = mk("promoted", key)
        v = self.cfg.get(("promoted", key))
        if v is None:
            if key not in self.bodies:
                v = app("const", key)
            else:
                st = St()
                outs = self.run(key, [], st, 900)
                outs = [o for o in outs if o.tag == "ret"]
                if len(outs) != 1: raise AnalysisError("promoted constant " + key)
                v = self.dd(outs[0].st, outs[0].val)
            self.cfg[("promoted", key)] = v
        return v

    # ------------------------------------------------------------ rvalues
    def fits(self, st, v, ty):
        lo, hi = range_of_type(ty)
        if lo is None: return False
        return st.facts.prove(sub(v, I(lo))) and st.facts.prove(sub(I(hi), v))

    def rvalue(self, st, fid, r, key, dty=None):
        k = r["k"]
        if k == "use": return self.operand(st, fid, r["o"])
        if k == "ref":
            c, path = self.place(st, fid, r["p"])
            if c.op != "cell" and not path and c not in st.mem and not r.get("mut"): return c
            return ref(c, path)
        if k == "repeat": 
            n = r["n"]
            n = n if isinstance(n, int) else n
            return constseq(I(n) if isinstance(n, int) else self.tint(n), self.operand(st, fid, r["o"]))
        if k == "cast": return self.cast(st, r, self.operand(st, fid, r["o"]))
        if k == "bin": return self.binop(st, r["op"], self.operand(st, fid, r["l"]), self.operand(st, fid, r["r"]), r["ty"])
        if k == "un":
            v = self.deref(st, self.operand(st, fid, r["o"]))
            if r["op"] == "Not":
                if r["ty"] == "bool": return NOT_deep(v)
                return app("bitnot", r["ty"], v)
            if r["op"] == "Neg": return neg(v) if r["ty"] in INTS else app("neg", v)
            if r["op"] == "PtrMetadata": return length(v)
            raise AnalysisError("unary operator " + r["op"])
        if k == "discr":
            v = self.deref(st, self.rd(st, fid, r["p"]))
            return self.discr(v, r["variants"])
        if k == "len":
            return length(self.deref(st, self.rd(st, fid, r["p"])))
        if k == "agg":
            ops = [self.operand(st, fid, o) for o in r["ops"]]
            if r["a"] == "tuple": return tup(*ops)
            if r["a"] == "array": return arr(*ops)
            if r["a"] == "adt": return adt(r["adt"], r["v"], r["n"], r["names"], *ops)
            if r["a"] == "closure": return mk("clos", r["body"], *ops)
            # A fat pointer from its parts, and the like.
            return ops[0] if ops else UNIT
        raise AnalysisError("rvalue " + k + " " + str(r.get("d", ""))[:80])

    def tint(self, n):
        return mk("sym", "const:" + str(n), "usize")

    def discr(self, v, variants):
        vs = tuple((x[0], x[1], x[2]) for x in variants)
        if not vs and v.op == "sym": return ZERO
        return discr(v, vs)

    def cast(self, st, r, v):
        frm, ty = r["from"], r["ty"]
        if ty in INTS:
            if frm == "bool":
                v = self.deref(st, v)
                return ite(v, ONE, ZERO)
            if frm == "char":
                return I(ord(v.a[0])) if v.op == "char" else settype(app("ord", v), "u32") if ty in ("u32", "u64", "i64", "usize", "i32") else app("cast", ty, app("ord", v))
            if frm in INTS:
                v = self.deref(st, v)
                if v.op == "int":
                    lo, hi = range_of_type(ty)
                    n = hi - lo + 1
                    return I((v.a[0] - lo) % n + lo)
                if v.op == "ite" : return ite(v.a[0], self.cast(st, r, v.a[1]), self.cast(st, r, v.a[2]))
                if {frm, ty} <= {"u64", "usize"}: return v
                flo, fhi = range_of_type(frm); lo, hi = range_of_type(ty)
                if flo >= lo and fhi <= hi: return settype(v, frm)
                if self.fits(st, v, ty): return v
                return settype(app("cast", ty, v), ty)
            if v.op == "discr" or v.op == "int": return v
        if r["c"].startswith(("Pointer", "PtrToPtr", "Transmute", "Unsize", "FnPtr")) or "oercion" in r["c"]:
            return v
        if ty.startswith(("&", "*", "alloc::boxed::Box", "fn(")): return v
        if v.op == "char" and ty == "char": return v
        if ty == "char":
            v = self.deref(st, v)
            if v.op == "int": return CH(chr(v.a[0]))
            return app("chr", v)
        return app("cast", ty, v)

    def binop(self, st, op, l, r, ty):
        l, r = self.deref(st, l), self.deref(st, r)
        if ty in INTS:
            lo, hi = range_of_type(ty)
            if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked", "Offset"):
                v = {"A": add, "S": sub, "M": mul, "O": add}[op[0]](l, r)
                if op.endswith("Unchecked") or self.fits(st, v, ty): return v
                return settype(app("w" + op, ty, l, r), ty)
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                v = {"A": add, "S": sub, "M": mul}[op[0]](l, r)
                return tup(v, NOT_deep(AND(le(I(lo), v), le(v, I(hi)))))
            if op == "Div":
                return settype(div(l, r), ty) if ty in UNSIGNED or (l.op == r.op == "int") else app("sdiv", l, r)
            if op == "Rem": return rem(l, r) if ty in UNSIGNED else app("srem", l, r)
            if op == "Lt": return lt(l, r)
            if op == "Le": return le(l, r)
            if op == "Gt": return lt(r, l)
            if op == "Ge": return le(r, l)
            if op == "Eq": return EQ(l, r, True)
            if op == "Ne": return NOT_deep(EQ(l, r, True))
            if l.op == r.op == "int" and op in ("BitAnd", "BitOr", "BitXor"):
                x, y = l.a[0], r.a[0]
                return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            if op == "BitAnd" and ty in UNSIGNED:
                x, m = (l, r) if r.op == "int" else (r, l)
                if m.op == "int" and m.a[0] & (m.a[0] + 1) == 0: return rem(x, I(m.a[0] + 1))
            if op in ("Shl", "ShlUnchecked") and l.op == r.op == "int":
                n = hi - lo + 1
                return I(((l.a[0] << r.a[0]) - lo) % n + lo)
            if op in ("Shr", "ShrUnchecked") and l.op == r.op == "int": return I(l.a[0] >> r.a[0])
            if op in ("Shr", "ShrUnchecked") and r.op == "int" and ty in UNSIGNED:
                return div(l, I(1 << r.a[0]))
            if op == "Cmp":
                return app("cmp", l, r)
            return settype(app("bin" + op, l, r), ty)
        if ty == "bool":
            if op == "BitAnd": return AND(l, r)
            if op == "BitOr": return OR(l, r)
            if op in ("BitXor", "Ne"): return NOT_deep(EQ(l, r)) if not conc(l) and not conc(r) else (NOT_deep(r) if l is TRUE else r if l is FALSE else NOT_deep(l) if r is TRUE else l)
            if op == "Eq": return EQ(l, r)
        if op == "Eq": return EQ(l, r)
        if op == "Ne": return NOT_deep(EQ(l, r))
        if ty == "char":
            if l.op == r.op == "char":
                x, y = ord(l.a[0]), ord(r.a[0])
                return B({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            a, b = self.cordt(l), self.cordt(r)
            return {"Lt": lt(a, b), "Le": le(a, b), "Gt": lt(b, a), "Ge": le(b, a)}[op]
        return app("bin" + op, l, r)

    def cordt(self, c):
        return I(ord(c.a[0])) if c.op == "char" else settype(app("ord", c), "u32")

    # ------------------------------------------------------------ running bodies
    def run(self, key, args, st, fid):
        """All outcomes ('ret' or 'panic') of calling a body."""
        body = self.bodies[key]
        self.visited.add(key)
        if len(self.stack) > 60: raise AnalysisError("call depth at " + key)
        self.stack.append(key)
        try:
            st = st.copy()
            argc = body["argc"]
            if body.get("spread") and len(args) > body["spread"]:
                # The last formal is a tuple of the remaining actuals.
                n = body["spread"]
                args = args[:n - 1] + [tup(*args[n - 1:])] if not (len(args) == n and args[-1].op == "tup") else args
            if len(args) != argc:
                raise AnalysisError(f"arity of {key}: {len(args)} for {argc}")
            for i, a in enumerate(args):
                st.mem[cell(fid, i + 1)] = a
                ty = body["locals"][i + 1]["ty"]
                settype(a, ty.lstrip("&"))
            outs = []
            for o in self.region(key, fid, 0, st, None, None):
                if o.tag == "ret":
                    self.cleanup(o.st, fid)
                outs.append(o)
            return self.merge_rets(outs)
        finally:
            self.stack.pop()

    def cleanup(self, st, fid):
        for c in [c for c in st.mem if c.op == "cell" and c.a[0] >= fid and c.a[0] < 900]:
            del st.mem[c]

    def merge_rets(self, outs):
        if len(outs) < 2: return outs
        groups = {}
        rest = []
        for o in outs:
            if o.tag != "ret":
                rest.append(o)
                continue
            groups.setdefault((o.st.trace, o.st.nev), []).append(o)
        res = []
        for g in groups.values():
            g = list(g)
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        m = self.merge2(g[i], g[j])
                        if m is not None:
                            g[i] = m
                            del g[j]
                            ch = True
                            break
                    if ch: break
            res += g
        return res + rest

    def merge2(self, a, b):
        va, vb = a.val, b.val
        if va is not vb:
            if not self.mergeable(va, vb): return None
        s, t = a.st, b.st
        if "precise" in self.opts and s.facts.true.keys() != t.facts.true.keys(): return None
        if s.mem.keys() != t.mem.keys(): return None
        diff = [c for c in s.mem if s.mem[c] is not t.mem[c]]
        for c in diff:
            if not self.mergeable(s.mem[c], t.mem[c]): return None
        fa, fb = s.facts.true, t.facts.true
        cond = None
        if va is not vb or diff:
            for f in fa:
                if NOT_deep(f) in fb:
                    cond = f
                    break
            if cond is None: return None
        n = s.copy()
        n.facts = self.join_facts(s.facts, t.facts, cond)
        n.nloop = max(s.nloop, t.nloop)
        for c in diff: n.mem[c] = ite(cond, s.mem[c], t.mem[c])
        return Out(a.tag, n, va if va is vb else ite(cond, va, vb), a.bb)

    def mergeable(self, a, b):
        if a is b: return True
        if conc(a) and conc(b) and a.op in ("bool",): return False
        if a.op == "adt" and b.op == "adt":
            return a.a[:3] == b.a[:3] and all(self.mergeable(x, y) for x, y in zip(a.a[4:], b.a[4:]))
        if a.op == "adt" or b.op == "adt": return False
        if a.op == "tup" and b.op == "tup": return len(a.a) == len(b.a) and all(self.mergeable(x, y) for x, y in zip(a.a, b.a))
        ok_ = lambda t: t.op in NUMERIC + ("ite", "int", "str", "cat", "eq", "ge0", "eq0", "not", "and", "is", "char")
        return ok_(a) and ok_(b)

    def join_facts(self, f, g, cond):
        n = Facts()
        for t in f.true:
            if t in g.true: n._add(t)
        if cond is not None:
            nc = NOT_deep(cond)
            c = 0
            for t in f.true:
                if t not in g.true and t is not cond and c < 12:
                    n._add(OR(nc, t)); c += 1
            c = 0
            for t in g.true:
                if t not in f.true and t is not nc and c < 12:
                    n._add(OR(cond, t)); c += 1
        return n

    def region(self, key, fid, entry, st, blocks, header):
        """Explore from entry. With `blocks`, stop at edges leaving them or returning to header."""
        body = self.bodies[key]
        succ, rpo, loops, live, pred = self.graph(key)
        work = {entry: [st]}
        outs = []
        first = True
        while work:
            bb = min(work, key=lambda b: rpo[b])
            sts = work.pop(bb)
            if not first:
                if bb == header:
                    outs += [Out("back", s) for s in sts]
                    continue
                if blocks is not None and bb not in blocks:
                    outs += [Out("exit", s, bb=bb) for s in sts]
                    continue
            if bb in loops and not (first and bb == header):
                first = False
                for s in sts:
                    for o in self.loop(key, fid, bb, loops[bb], s):
                        if o.tag == "exit": work.setdefault(o.bb, []).append(o.st)
                        else: outs.append(o)
                continue
            first = False
            if len(sts) > 1: sts = self.join_states(sts, fid, live[bb])
            for s in sts:
                for o in self.block(key, fid, bb, s):
                    if o.tag == "exit": work.setdefault(o.bb, []).append(o.st)
                    else: outs.append(o)
        return outs

    def join_states(self, sts, fid, live):
        for s in sts:
            for c in [c for c in s.mem if c.op == "cell" and c.a[0] == fid and isinstance(c.a[1], int) and c.a[1] not in live]:
                del s.mem[c]
        out = []
        for s in sts:
            for i, t in enumerate(out):
                if t.trace == s.trace and t.mem == s.mem and t.nev == s.nev and (
                        "precise" not in self.opts or t.facts.true.keys() == s.facts.true.keys()):
                    n = t.copy()
                    n.facts = self.join_facts(t.facts, s.facts, None)
                    n.nloop = max(t.nloop, s.nloop)
                    out[i] = n
                    break
            else:
                out.append(s)
        return out

    def tick(self):
        self.steps += 1
        if self.steps > self.budget: raise AnalysisError("step budget exhausted")

    def where(self, key, sp=None):
        return key + (" " + str(sp) if sp else "")

    def note_panic(self, kind, key, detail, cond, st, sp):
        self.maypanic.setdefault((kind, key, detail), []).append((cond, st, sp, tuple(self.stack)))

    def block(self, key, fid, bb, st):
        self.tick()
        body = self.bodies[key]
        blk = body["blocks"][bb]
        locs = body["locals"]
        for s in blk["s"]:
            if "p" in s:
                p = s["p"]
                v = self.rvalue(st, fid, s["r"], key)
                if len(p) == 1:
                    settype(v, locs[p[0]]["ty"].lstrip("&"))
                    st.mem[cell(fid, p[0])] = v
                else:
                    c, path = self.place(st, fid, p)
                    self.put(st, c, path, v)
            elif "dead" in s:
                st.mem.pop(cell(fid, s["dead"]), None)
            elif "setd" in s:
                raise AnalysisError("set discriminant in " + key)
        t = blk["t"]
        k = t["k"]
        if k == "goto": return [Out("exit", st, bb=t["t"])]
        if k == "return": return [Out("ret", st, self.load(st, cell(fid, 0)) if cell(fid, 0) in st.mem else UNIT)]
        if k in ("unreachable", "resume"): return []
        if k == "switch": return self.switch(key, fid, t, st)
        if k == "drop":
            r = []
            for s in self.drop(st, fid, t, key): r.append(Out("exit", s, bb=t["t"]))
            return r
        if k == "assert":
            # Checks of raw pointers and bit patterns, which only unsafe code (the crate forbids it) can fail.
            if str(t["m"]).startswith("Discriminant("): return [Out("exit", st, bb=t["t"])]
            c = self.operand(st, fid, t["o"])
            if not t["exp"]: c = NOT_deep(c)
            d = st.facts.decide(c)
            if d is not True:
                m = t["m"] if isinstance(t["m"], str) else json.dumps(t["m"])
                self.note_panic("assert:" + m[:40], key, show(c)[:200], c, st.copy(), t.get("sp"))
                if not st.assume(c): return []
            return [Out("exit", st, bb=t["t"])]
        if k == "call":
            res = []
            args = [self.operand(st, fid, a) for a in t["a"]]
            f = t["f"]
            if f.get("o"): f = dict(f); fv = self.operand(st, fid, f["o"]); f["fv"] = fv
            for o in self.call(st, f, args, key, fid, t):
                if o.tag == "panic":
                    res.append(o)
                    continue
                if t.get("t") is None: continue
                p = t["d"]
                v = o.val
                if len(p) == 1:
                    settype(v, locs[p[0]]["ty"].lstrip("&"))
                    o.st.mem[cell(fid, p[0])] = v
                else:
                    c, path = self.place(o.st, fid, p)
                    self.put(o.st, c, path, v)
                res.append(Out("exit", o.st, bb=t["t"]))
            return res
        raise AnalysisError("terminator " + k)

    def switch(self, key, fid, t, st):
        o = self.deref(st, self.operand(st, fid, t["o"]))
        res = []
        if o.op == "ite" and t["ty"] != "bool":
            # Decide the choice first.
            outs = []
            for c, v in ((o.a[0], o.a[1]), (NOT_deep(o.a[0]), o.a[2])):
                s = st.copy()
                if s.assume(c): outs += self.switch_on(t, s, v)
            return outs
        return self.switch_on(t, st, o)

    def switch_on(self, t, st, o):
        if o.op == "ite" and t["ty"] != "bool":
            outs = []
            for c, v in ((o.a[0], o.a[1]), (NOT_deep(o.a[0]), o.a[2])):
                s = st.copy()
                if s.assume(c): outs += self.switch_on(t, s, v)
            return outs
        res = []
        conds = []
        for v, bb in t["ts"]:
            if t["ty"] == "bool": c = o if v else NOT_deep(o)
            elif t["ty"] == "char": c = EQ(o, CH(chr(v)))
            else: c = EQ(o, I(v), True)
            conds.append(c)
            if c is FALSE: continue
            s = st.copy()
            if s.assume(c): res.append(Out("exit", s, bb=bb))
        s = st
        okk = True
        if o.op == "discr":
            vals = {v for v, _ in t["ts"]}
            left = [x for x in o.a[1] if x[0] not in vals]
            left = [x for x in left if s.facts.decide(IS(o.a[0], x[2])) is not False]
            if not left: okk = False
            elif len(left) == 1: okk = s.assume(IS(o.a[0], left[0][2]))
        if okk:
            for c in conds:
                if not s.assume(NOT_deep(c)):
                    okk = False
                    break
        if okk: res.append(Out("exit", s, bb=t["else"]))
        return res

    # ------------------------------------------------------------ events
    def event(self, st, name, *args):
        e = mk("ev", name, *args)
        self.logev(st, e)
        st.trace = st.trace + (e,)
        return e

    def logev(self, st, e):
        pre = tuple(x for t in self.outer for x in t) + st.trace
        self.log.setdefault(e, []).append((st.facts.copy(), pre, tuple(self.stack), self.sp))

    def result(self, st, name, *args):
        """An event together with the symbol of its io::Result."""
        st.nev += 1
        r = mk("res", name, st.nev, st.loops, *args)
        e = mk("ev", name, r, *args)
        self.logev(st, e)
        st.trace = st.trace + (e,)
        return r

    def drop(self, st, fid, t, key):
        c, path = self.place(st, fid, t["p"])
        try:
            v = self.get(st, c, path)
        except AnalysisError:
            return [st]
        if c.op == "cell" and not path: st.mem.pop(c, None)
        return self.drop_value(st, v, t.get("ty", ""))

    def drop_value(self, st, v, ty):
        if v.op == "ref": return [st]
        import models
        return models.drop_value(self, st, v, ty)

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, key, fid, t):
        self.tick()
        d = f.get("def") or ""
        rd = f.get("rdef") or d
        sp = t.get("sp") if t else None
        if sp: self.sp = sp
        ctx = Ctx(self, f, key, fid, t)
        n = self.calls_seen.get(rd, 0)
        self.calls_seen[rd] = n + 1
        if f.get("ctor"):
            c = f["ctor"]
            return [Out("ret", st, adt(c["adt"], c["i"], c["n"], c["names"], *args))]
        for pred, h in self.stops:
            if pred(d, rd, f):
                r = h(self, st, args, ctx)
                if r is not NotImplemented: return self.wrap(r)
        bk = f.get("body")
        if f["kind"] == "indirect" or f["kind"] == "fn_ptr":
            fv = f.get("fv")
            if fv is None and args: fv, args = args[0], (list(self.deref(st, args[1]).a) if len(args) > 1 and self.deref(st, args[1]).op == "tup" else args[1:])
            return self.call_value(st, fv, list(args), fid)
        if re.match(r"core::ops::(function|async_function)::(FnOnce|FnMut|Fn)::call", d) and args:
            a = self.deref(st, args[1])
            return self.call_value(st, args[0], list(a.a) if a.op == "tup" else [a], fid)
        b = self.bodies.get(bk) if bk else None
        if b is not None and b["local"] and bk not in self.stack_rec():
            return self.run(bk, list(args), st, fid + 1)
        for nm in (rd, d):
            for m in find_model(nm):
                r = m(self, st, args, ctx)
                if r is not NotImplemented: return self.wrap(r)
        if t is not None and t.get("t") is None:
            # Diverging: a panic.
            return [Out("panic", st, (rd, key, sp, tuple(self.dd(st, a) for a in args)))]
        if b is not None and bk not in self.stack:
            return self.run(bk, list(args), st, fid + 1)
        return self.opaque(st, f, args, ctx)

    def stack_rec(self):
        # Permit bounded recursion of local functions: none.
        return self.stack

    def wrap(self, r):
        out = []
        for x in r:
            if isinstance(x, Out): out.append(x)
            else: out.append(Out("ret", x[0], x[1]))
        return out

    def opaque(self, st, f, args, ctx):
        d = f.get("rdef") or f.get("def") or "?"
        self.unmodelled[d] = self.unmodelled.get(d, 0) + 1
        vals = [self.dd(st, a) for a in args]
        name = "call:" + d
        if re.match(r"^(std|core)::fs::|^std::process|^std::net|.*::remove|.*::write", d) and not d.startswith("serde_json::map"):
            self.result(st, "unmodelled", S(d), *vals)
        if any(anywhere(v, lambda t: t.op == "clos") for v in vals):
            self.event(st, "opaque_hof", S(d), *vals)
        tys = ctx.argtys()
        for a, ty in zip(args, tys):
            if ty.startswith("&mut") or ty.startswith("*mut"):
                c, path = self.target(st, a)
                self.put(st, c, path, app("havoc:" + d, *vals))
        if re.search(r"f\d\d::(to|from)|::new|::default|from_|to_", d) is None: pass
        v = app(name, *vals)
        dty = ctx.dty()
        settype(v, dty)
        return [Out("ret", st, v)]

    def call_value(self, st, fv, args, fid):
        v = self.deref(st, fv)
        if v.op == "clos":
            key = v.a[0]
            if key not in self.bodies: raise AnalysisError("closure without body " + key)
            b = self.bodies[key]
            envty = b["locals"][1]["ty"] if b["argc"] else ""
            a = [fv if fv.op == "ref" else v] + list(args)
            if b["argc"] == 0: a = list(args)
            if len(a) != b["argc"] and not b.get("spread"):
                if b["argc"] == 2 and len(args) != 1: a = [a[0], tup(*args)]
                elif len(a) == b["argc"] + 1: a = list(args)
            if fv.op != "ref" and (envty.startswith("&")):
                c = cell(fid + 1, "env" + str(len(self.stack)))
                st = st.copy()
                st.mem[c] = v
                a[0] = ref(c)
                return self.run(key, a, st, fid + 2)
            return self.run(key, a, st, fid + 1)
        if v.op == "fn":
            f = json.loads(v.a[1])
            return self.call(st, f, list(args), self.stack[-1] if self.stack else "?", fid, {"dty": f.get("ret", ""), "t": 0, "argtys": None})
        if v.op == "ite":
            res = []
            for c, x in ((v.a[0], v.a[1]), (NOT_deep(v.a[0]), v.a[2])):
                s = st.copy()
                if s.assume(c): res += self.call_value(s, x, args, fid)
            return res
        r = self.result(st, "callback", v, *[self.dd(st, a) for a in args])
        return [Out("ret", st, r)]

    # ------------------------------------------------------------ loops
    def loop(self, key, fid, header, blocks, st):
        live = self.graph(key)[3][header]
        for c in [c for c in st.mem if c.op == "cell" and c.a[0] == fid and isinstance(c.a[1], int) and c.a[1] not in live]:
            del st.mem[c]
        tys = {cell(fid, i): l["ty"] for i, l in enumerate(self.bodies[key]["locals"])}
        return self.do_loop(st, f"{key}#{self.loop_site(key, header)}",
                            lambda s: self.region(key, fid, header, s, blocks, header), tys)

    def loop_site(self, key, header):
        g = self.graph(key)
        return sorted(g[2], key=lambda b: g[1][b]).index(header)

    def snap(self):
        return ({a: len(b) for a, b in self.maypanic.items()}, {a: len(b) for a, b in self.log.items()})

    def restore(self, s):
        for d, n in zip((self.maypanic, self.log), s):
            for a in list(d):
                if a not in n: del d[a]
                elif len(d[a]) > n[a]: del d[a][n[a]:]

    def inloop(self, st0, stepf, h):
        self.outer.append(st0.trace)
        try: return stepf(h)
        finally: self.outer.pop()

    def do_loop(self, st0, site, stepf, tys={}):
        if "concrete" in self.opts:
            work, res, before = [st0.copy()], [], self.snap()
            for _ in range(40):
                nxt = []
                for s in work:
                    for o in stepf(s): (nxt if o.tag == "back" else res).append(o.st if o.tag == "back" else o)
                if not nxt: return res
                work = nxt
            self.restore(before)      # not driven by the document
        mine, n, snap = frozenset(), st0.nloop, self.snap()
        for _ in range(8):
            try: return self.do_loop1(st0, site, stepf, tys, mine)
            except LengthChanges as x:
                mine |= x.args[0]
                st0.nloop = n
                self.restore(snap)
        raise AnalysisError("loop does not stabilise: " + site)

    def do_loop1(self, st0, site, stepf, tys, mine):
        self.tick()
        st0.nloop += 1
        k = mk("k", site, st0.nloop, st0.loops)
        TY[k] = "usize"
        H = dict(st0.mem)
        phis = {}        # phi -> initial value
        order = []
        solved = {}
        cands = {}       # candidate invariants: phi -> set of terms (facts)
        extra = []       # proved invariants at the header
        saved = self.snap()

        def header():
            s = St()
            s.mem = dict(H)
            s.facts = st0.facts.copy()
            s.loops = st0.loops + (k,)
            s.nev = st0.nev
            s.nloop = st0.nloop
            s.assume(ge0(k))
            for e in extra: s.assume(e)
            return s

        stage = 0
        inv_try = None
        for rnd in range(40):
            self.restore(saved)
            h = header()
            outs = self.inloop(st0, stepf, h)
            backs = [o for o in outs if o.tag == "back"]
            changed = False
            for b in backs:
                for c in list(H):
                    if c not in b.st.mem and c.op == "cell":
                        H.pop(c)
                        changed = True
                        continue
                    hv = H[c]
                    bvv = b.st.mem.get(c, c)
                    if hv is not bvv:
                        g = self.gen(c, hv, bvv, k, phis, order, (c,), tys.get(c), solved, b.st.facts, mine)
                        if g is not hv:
                            H[c] = g
                            changed = True
                for c in b.st.mem:
                    if c not in H and c.op != "cell":
                        H[c] = c
                        g = self.gen(c, c, b.st.mem[c], k, phis, order, (c,), None, solved, b.st.facts, mine)
                        if g is not c:
                            H[c] = g
                            changed = True
            if changed:
                inv_try = None
                extra = [e for e in extra]
                continue
            unsolved = [p for p in order if p not in solved]
            live_phi = [p for p in unsolved if any(occurs(p, v) for v in H.values())]
            if not backs: break
            # Closed forms.
            progress = False
            self.nexts = {q: [self.next_of(H, b.st.mem, q) for b in backs] for q in live_phi}
            self.inits = phis
            for p in live_phi:
                nx = [(self.next_of(H, b.st.mem, p), b.st) for b in backs]
                if any(n is None for n, _ in nx): continue
                f = self.solve(p, phis[p], nx, k, set(order), st0)
                if f is not None and p.a[2] < 3:
                    solved[p] = f
                    for c in H: H[c] = subst(H[c], {p: f})
                    # Other closed forms never mention unsolved phis.
                    progress = True
            if progress:
                extra = [subst(e, solved) for e in extra]
                continue
            # Inductive bounds of the remaining integer phis.
            if inv_try is None and live_phi:
                inv_try = []
                for p in live_phi:
                    if phis[p].op in INT_TERMS or phis[p] in TY or p in TY:
                        for cnd in (le(phis[p], p), ge0(p), le(p, phis[p])):
                            if cnd not in inv_try and cnd not in extra: inv_try.append(cnd)
                        for nx, _ in [(self.next_of(H, b.st.mem, p), 0) for b in backs]:
                            pass
                inv_try = [c for c in inv_try if st0.facts.decide(subst(c, {p: phis[p] for p in order})) is True]
                if inv_try:
                    base_extra = list(extra)
                    while inv_try:
                        extra = base_extra + inv_try
                        outs2 = self.inloop(st0, stepf, header())
                        keep = []
                        for cnd in inv_try:
                            okk = True
                            for b in outs2:
                                if b.tag != "back": continue
                                m = {p: self.next_of(H, b.st.mem, p) for p in live_phi}
                                if any(v is None for v in m.values()): okk = False; break
                                if b.st.facts.decide(subst(cnd, m)) is not True: okk = False; break
                            if okk: keep.append(cnd)
                        if len(keep) == len(inv_try): break
                        inv_try = keep
                    extra = base_extra + inv_try
                    inv_try = []
                    continue
            break
        else:
            raise AnalysisError("loop does not stabilise: " + site)
        # Sequences assumed to keep their length.
        bad = set()
        for p in order:
            if len(p.a) > 3 and p not in solved and any(occurs(p, v) for v in H.values()):
                for b in backs:
                    n = self.next_of(H, b.st.mem, p)
                    if n is None or b.st.facts.decide(EQ(length(n), p.a[3], True)) is not True: bad.add(p.a[1])
        if bad: raise LengthChanges(bad)
        # ---- summarise
        base = header()
        newf = []
        for b in backs:
            newf.append([f for f in b.st.facts.true if f not in base.facts.true])
        N = None
        if backs:
            cs = None
            for fs in newf:
                xs = set()
                for f in fs:
                    for g in ([f] if f.op != "and" else f.a):
                        if g.op == "ge0":
                            d = poly(g.a[0])
                            c = -d.get((k,), 0)
                            if c >= 1:
                                x = add(add(g.a[0], mul(I(c), k)), ONE)
                                if c > 1: x = cdiv(x, I(c))
                                if not occurs(k, x) and not any(occurs(p, x) for p in order): xs.add(x)
                cs = xs if cs is None else cs & xs
            cs = sorted(cs, key=lambda x: x.id) if cs else []
            if cs: N = cs[0]
            for x in cs[1:]: N = imin(N, x)
        else:
            N = ZERO
        # A condition every completed iteration satisfied.
        common = None
        for fs in newf:
            s = set()
            for f in fs:
                if occurs(k, f) and not any(occurs(p, f) for p in order): s.add(f)
            common = s if common is None else common & s
        # ... or a disjunction over the alternatives
        common = [f for f in (common or ()) if not self.is_bound(f, k)]
        live_phi = [p for p in order if p not in solved and (any(occurs(p, v) for v in H.values()))]
        nexts = []
        for b, fs in zip(backs, newf):
            nexts.append(mk("alt", tuple(fs), b.st.trace,
                            tuple(self.next_of(H, b.st.mem, p) or mk("undef") for p in live_phi)))
        haveev = any(b.st.trace for b in backs)
        if self.unroll and N is not None and N.op == "int" and 1 <= N.a[0] <= 4 and (haveev or live_phi):
            res = self.unrolled(st0, stepf, N.a[0], saved)
            if res is not None: return res
        recd = None
        if backs and (haveev or live_phi):
            recd = ("loop", k, tuple(live_phi), tuple(phis[p] for p in live_phi), tuple(nexts))
        res = []
        for o in outs:
            if o.tag == "back": continue
            s = o.st
            s.loops = st0.loops
            final = False
            if N is not None and backs:
                if s.facts.prove(sub(k, N)): final = True
            last = k
            if not backs:
                m = {k: ZERO}
            elif final:
                last = N if st0.facts.prove(N) else imax(ZERO, N)
                m = {k: last}
            else: m = {}
            pre = st0.trace
            if recd: pre = pre + (mk("ev", "loop", mk("int", 0), recd[1], last, recd[2], recd[3], recd[4]),)
            if m:
                s.mem = {c: subst(v, m) for c, v in s.mem.items()}
                s.trace = pre + tuple(subst(e, m) for e in s.trace)
                f2 = Facts()
                bad = False
                for f in s.facts.true:
                    if not f2.add(subst(f, m)) : bad = True
                if bad and f2.decide(FALSE) is False and any(f2.decide(subst(f, m)) is False for f in s.facts.true):
                    continue
                s.facts = f2
                if o.val is not None and isinstance(o.val, T): o.val = subst(o.val, m)
            else:
                s.trace = pre + s.trace
            if backs and common:
                s.facts._add(forall(last, k, AND(*common)))
            # nested loops inside unfolded events already carry k
            res.append(o)
        return res

    def unrolled(self, st0, stepf, n, saved):
        """The outcomes of a loop that runs at most n (a few) times, one iteration after the other."""
        now = (dict((a, list(b)) for a, b in self.maypanic.items()), dict((a, list(b)) for a, b in self.log.items()))
        self.restore(saved)
        work, res = [st0.copy()], []
        for _ in range(n + 1):
            nxt = []
            for s in work:
                for o in stepf(s):
                    if o.tag == "back": nxt.append(o.st)
                    else: res.append(o)
            if not nxt: return res
            if len(nxt) > 12: break
            work = nxt
        self.maypanic.clear(); self.maypanic.update(now[0])
        self.log.clear(); self.log.update(now[1])
        return None

    def is_bound(self, f, k):
        if f.op != "ge0": return False
        return f.a[0] is k

    def next_of(self, H, mem, p):
        """The value the phi has after the iteration."""
        for c, hv in H.items():
            if hv is p: return mem.get(c)
            if occurs(p, hv):
                r = self.match(hv, mem.get(c, c), p)
                if r is not None: return r
        return None

    def match(self, h, b, p):
        if h is p: return b
        if b is None: return None
        if h.op == "rec":
            bs = dict(b.a[1]) if b.op == "rec" and b.a[0] is h.a[0] else {}
            for q, x in h.a[1]:
                if occurs(p, x):
                    r = self.match(x, bs.get(q), p)
                    if r is not None: return r
            return None
        if h.op == b.op and len(h.a) == len(b.a) and h.op in ("adt", "tup", "arr", "it", "clos", "app", "rec", "x"):
            for x, y in zip(h.a, b.a):
                if isinstance(x, T) and isinstance(y, T) and occurs(p, x):
                    r = self.match(x, y, p)
                    if r is not None: return r
        return None

    STRUCT = ("adt", "tup", "it", "clos", "x")

    def gen(self, c, h, b, k, phis, order, path, ty, solved, facts, nolen=()):
        if h is b: return h
        if h.op == "phi" and h in phis and h not in solved: return h
        # Parts of closed forms already solved must be preserved by the body.
        if h.op == b.op and h.op in self.STRUCT and len(h.a) == len(b.a):
            ok_ = True
            if h.op == "adt" and h.a[:3] != b.a[:3]: ok_ = False
            if h.op in ("it", "clos", "x") and h.a[0] is not b.a[0] and h.a[0] != b.a[0]: ok_ = False
            if ok_:
                a2 = []
                for i, (x, y) in enumerate(zip(h.a, b.a)):
                    if isinstance(x, T) and isinstance(y, T): a2.append(self.gen(c, x, y, k, phis, order, path + (i,), None, solved, facts, nolen))
                    else: a2.append(x)
                a2 = tuple(a2)
                return h if a2 == h.a else mk(h.op, *a2)
        hb = h.a[0] if h.op == "rec" else h
        if b.op == "rec" and b.a[0] is hb and hb.op not in ("phi",):
            hs = dict(h.a[1]) if h.op == "rec" else {}
            out = {}
            bs = dict(b.a[1])
            for q in hs:
                if q not in bs: bs[q] = fld(hb, q.a[0], q.a[1]) if q.op == "pf" else vfld(hb, q.a[0], q.a[1])
            for q, y in bs.items():
                x = hs.get(q)
                if x is None: x = fld(hb, q.a[0], q.a[1]) if q.op == "pf" else vfld(hb, q.a[0], q.a[1])
                g = self.gen(c, x, y, k, phis, order, path + (q,), None, solved, facts, nolen)
                if q in hs or g is not x: out[q] = g
            return rec(hb, out) if out else h
        for p, f in solved.items():
            # The closed form of a phi at k against that at k + 1.
            if h is f:
                e1 = subst(f, {k: add(k, ONE)})
                if e1 is b: return h
                e2 = subst(self.nextform[p], solved)
                if e2 is b or facts.same(e2, b) or facts.same(e1, b): return h
        if occurs(k, h) and any(occurs(f, h) for f in solved.values()):
            e1 = subst(h, {k: add(k, ONE)})
            if e1 is b or facts.same(e1, b): return h
        init = h
        if occurs(k, init):
            init = subst(init, {k: ZERO})
        n = length(init) if init.op in ("arr", "seq", "upd", "splice", "subseq", "scat", "ite", "app") and path not in nolen else None
        n = (n,) if n is not None and not (n.op == "len" and n.a[0] is init) and not occurs(k, n) else ()
        p = mk("phi", k, path, len([q for q in order if q.a[1] == path]), *n)
        if p not in phis:
            phis[p] = init
            order.append(p)
        if ty and ty.lstrip("&mut ") in INTS: TY[p] = ty.lstrip("&mut ")
        elif init in TY: TY[p] = TY[init]
        elif len(path) > 1 and init.op in INT_TERMS and h.op in INT_TERMS: TY[p] = "usize"
        return p

    def solve(self, p, init, nx, k, allphi, st0):
        vals = [n for n, _ in nx]
        if len(set(vals)) > 1:
            v = self.combine(nx, p)
            if v is None: return None
        else: v = vals[0]
        lp = mk("len", p)
        if anywhere(v, lambda u: u is lp) and length(v) is lp: v = subst(v, {lp: length(init)})
        if any(u.op == "splice" and u is not v for u in subterms(v)): v = nx[0][1].facts.simp(v)
        others = allphi - {p}
        v = self.untouched(v, [q for q in others if occurs(q, v)], k)
        if any(occurs(q, v) for q in others): return None
        self.nextform[p] = v
        if v is p: return init
        loc = lambda t: not anywhere(t, lambda u: u.op == "cell")
        isnum = init.op in INT_TERMS or p in TY or init in TY
        if not occurs(p, v):
            if not loc(v): return None
            return ite(eq0(k), init, subst(v, {k: sub(k, ONE)}))
        if v.op == "subseq" and v.a[0] is p and v.a[2] is lp and v.a[1].op == "min" and len(v.a[1].a) == 2 and lp in v.a[1].a:
            # The rest of a sequence after taking up to c elements at a time.
            c = next(x for x in v.a[1].a if x is not lp)
            if init.op == "ref": init = self.deref(st0, init)
            n = length(init)
            if isint(c) and c.a[0] > 0: return subseq(init, imin(mul(c, k), n), n)
        if isnum and v.op == "poly":
            # p + min(c, n - p) is min(p + c, n)
            v = spread_min(v)
        if isnum and v.op == "min" and len(v.a) == 2:
            # min(p + c, n) starting at or below n
            for x, n in (v.a, v.a[::-1]):
                c = sub(x, p)
                if isint(c) and c.a[0] > 0 and not occurs(p, n) and not occurs(k, n) and st0.facts.prove(sub(n, init)): return imin(add(init, mul(c, k)), n)
        if isnum:
            d = sub(v, p)
            if not occurs(p, d):
                if not occurs(k, d): return add(init, mul(d, k))
                return add(init, sumof(mkseq(k, k, d)))
            dd = poly(v)
            if all(m.count(p) == 1 for m in dd):
                q = unpoly({tuple(x for x in m if x is not p): c for m, c in dd.items()})
                if not occurs(p, q): return mul(init, prod(mkseq(k, k, q)))
        if v.op == "scat" and v.a[0] is p and not any(occurs(p, x) for x in v.a[1:]):
            return scat(init, flat(mkseq(k, k, scat(*v.a[1:]))))
        if v.op == "cat" and v.a[0] is p and not any(occurs(p, x) for x in v.a[1:]):
            return cat(init, sjoin(mkseq(k, k, cat(*v.a[1:]))))
        if v.op == "upd" and v.a[0] is p:
            i, e = v.a[1], v.a[2]
            off = sub(i, k)
            if isint(off) or not occurs(k, off):
                # at(p, i) is still the initial element.
                e2 = subst(e, {at(p, i): at(init, i)})
                if not occurs(p, e2):
                    x = fresh("j")
                    n = length(init)
                    body = ite(AND(le(off, x), lt(x, add(k, off))), subst(e2, {k: sub(x, off)}), at(init, x))
                    if off is ZERO: body = ite(lt(x, k), subst(e2, {k: x}), at(init, x))
                    return mkseq(n, x, body)
        blk = self.interval(p, v, (length(p), length(init)))
        if blk is not None:
            # Iteration k replaces the elements [c*k + d, min(c*k + d + c, e)).
            lo, hi, elem = blk
            f = nx[0][1].facts
            c = poly(lo).get((k,), 0)
            d = sub(lo, mul(I(c), k))
            if c > 0 and not occurs(k, d):
                end = None
                if hi.op == "poly": hi = spread_min(f.simp(hi))
                if hi is add(lo, I(c)): end = None
                elif hi.op == "min" and len(hi.a) == 2:
                    a = [x for x in hi.a if x is not add(lo, I(c))]
                    if len(a) != 1 or occurs(k, a[0]) or occurs(p, a[0]): return None
                    end = a[0]
                else: return None
                x = fresh("j")
                n = length(init)
                top = add(d, mul(I(c), k))
                if end is not None: top = imin(top, end)
                w = subst(elem(x), {k: div(sub(x, d), I(c))})
                if occurs(p, w): return None
                cs = [] if d is ZERO else [le(d, x)]
                return mkseq(n, x, ite(AND(*cs, lt(x, top)), w, at(init, x)))
        return None

    def untouched(self, v, others, k):
        """Elements of sequences that iteration k changes in place at position k + c only are, from there on, the initial ones."""
        m = {}
        for q in others:
            at_k = set()
            for n in self.nexts.get(q) or [None]:
                if n is None or n.op != "upd" or n.a[0] is not q: break
                at_k.add(n.a[1])
            else:
                if len(at_k) != 1: continue
                i = at_k.pop()
                if sub(i, k).op == "int": m[at(q, i)] = at(self.inits[q], i)
        return subst(v, m) if m else v

    def interval(self, p, v, ns):
        """v as p with the elements of one interval replaced: (from, to, element at an index)."""
        if v.op == "splice" and v.a[0] is p and not any(occurs(p, x) for x in v.a[1:3]):
            lo, hi, s = v.a[1:]
            return lo, hi, lambda x: at(s, sub(x, lo))
        if v.op == "upd" and v.a[0] is p and not occurs(p, v.a[1]):
            return v.a[1], add(v.a[1], ONE), lambda x: v.a[2]
        if v.op == "seq" and v.a[0] in ns:
            x = fresh("j")
            b = inst(v, x)
            if b.op != "ite": return None
            c, y, z = b.a
            if z is not at(p, x):
                if y is not at(p, x): return None
                c, y, z = NOT_deep(c), z, y
            lo, hi = ZERO, None
            for g in (c.a if c.op == "and" else (c,)):
                if g.op != "ge0": return None
                q = poly(g.a[0]).get((x,), 0)
                if q == 1:
                    if lo is not ZERO: return None
                    lo = neg(sub(g.a[0], x))
                elif q == -1:
                    h = add(add(g.a[0], x), ONE)
                    hi = h if hi is None else imin(hi, h)
                else: return None
            if hi is None or occurs(p, lo): return None
            return lo, hi, lambda i: subst(y, {x: i})
        return None

    def combine(self, nx, p):
        """One term for the next value, by cases over the alternatives' conditions."""
        vals = {v for v, _ in nx}
        if len(vals) == 1: return nx[0][0]
        best = None
        for f in sorted(dict.fromkeys(f for _, s in nx for f in s.facts.true), key=lambda f: occurs(p, f)):
            if best is not None and occurs(p, f): break
            g = NOT_deep(f)
            y, n, u = [], [], []
            for x in nx:
                t = x[1].facts
                if f in t.true: y.append(x)
                elif g in t.true or (f.op == "is" and t.decide(f) is False): n.append(x)
                else: u.append(x)
            if not y or not n: continue
            # Alternatives that do not decide the condition belong to both cases.
            w = (max(len(y), len(n)) + len(u), len(u))
            if best is None or w < best[0]: best = (w, f, y + u, n + u)
            if not u and max(len(y), len(n)) <= (len(nx) + 1) // 2: break
        if best is None: return None
        _, f, y, n = best
        a = self.combine(y, p)
        if a is None: return None
        b = self.combine(n, p)
        if b is None: return None
        return self.ite_tail(f, a, b)

    def ite_tail(self, c, a, b):
        if a.op == b.op == "upd" and a.a[:2] == b.a[:2]: return upd(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
        if a.op == "upd" and a.a[0] is b: return upd(b, a.a[1], ite(c, a.a[2], at(b, a.a[1])))
        if b.op == "upd" and b.a[0] is a: return upd(a, b.a[1], ite(c, at(a, b.a[1]), b.a[2]))
        for op, f in (("scat", scat), ("cat", cat)):
            if a.op == op and b.op == op and a.a[0] is b.a[0]:
                x, y = f(*a.a[1:]), f(*b.a[1:])
                if op == "scat":
                    if x.op == y.op == "arr" and len(x.a) == len(y.a):
                        return scat(a.a[0], arr(*[ite(c, u, w) for u, w in zip(x.a, y.a)]))
                    return scat(a.a[0], ite(c, x, y))
                return cat(a.a[0], ite(c, x, y))
            for u, w, sw in ((a, b, False), (b, a, True)):
                if u.op == op and u.a[0] is w:
                    x = f(*u.a[1:])
                    e = arr() if op == "scat" else S("")
                    return f(w, ite(c, e, x) if sw else ite(c, x, e))
        return ite(c, a, b)


def map_get(m, k):
    if m.op == "app" and m.a[0] == "map_insert":
        if m.a[2] is k: return some(m.a[3])
        if EQ(m.a[2], k) is FALSE: return map_get(m.a[1], k)
    if m.op == "app" and m.a[0] == "map_remove":
        if m.a[2] is k: return NONE
        if EQ(m.a[2], k) is FALSE: return map_get(m.a[1], k)
    if m.op == "app" and m.a[0] == "map" and not m.a[1].a: return NONE
    return app("map_get", m, k)


class Ctx:
    __slots__ = ("e", "f", "key", "fid", "t")

    def __init__(self, e, f, key, fid, t):
        self.e, self.f, self.key, self.fid, self.t = e, f, key, fid, t

    def argtys(self):
        return (self.t or {}).get("at") or []

    def dty(self):
        return (self.t or {}).get("dty") or ""

    def targs(self):
        return self.f.get("args") or []

    @property
    def sp(self):
        return (self.t or {}).get("sp")
