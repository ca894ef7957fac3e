"""Grid arithmetic: extents, bounds, boxes, and iteration over chunk positions (C16, C18)."""
from rules_store import *
from rules_chunk import cases_of
from linear import follows_at
import models


def iterate_body(F, r):
    """A body that drives the iterator an operation returns: `loop { observe(it.size_hint()); match it.next() { Some(x) => produce(x), None => break } }`."""
    b = F["bodies"][r["key"]]
    n = b["argc"]
    ity = b["locals"][0]["ty"]
    nxt = hint = None
    for x in F["roots"]:
        if x.get("impl_trait") == "core::iter::traits::iterator::Iterator" and (x.get("impl_self") or "").split("<")[0] == ity.split("<")[0]:
            if x["name"] == "next": nxt = x
            if x["name"] == "size_hint": hint = x
    IT = "core::iter::traits::iterator::Iterator::"

    def call(nm, f, a, at, d, dty, t): return dict(k="call", f=f, a=a, at=at, d=[d], dty=dty, t=t, sp="")

    def fn(nm, x): return dict({"def": IT + nm, "name": nm, "kind": "item", "trait": IT[:-2], "crate": "core"},
                               **({"rdef": x["path"], "body": x["key"]} if x else {}))
    def mark(nm): return {"def": "zarr_check::" + nm, "name": nm, "kind": "item", "crate": "zarr_check"}
    it, h, r1, r2, o, d, u = n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, n + 7
    opt = "core::option::Option<alloc::vec::Vec<u64>>"
    locs = [{"ty": "()"}] + b["locals"][1:n + 1] + [{"ty": ity}, {"ty": "(usize, core::option::Option<usize>)"}, {"ty": "&" + ity}, {"ty": "&mut " + ity}, {"ty": opt}, {"ty": "isize"}, {"ty": "()"}]
    mv = lambda x: {"k": "move", "p": [x]}
    blocks = [
        dict(s=[], t=call("", {"def": r["path"], "rdef": r["path"], "name": r["name"], "kind": "item", "crate": "zarr", "body": r["key"]},
                          [mv(i) for i in range(1, n + 1)], [l["ty"] for l in b["locals"][1:n + 1]], it, ity, 1)),
        dict(s=[dict(p=[r1], r=dict(k="ref", p=[it], mut=False), sp="")], t=call("", fn("size_hint", hint), [mv(r1)], ["&" + ity], h, "(usize, core::option::Option<usize>)", 2)),
        dict(s=[], t=call("", mark("observe"), [mv(h)], ["?"], u, "()", 3)),
        dict(s=[dict(p=[r2], r=dict(k="ref", p=[it], mut=True), sp="")], t=call("", fn("next", nxt), [mv(r2)], ["&mut " + ity], o, opt, 4)),
        dict(s=[dict(p=[d], r=dict(k="discr", p=[o], variants=[[0, 0, "None"], [1, 1, "Some"]], ty=opt), sp="")],
             t=dict(k="switch", o=mv(d), ty="isize", ts=[[0, 6], [1, 5]], **{"else": 6}, sp="")),
        dict(s=[], t=call("", mark("produce"), [mv(o)], [opt], u, "()", 1)),
        dict(s=[], t=dict(k="return", sp="")),
    ]
    key = "zarr_check::iterate::" + r["key"]
    F["bodies"][key] = dict(path=key, local=True, span="", argc=n, spread=None, locals=locs, blocks=blocks)
    return dict(key=key, path=r["path"], name=r["name"])


def mark_pred(d, rd, f): return d.startswith("zarr_check::")


def mark_handler(e, st, a, c):
    e.event(st, c.f["def"].split("::")[-1], UNIT, *[e.dd(st, x) for x in a])
    return [(st, UNIT)]


def fields_of(F, adt, v, *names): return [field_of(F, adt, v, n) for n in names]


def one_of(T, rep, suffix):
    l = [r for r in T.roots if r["path"].endswith(suffix)]
    if not l: rep.violation("missing:" + suffix, "function not found: " + suffix)
    return l


def no_overflow(rep, run, key, f_extra=(), ignore=lambda k, c: False):
    """Every checked operation is shown not to overflow, and no panic is reachable, under the assumptions."""
    for k, l in run.e.maypanic.items():
        for c, st, sp, _ in l:
            if ignore(k, c): continue
            f = st.facts.copy()
            okk = all(f.add(x) for x in f_extra)
            rep.ob(not okk or f.decide(c) is True or any_case(f, c), f"{key}:{k[0]}", f"{run.name} ({sp}): {k[0]}: not shown to hold: {short(c, 200)}", f"{key}: {short(c, 80)}")
    for o in run.panics():
        f = o.st.facts.copy()
        okk = all(f.add(x) for x in f_extra)
        rep.ob(not okk, f"{key}:panic", f"{run.name}: may panic: {panic_of(o)}", f"{key}: no panic")


def any_case(f, c):
    """c, by cases over the choices in it."""
    t = anywhere(c, lambda u: u.op == "ite")
    if t is None: return f.decide(f.simp(c)) is True
    for d in (t.a[0], NOT_deep(t.a[0])):
        g = f.copy()
        if g.add(d) and g.decide(g.simp(c)) is not True: return False
    return True


def rule_C16(T, rep):
    F = T.F
    for r in one_of(T, rep, "ArrayMetadata::get_grid_extent"):
        run = T.run(r, "none", opts=("precise", "wf"))
        rep.saw(run)
        meta = run.args[0]
        shape, cs = field_of(F, "ArrayMetadata", meta, "shape"), chunk_shape_of(F, meta)
        for o in run.rets():
            rep.count("extents")
            f = o.st.facts
            x = fresh()
            want = mkseq(length(shape), x, cdiv(at(shape, x), at(cs, x)))
            rep.ob(f.same(o.val, want), "extent", f"{r['path']}: returns {short(o.val)}, not ceil(array size / chunk size) in each dimension", o.val)
        no_overflow(rep, run, "extent")
    for r in one_of(T, rep, "ArrayMetadata::get_num_chunks"):
        run = T.run(r, "none", opts=("precise", "wf"))
        rep.saw(run)
        meta = run.args[0]
        shape, cs = field_of(F, "ArrayMetadata", meta, "shape"), chunk_shape_of(F, meta)
        for o in run.rets():
            rep.count("extents")
            x = fresh()
            want = mkseq(length(shape), x, cdiv(at(shape, x), at(cs, x)))
            v = o.val
            rep.ob(v.op == "prod" and o.st.facts.same(v.a[0], want), "number", f"{r['path']}: returns {short(v)}, not the product of the extents", v)
        # The product itself may exceed the integer range.
        no_overflow(rep, run, "number", ignore=lambda k, c: anywhere(c, lambda u: u.op == "prod") is not None)
    for r in one_of(T, rep, "ArrayMetadata::in_bounds"):
        run = T.run(r, "none", opts=("precise", "wf"))
        rep.saw(run)
        meta, pos = run.args
        cond = in_bounds_cond(F, meta, pos)
        for o in run.rets():
            for v in (True, False):
                f = o.st.facts.copy()
                if not f.add(o.val if v else NOT_deep(o.val)): continue
                rep.count("answers")
                if v:
                    for what, c in cond:
                        rep.ob(holds(f, c), "in:" + what, f"{r['path']}: answers true although it is not shown that {what}", f"true implies {what}")
                else:
                    g = f.copy()
                    rep.ob(any(refutes(g, c) or not g.add(c) for _, c in cond), "out", f"{r['path']}: answers false although the position may be in bounds", "false implies out of bounds")
        no_overflow(rep, run, "in_bounds")
    rep.floor("extents", 2)
    rep.floor("answers", 2)


# ---------------------------------------------------------------- C18
def feasible(f, extra=()):
    """The facts again, with the choices in them resolved, or None if they contradict each other."""
    g = f.copy()
    for x in extra:
        if not g.add(x): return None
    h = g.copy()
    for x in g.true:
        if x.op == "forall": continue
        if not h.add(h.simp(x)): return None
        if x.op in ("ge0", "eq0") or x.op == "not" and x.a[0].op == "eq0":
            y = h.simp(x)
            if y is not x and not h.add(y): return None
    return h


def implied(f, c, depth=10):
    """c, by cases over the choices that occur in it."""
    c = f.simp(c)
    r = f.decide(c)
    if r is not None: return r
    t = anywhere(c, lambda u: u.op == "ite")
    d = None
    if t is not None: d = t.a[0]
    else:
        t = anywhere(c, lambda u: u.op in ("min", "max") and len(u.a) > 1 and u.mb == 0)
        if t is not None: d = le(t.a[0], t.a[1])
    if d is None or depth == 0 or f.decide(d) is not None: return False
    for x in (d, NOT_deep(d)):
        g = f.copy()
        if g.add(x) and not implied(g, c, depth - 1): return False
    return True


def box_args(F, e, st, args, ndim=None):
    """Facts of boxes given to the operation: as many offsets as extents, and ends that are numbers."""
    bx = []
    for a in args:
        if (TYPES_OF(a) or "").endswith("ndarray::BoundingBox"):
            o, z = fields_of(F, "BoundingBox", a, "offset", "shape")
            st.assume(EQ(length(o), length(z), True))
            x = fresh()
            st.assume(forall(length(o), x, AND(ge0(at(o, x)), ge0(at(z, x)), le(add(at(o, x), at(z, x)), I(2 ** 64 - 1)))))
            if ndim is not None: st.assume(EQ(length(o), ndim, True))
            bx.append((o, z))
    return bx


def TYPES_OF(a): return TY.get(a) or (a.a[1] if a.op == "sym" and len(a.a) > 1 and isinstance(a.a[1], str) else None)


def iterates(T, rep, r):
    """The positions produced are exactly those whose chunk meets the box, each once, and the length is exact."""
    F = T.F
    r2 = iterate_body(F, r)
    for zero in (False, True):
        keep = {}

        def prep(e, st, args):
            shape = field_of(F, "ArrayMetadata", args[0], "shape")
            st.assume(EQ(length(shape), ZERO, True) if zero else lt(ZERO, length(shape)))
            keep["box"] = box_args(F, e, st, args, length(shape))
        run = Run(F, r2, [(mark_pred, mark_handler)], prep=prep, opts=("precise", "wf", "nounroll"))
        rep.saw(run)
        meta = run.args[0]
        shape, cs = field_of(F, "ArrayMetadata", meta, "shape"), chunk_shape_of(F, meta)
        who = r["path"] + (" (array without dimensions)" if zero else "")
        key = r["name"] + (":0" if zero else "")
        inds = []
        for o in run.outs:
            f = feasible(o.st.facts)
            if f is None: continue
            rep.ob(o.tag == "ret", key + ":panic", lambda: f"{who}: iteration may panic: {panic_of(o)}", f"{key}: no panic")
            if o.tag != "ret": continue
            rep.count("iterations")
            tr = o.st.trace
            prod_ = [ev for ev in tr if ev.a[0] == "produce"]
            obs = [ev for ev in tr if ev.a[0] == "observe"]
            loops = [ev for ev in tr if ev.a[0] == "loop"]
            k = loops[0].a[2] if loops else ZERO
            n = None
            if loops:
                lk = loops[0].a[2]
                base = [x for x in o.st.facts.true if not occurs(lk, x)]
                for al in loops[0].a[-1]:
                    g = Facts()
                    okk = all(g.add(x) for x in base) and all(g.add(x) for x in al.a[0]) and g.add(ge0(lk))
                    g = feasible(g) if okk else None
                    if g is None: continue
                    inds.append((lk, base, al.a[0]))
                    n2 = step(T, rep, who, key, al.a[1], lk, g, meta, keep["box"], zero)
                    if n2 is None: continue
                    rep.ob(n is None or g.same(n, n2), key + ":length", f"{who}: iterations disagree on the number of positions", f"{key}: one length")
                    n = n2
                kx = loops[0].a[3]
                if n is not None:
                    rep.ob(ends_at(f, n, kx), key + ":end", f"{who}: iteration may stop although not all of {short(n)} positions were produced", f"{key}: ends after {short(n, 60)}")
            else:
                rep.ob(not prod_, key + ":loop", f"{who}: unexpected iteration", "-")
            if n is None and not prod_: rep.ob(zero is False and False, key + ":none", f"{who}: produces no position", "-")
            rep.ob(len(obs) == 1 and hint_is(f, obs[-1], ZERO), key + ":last", f"{who}: after the last position the reported length is not 0", f"{key}: reported length ends at 0")
        for k_, l in run.e.maypanic.items():
            for c, st, sp, _ in l:
                # The number of positions, and ends of boxes, may exceed the integer range.
                if a_product(k_[0], c): continue
                f = feasible(st.facts)
                if f is None or implied(f, c): rep.ob(True, "", "", f"{key}: {short(c, 80)}"); continue
                okk = any(induct(c, *i) for i in inds)
                rep.ob(okk, f"{key}:{k_[0]}", f"{who} ({sp}): {k_[0]}: not shown to hold: {short(c)}", f"{key}: by induction {short(c, 80)}")


def induct(c, k, base, step_):
    """c holds at iteration 0, and at the next iteration if it held in this one."""
    f = Facts()
    for x in base: f.add(x)
    if not implied(f, subst(c, {k: ZERO})): return False
    g = f.copy()
    for x in step_: g.add(x)
    g.add(ge0(k))
    return implied(g, subst(c, {k: add(k, ONE)}))


def hint_is(f, ev, n):
    v = ev.a[2]
    if v.op != "tup" or len(v.a) != 2: return False
    if not f.same(v.a[0], n): return False
    u = f.simp(v.a[1])
    return u.op == "adt" and u.a[2] == "Some" and f.same(u.a[-1], n)


def step(T, rep, who, key, evs, k, f, meta, box, zero):
    """One iteration: the length reported before it, and the position produced. Returns the number of positions."""
    if not rep.ob([ev.a[0] for ev in evs] == ["observe", "produce"], key + ":step", f"{who}: an iteration does {[short(ev, 60) for ev in evs]}", f"{key}: one position per step"): return None
    rep.count("steps")
    h = evs[0].a[2]
    n = f.simp(add(h.a[0], k)) if h.op == "tup" else None
    if not rep.ob(n is not None and not occurs(k, n) and hint_is(f, evs[0], h.a[0]), key + ":hint", f"{who}: the reported length {short(h)} is not the same number of positions less the {short(k)} already produced", f"{key}: hint {short(h, 80)}"): return None
    v = evs[1].a[2]
    p = v.a[-1] if v.op == "adt" and v.a[2] == "Some" else None
    if zero:
        rep.ob(p is not None and f.same(length(p), ZERO) and f.same(n, ONE), key + ":unit", f"{who}: produces {short(v)}, {short(n)} times, not the one empty position", f"{key}: one empty position")
        return n
    okk = p is not None and p.op == "at" and p.a[1] is k and p.a[0].op == "app" and p.a[0].a[0] == "cartesian"
    if not rep.ob(okk, key + ":position", f"{who}: position {short(k)} is {short(v)}, not an element of the product of the ranges of each dimension", f"{key}: {short(v, 80)}"): return n
    c = p.a[0]
    rep.ob(same_by_cases(f, n, length(c)), key + ":total", f"{who}: {short(n)} positions are produced out of {short(f.simp(length(c)))}", f"{key}: as many as the product has")
    s = c.a[1]
    shape, cs = field_of(T.F, "ArrayMetadata", meta, "shape"), chunk_shape_of(T.F, meta)
    rep.ob(f.same(length(s), length(shape)), key + ":dims", f"{who}: positions have {short(length(s))} coordinates", f"{key}: one coordinate per dimension")
    d, q = fresh("d"), fresh("p")
    settype(q, "u64")
    g = f.copy()
    for x in (ge0(d), lt(d, length(shape)), ge0(q)): g.add(x)
    rg = g.simp(at(s, d))
    if not rep.ob(rg.op == "adt" and rg.a[0].endswith("::Range"), key + ":range", f"{who}: coordinates do not run over a range: {short(rg)}", "-"): return n
    lo, hi = rg.a[-2], rg.a[-1]
    C, D = at(cs, d), at(shape, d)
    g.add(le(ONE, C)); g.add(ge0(D))
    spec = [("the chunk starts inside the array", lt(mul(q, C), D))]
    for o, z in box:
        O, Z = at(o, d), at(z, d)
        g.add(ge0(O)); g.add(ge0(Z)); g.add(le(add(O, Z), I(2 ** 64 - 1)))
        spec += [("the box is not empty", lt(ZERO, Z)), ("the box starts inside the array", lt(O, D)),
                 ("the chunk starts before the end of the box", lt(mul(q, C), add(O, Z))),
                 ("the chunk ends after the start of the box", lt(O, mul(add(q, ONE), C)))]
    h = g.copy()
    if h.add(le(lo, q)) and h.add(lt(q, hi)):
        for what, a in spec:
            rep.count("conditions")
            rep.ob(follows(h, a, (d,)), f"{key}:only:{what}", f"{who}: visits coordinates from {short(lo)} to {short(hi)}: not shown that {what}", f"visited implies {what}")
    h = g.copy()
    if all(h.add(a) for _, a in spec):
        for what, a in (("from", le(lo, q)), ("to", lt(q, hi))):
            rep.count("conditions")
            rep.ob(follows(h, a, (d,)), f"{key}:all:{what}", f"{who}: visits coordinates from {short(lo)} to {short(hi)}: not shown that every chunk that meets the box is visited", f"meets the box implies visited ({what})")
    return n


def follows(f, a, dims=(), depth=8):
    """a from the facts, by cases over the choices in the facts and in a."""
    if implied(f, a): return True
    if depth == 0: return False
    if depth == 8 and follows_at(f, dims, a): return True
    fr = [u for u in subterms(a) if u.op == "fresh"]
    for x in [a] + [x for x in f.true if any(occurs(u, x) for u in fr)]:
        t = anywhere(x, lambda u: u.op == "ite" and u.mb == 0 and f.decide(u.a[0]) is None)
        d = t.a[0] if t is not None else None
        if d is None:
            t = anywhere(x, lambda u: u.op in ("min", "max") and len(u.a) > 1 and u.mb == 0 and f.decide(le(u.a[0], u.a[1])) is None)
            if t is None: continue
            d = le(t.a[0], t.a[1])
        for y in (d, NOT_deep(d)):
            g = f.copy()
            if not g.add(y): continue
            g = feasible(g)
            if g is not None and not follows(g, a, dims, depth - 1): return False
        return True
    for _ in range(2):
        f = feasible(f)
        if f is None: return True
    return implied(f, a)


def same_by_cases(f, a, b): return f.same(f.simp(a), f.simp(b))


def elementwise(rep, f, who, key, what, got, want, n, premise=None):
    """got is a sequence of n elements, each as wanted."""
    rep.count("coordinates")
    rep.ob(f.same(length(got), n), f"{key}:{what}:count", f"{who}: {what} has {short(length(got))} coordinates", f"{key}: {what} has one coordinate per dimension")
    d = fresh("d")
    g = f.copy()
    g.add(ge0(d)); g.add(lt(d, n)); g.add(lt(d, length(got)))
    if premise is not None and not g.add(premise(d)): return
    v = g.simp(at(got, d))
    w = want(d)
    rep.ob(follows(g, AND(le(v, w), le(w, v))), f"{key}:{what}", f"{who}: coordinate {short(d)} of {what} is {short(v)}, not {short(w)}", f"{key}: {what} = {short(w, 80)}")


def ends_at(f, n, k):
    if f.prove(sub(n, k)) and f.prove(sub(k, n)): return True
    n, k = f.simp(n), f.simp(k)
    return f.prove(sub(n, k)) and f.prove(sub(k, n))


class Ctx0:
    fid = 1

    def argtys(self): return []


def elements(run, o):
    """The elements of the iterator that an outcome returns."""
    return models.pure_elem(run.e, o.st.copy(), o.val, Ctx0()) if o.val.op == "it" else None


def rule_C18(T, rep):
    F = T.F
    for nm in ("::coord_iter", "::bounded_coord_iter"):
        for r in one_of(T, rep, "ArrayMetadata>" + nm): iterates(T, rep, r)
    BB = "BoundingBox::"
    def run_of(suffix, extra=None):
        out = []
        for r in one_of(T, rep, suffix):
            keep = {}

            def prep(e, st, args):
                keep["box"] = box_args(F, e, st, args)
                b = keep["box"]
                for o, z in b[1:]: st.assume(EQ(length(o), length(b[0][0]), True))
                if extra: extra(st, args, b)
            run = Run(F, r, "none", prep=prep, opts=("precise", "wf"))
            rep.saw(run)
            out.append((r, run, keep["box"]))
        return out

    def rets(r, run, key):
        no_overflow(rep, run, key)
        n = 0
        for o in run.rets():
            f = feasible(o.st.facts)
            if f is None: continue
            n += 1
            rep.count("operations")
            yield o, f
        if not n: rep.violation(key + ":none", f"{r['path']}: never returns")

    for r, run, bx in run_of(BB + "intersect"):
        (o1, z1), (o2, z2) = bx
        for o, f in rets(r, run, "intersect"):
            res = o.st.mem.get(run.args[0], run.args[0])
            no, nz = fields_of(F, "BoundingBox", res, "offset", "shape")
            lo = lambda d: imax(at(o1, d), at(o2, d))
            sz = lambda d: imax(ZERO, sub(imin(add(at(o1, d), at(z1, d)), add(at(o2, d), at(z2, d))), lo(d)))
            elementwise(rep, f, r["path"], "intersect", "shape", nz, sz, length(o1))
            elementwise(rep, f, r["path"], "intersect", "offset", no, lo, length(o1), lambda d: lt(ZERO, sz(d)))
    for r, run, bx in run_of(BB + "union"):
        (o1, z1), (o2, z2) = bx
        for o, f in rets(r, run, "union"):
            res = o.st.mem.get(run.args[0], run.args[0])
            no, nz = fields_of(F, "BoundingBox", res, "offset", "shape")
            lo = lambda d: imin(at(o1, d), at(o2, d))
            elementwise(rep, f, r["path"], "union", "shape", nz, lambda d: sub(imax(add(at(o1, d), at(z1, d)), add(at(o2, d), at(z2, d))), lo(d)), length(o1))
            elementwise(rep, f, r["path"], "union", "offset", no, lo, length(o1))
    for r, run, bx in run_of(BB + "end"):
        (o1, z1), = bx
        for o, f in rets(r, run, "end"):
            s = elements(run, o)
            if rep.ob(s is not None, "end:seq", f"{r['path']}: the end points are not understood: {short(o.val)}", "-"):
                elementwise(rep, f, r["path"], "end", "end point", s, lambda d: add(at(o1, d), at(z1, d)), length(o1))

    def inside(st, args, b):
        x = fresh()
        st.assume(EQ(length(args[1]), length(b[0][0]), True))
        st.assume(forall(length(args[1]), x, AND(ge0(at(args[1], x)), le(at(args[1], x), at(b[0][0], x)))))
    for r, run, bx in [x for q in T.roots if q["name"] == "sub" and (q.get("impl_self") or "").endswith("BoundingBox") for x in run_of(q["path"], inside)]:
        (o1, z1), = bx
        for o, f in rets(r, run, "sub"):
            no, nz = fields_of(F, "BoundingBox", o.val, "offset", "shape")
            elementwise(rep, f, r["path"], "sub", "shape", nz, lambda d: at(z1, d), length(o1))
            elementwise(rep, f, r["path"], "sub", "offset", no, lambda d: sub(at(o1, d), at(run.args[1], d)), length(o1))
    for r, run, _ in run_of("ArrayMetadata>::get_bounds"):
        shape = field_of(F, "ArrayMetadata", run.args[0], "shape")
        for o, f in rets(r, run, "bounds"):
            no, nz = fields_of(F, "BoundingBox", o.val, "offset", "shape")
            elementwise(rep, f, r["path"], "bounds", "shape", nz, lambda d: at(shape, d), length(shape))
            elementwise(rep, f, r["path"], "bounds", "offset", no, lambda d: ZERO, length(shape))

    def grid(st, args, b):
        meta, pos = args[0], args[1]
        shape, cs = field_of(F, "ArrayMetadata", meta, "shape"), chunk_shape_of(F, meta)
        x = fresh()
        st.assume(EQ(length(pos), length(shape), True))
        st.assume(forall(length(pos), x, AND(ge0(at(pos, x)), lt(mul(at(pos, x), at(cs, x)), at(shape, x)))))
    for r, run, _ in run_of("ArrayMetadata>::get_chunk_bounds", grid):
        cs, pos = chunk_shape_of(F, run.args[0]), run.args[1]
        for o, f in rets(r, run, "chunk_bounds"):
            no, nz = fields_of(F, "BoundingBox", o.val, "offset", "shape")
            elementwise(rep, f, r["path"], "chunk_bounds", "shape", nz, lambda d: at(cs, d), length(cs))
            elementwise(rep, f, r["path"], "chunk_bounds", "offset", no, lambda d: mul(at(pos, d), at(cs, d)), length(cs))
    rep.floor("conditions", 10)
    rep.floor("coordinates", 11)
    rep.floor("iterations", 4)
