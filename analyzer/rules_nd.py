"""Region reads and writes of n-dimensional arrays (C19, C20, C28)."""
from rules_grid import *
from linear import *

ND_NAMES = ("read_chunk", "read_chunk_into", "write_chunk", "get_effective_fill_value")


def chunk_adt(F, g, data):
    a = next(x for x in F["adts"] if x["path"].endswith("::SliceDataChunk"))
    names = [f["name"] for f in a["variants"][0]["fields"]]
    vals = [g if "SmallVec" in f["ty"] else UNIT if "Phantom" in f["ty"] else data for f in a["variants"][0]["fields"]]
    return adt(a["path"], 0, "SliceDataChunk", names, *vals)


def nd_pred(d, rd, f):
    return d.split("::")[-1] in ND_NAMES and (d.startswith("zarr::") or rd.startswith(("zarr::", "<zarr::")))


def nd_handler(e, st, a, c):
    """Chunk operations, by what C05-C08, C15 and C17 decide of them: a chunk read is the stored one, at the
    position asked for, with as many elements as a chunk has; a buffer it could not be read into holds anything."""
    nm = c.f["def"].split("::")[-1]
    vals = [e.dd(st, x) for x in a]
    if nm == "get_effective_fill_value":
        return [(st, e.result(st, "c_fill", vals[0]))]
    if nm == "write_chunk":
        return [(st, e.result(st, "c_write_chunk", *vals[1:]))]
    path, meta, g = vals[1:4]
    r = e.result(st, "c_read", path, meta, g)
    out = []
    o = vfld(r, "Ok", 0)
    data = app("stored", r)
    ch = chunk_adt(e.F, g, data)
    dest = e.target(st, a[4]) if nm == "read_chunk_into" else None
    s = st.copy()
    if s.assume(IS(r, "Ok")):
        t = s.copy()
        if t.assume(IS(o, "Some")):
            t.assume(EQ(length(data), prod(chunk_shape_of(e.F, meta)), True))
            if dest: e.put(t, dest[0], dest[1], ch)
            out.append((t, ok(some(UNIT if dest else ch))))
        if s.assume(NOT_deep(IS(o, "Some"))):
            if dest: e.put(s, dest[0], dest[1], chunk_adt(e.F, app("undefined", r, I(0)), app("undefined", r, I(1))))
            out.append((s, ok(NONE)))
    if st.assume(NOT_deep(IS(r, "Ok"))):
        if dest: e.put(st, dest[0], dest[1], chunk_adt(e.F, app("undefined", r, I(0)), app("undefined", r, I(1))))
        out.append((st, err(vfld(r, "Err", 0))))
    return out


import layers
ND_LAYER = lambda: [(nd_pred, nd_handler)] + layers.COORDS_LAYER


# ---------------------------------------------------------------- elements of arrays
class Unclear(Exception): kind = ""
class WrongLayout(Unclear): kind = ":layout"


def reverse(s, n=None):
    n = n if n is not None else length(s)
    x = fresh("i")
    return mkseq(n, x, at(s, sub(sub(n, ONE), x)))


def linear(order, shape, idx): return app("linear", order, shape, idx)


def nd_at(f, v, idx):
    """The element of array v at position idx, under facts f that decide which part of an assignment holds it."""
    v = f.simp(v)
    if v.op == "ite":
        d = f.decide(v.a[0])
        if d is None: raise Unclear("undecided choice " + short(v.a[0], 80))
        return nd_at(f, v.a[1] if d else v.a[2], idx)
    k = v.a[0] if v.op == "app" else None
    if k == "nd_vec": return elem(f, v.a[3], v.a[1].a[0], v.a[2], idx)
    if k == "nd_elem": return ("const", v.a[2])
    n = length(idx)
    x = fresh("i")
    if k == "nd_slice": return nd_at(f, v.a[1], mkseq(n, x, add(at(v.a[2], x), at(idx, x))))
    if k == "nd_t": return nd_at(f, v.a[1], mkseq(n, x, at(idx, sub(sub(n, ONE), x))))
    if k == "nd_assign":
        lo, sh = v.a[2], v.a[3]
        within = lambda d: AND(le(at(lo, d), at(idx, d)), lt(at(idx, d), add(at(lo, d), at(sh, d))))
        if all_dims(f, n, within): return nd_at(f, v.a[4], mkseq(n, x, sub(at(idx, x), at(lo, x))))
        if some_dim(f, n, within): return nd_at(f, v.a[1], idx)
        raise Unclear("neither inside nor outside of the part assigned: " + short(v, 120))
    return ("of", v, idx)


def elem(f, data, order, shape, idx):
    """The element at idx of an array of the given extents whose data is a sequence in the given order."""
    k = data.a[0] if data.op == "app" else None
    n = length(idx)
    x = fresh("i")
    if k in ("nd_flat", "nd_raw"):
        X = data.a[1]
        o = "C" if k == "nd_flat" else base_order(f, X)
        if o is None: raise Unclear("memory order of " + short(X, 80))
        s = nd_shape(X)
        rev = o != order
        if not (f.same(length(s), n) and all_dims(f, n, lambda d: EQ(at(s, sub(sub(n, ONE), d) if rev else d), at(shape, d), True))):
            raise WrongLayout(f"extents {short(s, 80)} of the array laid out, for a chunk of {short(shape, 80)} in {order} order")
        return nd_at(f, X, mkseq(n, x, at(idx, sub(sub(n, ONE), x))) if rev else idx)
    if data.op in ("seq", "scat", "ite"):
        i = fresh("i")
        g = f.copy()
        if g.add(ge0(i)) and g.add(lt(i, length(data))):
            b = g.simp(at(data, i))
            if not occurs(i, b):
                if not f.same(length(data), prod(shape)): raise Unclear(f"{short(length(data))} elements for a chunk of {short(shape)}")
                return ("const", b)
    return ("elem", data, order, shape, idx)


def base_order(f, X):
    """Order in memory of an array."""
    k = X.a[0] if X.op == "app" else None
    if k == "nd_vec": return X.a[1].a[0]
    if k == "nd_assign": return base_order(f, X.a[1])
    if k == "nd_t":
        o = base_order(f, X.a[1])
        return o and {"C": "F", "F": "C"}[o]
    return None


def one_length(f, c, n):
    """Lengths known to equal n are written as n."""
    m = {u: n for u in subterms(c) if u.op == "len" and u is not n and f.same(u, n)}
    return subst(c, m) if m else c


def all_dims(f, n, cond):
    """cond holds in every dimension below n."""
    d = fresh("d")
    g = f.copy()
    if not (g.add(ge0(d)) and g.add(lt(d, n))): return True
    c = one_length(f, cond(d), n)
    return all(follows_at(g, [d], x) for x in (c.a if c.op == "and" else (c,)))


def some_dim(f, n, cond):
    """In one of the dimensions named by the facts, cond is false."""
    return any(f.prove(sub(n, add(d, ONE))) and follows_at(f, [d], NOT_deep(cond(d))) for d in DIMS)


def collect(facts):
    """Facts without looking for contradictions between quantified ones."""
    f = Facts()
    for x in facts:
        if x.op == "forall": f._add(x)
        elif x.op == "not" and x.a[0].op == "forall":
            if not f.add(x): return None
        elif not f.add(x): return None
    return f


DIMS = []


# ---------------------------------------------------------------- C19
def eq_seqs(f):
    """Equal sequences have equal elements."""
    g = f.copy()
    for x in f.true:
        if x.op == "eq" and len(x.a) == 2 and x.a[0].op in ("seq", "sym", "fld", "app", "len") and x.a[0].op != "len":
            u, v = x.a
            y = fresh()
            g.add(EQ(length(u), length(v), True))
            g._add(forall(length(u), y, EQ(at(u, y), at(v, y), True)))
    return g


class Place:
    """What is known of the array metadata, the box and the array in memory."""

    bb = None

    def __init__(s, F, meta, off, ext, arr):
        s.meta, s.off, s.ext, s.arr = meta, off, ext, arr
        s.shape, s.cs = field_of(F, "ArrayMetadata", meta, "shape"), chunk_shape_of(F, meta)
        s.n = length(s.shape)
        s.layout = field_of(F, "ArrayMetadata", meta, "chunk_memory_layout")


def small(st, s):
    """Extents of arrays in memory are at most isize::MAX."""
    x = fresh()
    st.assume(forall(length(s), x, AND(ge0(at(s, x)), le(at(s, x), I(2 ** 63 - 1)))))


def read_prep(F, keep, dest_i):
    def prep(e, st, args):
        args = list(args)
        meta, bb = args[2], args[3]
        box_args(F, e, st, [bb])
        off, ext = fields_of(F, "BoundingBox", bb, "offset", "shape")
        small(st, ext)
        P = keep["P"] = Place(F, meta, off, ext, None)
        # Chunk ends are numbers.
        x = fresh()
        st.assume(forall(P.n, x, AND(ge0(at(P.shape, x)), le(add(at(P.shape, x), at(P.cs, x)), I(2 ** 64 - 1)))))
        if dest_i is not None:
            d = app("dest")
            keep["P"].arr = d
            cell = mk("cell", 990, 0)
            st.mem[cell] = d
            args[dest_i] = ref(cell, ())
            keep["cell"] = cell
            small(st, nd_shape(d))
        return args
    return prep


def read_step(T, rep, who, key, P, f0, phi, nxt, g, k, evs):
    """One chunk: the elements of the destination inside the chunk become the stored ones, the others stay."""
    reads = [ev for ev in evs if ev.a[0] == "c_read"]
    rep.count("chunk steps")
    for ev in evs:
        if ev.a[0] == "c_read":
            rep.ob(ev.a[2] is P.path and ev.a[3] is P.meta and f0.same(ev.a[4], g), key + ":which", f"{who}: reads the chunk at {short(ev.a[4])} of {short(ev.a[2], 40)}, not the one at {short(g)}", f"{key}: reads chunk {short(g, 60)}")
        elif ev.a[0] not in ("next", "drop"):
            rep.ob(False, key + ":effect:" + ev.a[0], f"{who}: {short(ev, 100)} while reading")
    idx = app("position")
    n = P.n
    f = f0.copy()
    x = fresh()
    if not f.add(EQ(length(idx), n, True)): return
    f._add(forall(n, x, AND(ge0(at(idx, x)), lt(at(idx, x), at(P.ext, x)))))
    start = lambda d: mul(at(g, d), at(P.cs, d))
    pos = lambda d: add(at(P.off, d), at(idx, d))
    ins = lambda d: AND(le(start(d), pos(d)), lt(pos(d), add(start(d), at(P.cs, d))))
    found = None
    for ev in reads:
        r = ev.a[1]
        okd, somed = f.decide(IS(r, "Ok")), f.decide(IS(vfld(r, "Ok", 0), "Some"))
        if not rep.ob(okd is True, key + ":failure", f"{who}: goes on although a chunk may not have been read", f"{key}: failures are returned"): return
        if somed is True: found = r
        elif somed is not False and somed is None: found = found
    if not reads:
        # A chunk may be left out only when nothing of it is asked for.
        h = f.copy()
        rep.ob(False, key + ":skipped", f"{who}: a chunk of the region is not read")
    for case in ("inside", "outside"):
        h = f.copy()
        d = fresh("d")
        if case == "inside":
            y = fresh()
            okk = h._add(forall(n, y, AND(ins(y), lt(pos(y), at(P.shape, y))))) is None
        else:
            okk = h.add(ge0(d)) and h.add(lt(d, n))
            if okk:
                h._add(NOT_deep(ins(d)))
        if okk: h = contradictions(h)
        if not okk or h is None: continue
        DIMS[:] = [d] if case == "outside" else []
        try: v = nd_at(h, nxt, idx)
        except Unclear as u:
            rep.ob(False, f"{key}:{case}{u.kind}", f"{who}: positions {case} the chunk: {u}")
            continue
        rep.count("positions")
        if case == "inside" and found is not None:
            rep.ob(is_stored(T, rep, who, key, P, h, v, found, lambda d: sub(pos(d), start(d))), f"{key}:inside",
                   lambda: f"{who}: a position of the chunk gets {show_at(v)}, not the element of the chunk for it", f"{key}: element of the chunk")
        else:
            rep.ob(v[0] == "of" and v[1] is phi and same_index(h, v[2], idx), f"{key}:{case}" + ("" if found else ":missing"),
                   lambda: f"{who}: a position {'outside of the chunk' if found else 'of a missing chunk'} is set to {show_at(v)}", f"{key}: other positions stay")


def show_at(v): return " / ".join(short(x, 80) if isinstance(x, T_) else str(x) for x in v)


def contradictions(f):
    """None if the facts contradict each other, in general or in some dimension they name."""
    f = eq_seqs(collect(list(f.true) + SHAPES))
    if follows_at(f, [], FALSE): return None
    named = {u.a[1] for x in f.true if relevant(x) for u in subterms(x)
             if u.op == "at" and u.a[1].op == "k" and not (u.a[0].op == "app" and u.a[0].a[0] == "grid_coords")}
    for d in sorted(named, key=lambda d: d.id):
        if follows_at(f, [d], FALSE): return None
    for x in list(f.true):
        if x.op == "not" and x.a[0].op == "eq":
            u, v = x.a[0].a
            if u.op != "len" and f.same(length(u), length(v)) and all_dims(f, length(u), lambda d: EQ(at(u, d), at(v, d), True)): return None
        if x.op == "not" and x.a[0].op == "forall":
            n, h, c = x.a[0].a
            if all_dims(f, n, lambda d: subst(c, {bv(h): d})): return None
    return f


SHAPES = []


def shapes_of(run):
    """Arrays keep their extents through the loops: by induction, equations between the extents at an iteration and before the loop."""
    out, seen = [], set()
    for o in run.outs:
        for ev in rules_store_loops(o.st.trace):
            if ev in seen: continue
            seen.add(ev)
            for i, p in enumerate(ev.a[4]):
                s = nd_shape(p)
                if all(nd_shape(al.a[2][i]) is s for al in ev.a[6]):
                    x = mk("eq", s, nd_shape(ev.a[5][i]))
                    if x not in out: out.append(x)
    return out


rules_store_loops = loop_events


def same_index(f, a, b):
    if not f.same(length(a), length(b)): return False
    return all_dims(f, length(b), lambda d: AND(le(at(a, d), at(b, d)), le(at(b, d), at(a, d))))


def order_of(f, P):
    if f.decide(IS(P.layout, "RowMajor")) is True: return "C"
    if f.decide(IS(P.layout, "ColumnMajor")) is True: return "F"
    return None


def is_stored(T, rep, who, key, P, f, v, r, want):
    """v is the element at want of the stored chunk r, which is laid out as the metadata says."""
    if v[0] != "elem": return False
    _, data, order, shape, idx = v
    if not (data.op == "app" and data.a[0] == "stored" and data.a[1] in (r if isinstance(r, list) else [r])): return False
    rep.count("layouts")
    o = order_of(f, P)
    rep.count(f"elements of chunks in {o} order")
    rep.ob(o is not None, f"{key}:order", f"{who}: chunk data is laid out in {order} order whatever the metadata says", "the order of the metadata is considered")
    if o is not None and order != o:
        # Reversed extents in the other order are the same layout.
        order, shape, idx = o, reverse(shape, P.n), reverse(idx, P.n)
    if not rep.ob(f.same(length(shape), P.n) and all_dims(f, P.n, lambda d: EQ(at(shape, d), at(P.cs, d), True)), f"{key}:layout",
                  lambda: f"{who}: chunk data is laid out as {v[2]}-ordered with extents {short(v[3], 80)} when the metadata says {short(P.cs)} in {o} order", f"{key}: {o} order"): return True
    return f.same(length(idx), P.n) and all_dims(f, P.n, lambda d: AND(le(at(idx, d), want(d)), le(want(d), at(idx, d))))


def rule_C19(T, rep):
    region_reads(T, rep)
    rep.floor("positions", 9)
    fill_value(T, rep)
    chunk_positions(T, rep)


def region_reads(T, rep):
    F = T.F
    for r in T.roots:
        if r["name"] not in ("read_ndarray_into_with_buffer", "read_ndarray_into", "read_ndarray"): continue
        keep = {}
        run = Run(F, r, ND_LAYER(), prep=read_prep(F, keep, 4 if r["name"] != "read_ndarray" else None), opts=("precise", "wf"))
        rep.saw(run)
        SHAPES[:] = shapes_of(run)
        P = keep["P"]
        P.path, P.bb = run.args[1], run.args[3]
        key = {"read_ndarray_into_with_buffer": "read", "read_ndarray_into": "into", "read_ndarray": "new"}[r["name"]]
        region_read(T, rep, run, P, r["path"], key, keep.get("cell"))
        no_panics(rep, run, key)


def fill_value(T, rep):
    """The fill value is the one of the metadata, as an element, or else the default of the element type."""
    from rules_chunk import elem_trees
    for el, T2 in elem_trees(T):
        name = el.split("::")[-1]
        for r in T2.roots:
            if r["name"] != "get_effective_fill_value": continue
            run = Run(T2.F, r, [], opts=("precise", "wf"))
            rep.saw(run)
            who = f"{r['path']} <{name}>"
            given = field_of(T2.F, "ArrayMetadata", run.args[0], "fill_value", "Value")
            v = vfld(given, "Some", 0)
            read = app("from_value", S("f64" if name == "f16" else el), v)
            for o in run.outs:
                f = o.st.facts
                rep.ob(o.tag == "ret", f"fill:{name}:panic", f"{who}: may panic: {panic_of(o)}" if o.tag != "ret" else "")
                if o.tag != "ret": continue
                some = f.decide(IS(given, "Some"))
                good = f.decide(IS(o.val, "Ok"))
                if good is None or some is None:
                    rep.ob(False, f"fill:{name}:result", f"{who}: result {short(o.val, 100)} whether or not there is a fill value")
                    continue
                rep.count("fill values")
                if not good:
                    rep.ob(some is True and f.decide(IS(read, "Ok")) is False, f"fill:{name}:refused", f"{who}: fails although the fill value can be read as an element", f"fill:{name}: failure has a cause")
                    continue
                x = f.simp(vfld(o.val, "Ok", 0))
                y = vfld(read, "Ok", 0)
                if some: fine = x is y if name != "f16" else x.op == "app" and str(x.a[0]).endswith("f16::from_f64") and x.a[1] is y
                else: fine = x in (I(0), FALSE) or x.op == "app" and x.a[0] == "default" or x.op == "float" and float(x.a[0]) == 0 or x.op == "app" and str(x.a[0]).endswith("f16::ZERO")
                rep.ob(fine, f"fill:{name}:{'given' if some else 'default'}", f"{who}: the fill value is {short(x, 100)}, not " + ("what the metadata gives" if some else "the default"), f"fill:{name}: {short(x, 60)}")
    rep.floor("fill values", 20)


def chunk_positions(T, rep):
    """A chunk that was read says that it is at the position asked for."""
    from rules_chunk import chunk_roots, reading, op, Report, key_args
    rd, _ = chunk_roots(T)
    runs = [T.run(r, "codec", opts=("precise",)) for r in rd]
    for n in ("read_chunk", "read_chunk_into"):
        runs += [T.run(r, "store", opts=("precise",)) for r in op(T, Report(""), n, False)]
    for run in runs:
        rep.saw(run)
        _, _, pos, _ = key_args(run)
        b = T.F["bodies"][run.root["key"]]
        for o, f in run.oks():
            if not reading(run, o): continue
            ch = [o.st.mem.get(a, a) for i, a in enumerate(run.args) if "SliceDataChunk" in b["locals"][i + 1]["ty"]]
            v = vfld(o.val, "Ok", 0)
            ch = ch[0] if ch else vfld(v, "Some", 0) if v.op == "adt" and v.a[2] == "Some" else v
            g = f.simp(fields_of(T.F, "SliceDataChunk", ch, "grid_position")[0])
            rep.count("chunk positions")
            rep.ob(pos is not None and f.same(g, pos), f"position:{run.name}", f"{run.name}: the chunk read says it is at {short(g, 60)}, not at {short(pos, 60)}", f"{run.name}: position {short(g, 60)}")
    rep.floor("chunk positions", 4)


def no_panics(rep, run, key):
    for k, l in run.e.maypanic.items():
        # The number of elements of a chunk is a number in memory.
        for c, st, sp, _ in l:
            if a_product(k[0], c): continue
            f = contradictions(st.facts)
            if f is None: continue
            rep.ob(proves(f, c), f"{key}:{k[0]}", f"{run.name} ({sp}): {k[0]}: not shown to hold: {short(c, 200)}", f"{key}: {short(c, 80)}")


def proves(f, c):
    if c.op == "and": return all(proves(f, x) for x in c.a)
    if c.op == "forall":
        n, h, b = c.a
        return all_dims(f, n, lambda d: subst(b, {bv(h): d}))
    return follows_at(f, sorted({u.a[1] for u in subterms(c) if u.op == "at" and u.a[1].op in ("fresh", "k")}, key=lambda t: t.id), c)


def position_of(f, P, k):
    """The grid position that iteration k treats, and the number of iterations, from the positions used."""
    for x in f.true:
        for u in subterms(x):
            if u.op == "at" and u.a[1] is k and u.a[0].op == "app" and u.a[0].a[0] == "grid_coords": return u


def region_read(T, rep, run, P, who, key, cell):
    """cell: where the caller's array is; none if the array is made and returned."""
    dest = P.arr
    for o in run.outs:
        f = contradictions(o.st.facts)
        if f is None: continue
        if o.tag != "ret":
            rep.ob(False, key + ":panic", f"{who}: may panic: {panic_of(o)}")
            continue
        dims = EQ(length(P.off), P.n, True)
        dims = AND(dims, EQ(length(P.ext), P.n, True) if dest is None else EQ(length(nd_shape(dest)), P.n, True))
        same = lambda d: EQ(at(nd_shape(dest), d), at(P.ext, d), True)
        good = f.copy()
        if not good.add(IS(o.val, "Ok")):
            x = fresh()
            bad = f.copy()
            bad = bad if bad.add(dims) and (dest is None or bad.add(forall(P.n, x, same(x)))) else None
            bad = bad and contradictions(bad)
            rep.ob(bad is None or causes(f, o), key + ":refused", f"{who}: fails with {short(o.val, 80)} although no chunk failed and the sizes agree", f"{key}: failure has a cause")
            continue
        rep.count("successes")
        rep.ob(f.decide(dims) is True, key + ":dims", f"{who}: succeeds when the box or the array has another number of dimensions", f"{key}: dimensions agree")
        if dest is not None: rep.ob(f.decide(dims) is not True or all_dims(f, P.n, same), key + ":shape", f"{who}: succeeds when the array has another shape than the box", f"{key}: shapes agree")
        rep.ob(f.decide(IS(o.val, "Ok")) is True and not causes(f, o), key + ":failure", f"{who}: succeeds although something failed", f"{key}: failures are returned")
        loops = [ev for ev in o.st.trace if ev.a[0] == "loop"]
        for ev in o.st.trace:
            rep.ob(ev.a[0] in ("loop", "next", "drop", "c_fill"), key + ":outside:" + ev.a[0], f"{who}: {short(ev, 100)} outside of the loop over the chunks")
        end = f.simp(run.e.get(o.st, cell, ()) if cell is not None else vfld(o.val, "Ok", 0))
        if not rep.ob(len(loops) == 1, key + ":loops", f"{who}: {len(loops)} loops over chunks"): continue
        ev = loops[0]
        k, last, phis, inits, alts = ev.a[2:7]
        which = [i for i, p in enumerate(phis) if p is end or subst(p, {k: last}) is end]
        if not rep.ob(len(which) == 1, key + ":result", f"{who}: the array is {short(end)} at the end"): continue
        i = which[0]
        if dest is not None: rep.ob(inits[i] is dest, key + ":init", f"{who}: the array is {short(inits[i])} before the first chunk", f"{key}: starts from the given array")
        else:
            s = nd_shape(inits[i])
            c = fresh("p")
            v = nd_at(f, inits[i], c)
            fills = [x for x in o.st.trace if x.a[0] == "c_fill"]
            rep.ob(f.same(length(s), P.n) and all_dims(f, P.n, lambda d: EQ(at(s, d), at(P.ext, d), True)), key + ":shape", f"{who}: the result has extents {short(s)}, not those of the box", f"{key}: extents of the box")
            rep.ob(v[0] == "const" and any(v[1] is vfld(x.a[1], "Ok", 0) for x in fills), key + ":init", f"{who}: the elements are {show_at(v)} before the first chunk, not the fill value", f"{key}: starts from the fill value")
        seen = False
        for g, p, al in steps(T, rep, run, P, who, key, o, f, ev):
            seen = True
            read_step(T, rep, who, key, P, g, phis[i], al.a[2][i], p, k, al.a[1])
        rep.ob(seen, key + ":steps", f"{who}: no iteration is possible")


# ---------------------------------------------------------------- C20
def write_prep(F, keep):
    def prep(e, st, args):
        args = list(args)
        meta, off, arr = args[2:5]
        P = keep["P"] = Place(F, meta, off, nd_shape(arr), arr)
        P.path = args[1]
        small(st, P.ext)
        x = fresh()
        st.assume(forall(P.n, x, AND(ge0(at(P.shape, x)), le(add(at(P.shape, x), at(P.cs, x)), I(2 ** 64 - 1)))))
        st.assume(forall(length(off), x, AND(ge0(at(off, x)), le(add(at(off, x), at(P.ext, x)), I(2 ** 64 - 1)))))
        return args
    return prep


def rule_C20(T, rep):
    region_writes(T, rep)
    fill_value(T, rep)
    rep.floor("positions", 3)


def region_writes(T, rep):
    F = T.F
    for r in T.roots:
        if r["name"] != "write_ndarray": continue
        keep = {}
        run = Run(F, r, ND_LAYER(), prep=write_prep(F, keep), opts=("precise", "wf"))
        rep.saw(run)
        SHAPES[:] = shapes_of(run)
        region_write(T, rep, run, keep["P"], r["path"], "write")
        no_panics(rep, run, "write")


def causes(f, o):
    return any(ev.a[0] in ("c_read", "c_fill", "c_write_chunk") and f.decide(IS(ev.a[1], "Ok")) is False for ev in o.st.trace)


def steps(T, rep, run, P, who, key, o, f, ev):
    """The iterations of the loop over the chunks of the box: facts, position, and the alternative."""
    k, last, phis, inits, alts = ev.a[2:7]
    base = [x for x in o.st.facts.true if not occurs(k, x)]
    for al in alts:
        g = collect(base + list(al.a[0]) + [ge0(k)])
        g = contradictions(g) if g is not None else None
        if g is None: continue
        p = position_of(g, P, k)
        if not rep.ob(p is not None, key + ":position", f"{who}: an iteration does not treat one position of the grid"): continue
        s = p.a[0]
        rep.ob(f.same(last, length(s)), key + ":all", f"{who}: the loop over the chunks may end before the last one", f"{key}: loop covers {short(s, 60)}")
        okk = s.a[1] is P.meta and len(s.a) > 2 and (s.a[2] is P.bb or all(u is v or all_dims(f, P.n, lambda d, u=u, v=v: EQ(at(u, d), at(v, d), True)) and f.same(length(u), P.n) for u, v in
               zip(fields_of(T.F, "BoundingBox", s.a[2], "offset", "shape"), (P.off, P.ext))))
        rep.ob(okk, key + ":box", f"{who}: iterates {short(s)}, not the chunks of the box", f"{key}: {short(s, 80)}")
        yield g, p, al


def region_write(T, rep, run, P, who, key):
    for o in run.outs:
        f = contradictions(o.st.facts)
        if f is None: continue
        if o.tag != "ret":
            rep.ob(False, key + ":panic", f"{who}: may panic: {panic_of(o)}")
            continue
        dims = AND(EQ(length(P.off), P.n, True), EQ(length(P.ext), P.n, True))
        good = f.copy()
        if not good.add(IS(o.val, "Ok")):
            bad = f.copy()
            bad = contradictions(bad) if bad.add(dims) else None
            rep.ob(bad is None or causes(f, o), key + ":refused", f"{who}: fails with {short(o.val, 80)} although no chunk failed and the dimensions agree", f"{key}: failure has a cause")
            if not [ev for ev in o.st.trace if ev.a[0] == "loop"]:
                for ev in o.st.trace: rep.ob(ev.a[0] in ("c_fill", "drop"), key + ":outside:" + ev.a[0], f"{who}: {short(ev, 100)} before failing")
            continue
        rep.count("successes")
        rep.ob(f.decide(dims) is True, key + ":dims", f"{who}: succeeds when the offset or the array has another number of dimensions", f"{key}: dimensions agree")
        loops = [ev for ev in o.st.trace if ev.a[0] == "loop"]
        for ev in o.st.trace:
            rep.ob(ev.a[0] in ("loop", "next", "drop", "c_fill"), key + ":outside:" + ev.a[0], f"{who}: {short(ev, 100)} outside of the loop over the chunks")
        rep.ob(f.decide(IS(o.val, "Ok")) is True and not causes(f, o), key + ":failure", f"{who}: succeeds although something failed", f"{key}: failures are returned")
        if not rep.ob(len(loops) == 1, key + ":loops", f"{who}: {len(loops)} loops over chunks"): continue
        seen = False
        for g, p, al in steps(T, rep, run, P, who, key, o, f, loops[0]):
            seen = True
            write_step(T, rep, who, key, P, g, p, al.a[1], [ev for ev in o.st.trace if ev.a[0] == "c_fill"])
        rep.ob(seen, key + ":steps", f"{who}: no iteration is possible")


def write_step(T, rep, who, key, P, f, g, evs, fills):
    rep.count("chunk steps")
    reads, writes = [ev for ev in evs if ev.a[0] == "c_read"], [ev for ev in evs if ev.a[0] == "c_write_chunk"]
    fills = fills + [ev for ev in evs if ev.a[0] == "c_fill"]
    for ev in evs:
        if ev.a[0] == "c_read":
            rep.ob(ev.a[2] is P.path and ev.a[3] is P.meta and f.same(ev.a[4], g), key + ":which", f"{who}: reads the chunk at {short(ev.a[4])} of {short(ev.a[2], 40)}, not the one at {short(g)}", f"{key}: reads chunk {short(g, 60)}")
        elif ev.a[0] not in ("next", "drop", "c_fill", "c_write_chunk"):
            rep.ob(False, key + ":effect:" + ev.a[0], f"{who}: {short(ev, 100)} while writing")
        if ev.a[0] in ("c_read", "c_write_chunk", "c_fill"):
            if not rep.ob(f.decide(IS(ev.a[1], "Ok")) is True, key + ":failure", f"{who}: goes on although {ev.a[0][2:]} may have failed", f"{key}: failures are returned"): return
    if not rep.ob(len(writes) == 1, key + ":once", f"{who}: a chunk of the region is written {len(writes)} times", f"{key}: each chunk is written once"): return
    w = writes[0]
    ch = w.a[4]
    pos_, data = fields_of(T.F, "SliceDataChunk", ch, "grid_position", "data")
    rep.ob(w.a[2] is P.path and w.a[3] is P.meta and f.same(pos_, g), key + ":which", f"{who}: writes the chunk at {short(pos_)} of {short(w.a[2], 40)}, not the one at {short(g)}", f"{key}: writes chunk {short(g, 60)}")
    order = order_of(f, P)
    if not rep.ob(order is not None, key + ":order", f"{who}: data is laid out in the same way whatever the layout of the array"): return
    c = app("position")
    n = P.n
    f0 = f.copy()
    x = fresh()
    if not f0.add(EQ(length(c), n, True)): return
    pos = lambda d: add(mul(at(g, d), at(P.cs, d)), at(c, d))
    f0._add(forall(n, x, AND(ge0(at(c, x)), lt(at(c, x), at(P.cs, x)), lt(pos(x), at(P.shape, x)))))
    ins = lambda d: AND(le(at(P.off, d), pos(d)), lt(pos(d), add(at(P.off, d), at(P.ext, d))))
    for case in ("inside", "outside"):
        h = f0.copy()
        d = fresh("d")
        if case == "inside":
            y = fresh()
            okk = h._add(forall(n, y, ins(y))) is None
        else:
            okk = h.add(ge0(d)) and h.add(lt(d, n))
            if okk: h._add(NOT_deep(ins(d)))
        if okk: h = contradictions(h)
        if not okk or h is None: continue
        DIMS[:] = [d] if case == "outside" else []
        # The position is in the chunk.
        if follows_at(h, [d] if case == "outside" else [], FALSE) or case == "outside" and covered(h, d, n): continue
        try: v = elem(h, data, order, P.cs, c)
        except Unclear as u:
            rep.ob(False, f"{key}:{case}{u.kind}", f"{who}: chunk positions {case} the region: {u}")
            continue
        rep.count("positions")
        if case == "inside":
            rep.count(f"elements written in {order} order")
            rep.ob(v[0] == "of" and v[1] is P.arr and is_index(h, P, v[2], lambda d: sub(pos(d), at(P.off, d))), f"{key}:inside",
                   lambda: f"{who}: a position of the region gets {show_at(v)}, not the element of the array for it", f"{key}: element of the array")
            continue
        found = [r.a[1] for r in reads if h.decide(IS(vfld(r.a[1], "Ok", 0), "Some")) is True]
        none = [r.a[1] for r in reads if h.decide(IS(vfld(r.a[1], "Ok", 0), "Some")) is False]
        if found:
            rep.ob(is_stored(T, rep, who, key, P, h, v, found, lambda d: at(c, d)), f"{key}:outside", lambda: f"{who}: a position of the chunk outside of the region gets {show_at(v)}, not what the chunk held", f"{key}: other positions stay")
        elif none:
            rep.ob(v[0] == "const" and any(v[1] is vfld(fl.a[1], "Ok", 0) for fl in fills), f"{key}:outside:missing",
                   lambda: f"{who}: a position outside of the region of a chunk that was missing gets {show_at(v)}, not the fill value", f"{key}: fill value")
        else:
            rep.ob(False, f"{key}:outside:unread", f"{who}: a chunk that is not all in the region is written without reading it")


def covered(f, d, n): return follows_at(f, [d], FALSE)


def is_index(f, P, idx, want):
    return f.same(length(idx), P.n) and all_dims(f, P.n, lambda d: AND(le(at(idx, d), want(d)), le(want(d), at(idx, d))))



# ---------------------------------------------------------------- C28
class Layouts:
    """The part of the obligations that is about the layout of chunk data."""

    def __init__(self, rep): self.rep = rep
    def count(self, *a): self.rep.count(*a)
    def saw(self, run): self.rep.saw(run)
    def floor(self, *a): pass

    def ob(self, okk, key, msg, sample=None):
        if key.endswith((":order", ":layout")): return self.rep.ob(okk, key, msg, sample)
        return okk


def rule_C28(T, rep):
    L = Layouts(rep)
    region_reads(T, L)
    region_writes(T, L)
    for o in "CF":
        rep.floor(f"elements of chunks in {o} order", 2)
        rep.floor(f"elements written in {o} order", 2)
