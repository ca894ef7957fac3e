"""Rules about the bytes of chunks (C06, C07, C08): element types, byte order, completeness."""
from common import *
from rules_store import (op, key_args, wrong_types, edt_parts, ELEM, chunk_shape_of, data_of, presence_contract, okd, TODO)
from rules_fs import fin

SIZE = {"Bool": {None: 1}, "Int": dict(B1=1, B2=2, B4=4, B8=8), "UInt": dict(B1=1, B2=2, B4=4, B8=8), "Float": dict(B2=2, B4=4, B8=8)}
RUST = {"f16": "half::binary16::f16"}
READ_EV = ("read_exact", "read_into", "read_one", "read", "read_to_end", "read_to_string", "read_vectored", "io_copy")
WRITE_EV = ("write_all", "write", "write_vectored", "write_fmt", "io_copy")
ORD = {"LittleEndian": "Little", "BigEndian": "Big", "NativeEndian": "Little", "none": None}


class NoLayout(Exception):
    pass


def elem_trees(T):
    for el in elem_types():
        if el.startswith("["): continue
        yield RUST.get(el, el), (T if el == "i32" else Tree(facts(None, el)))


def esize(elem):
    k, s = ELEM[elem]
    return SIZE[k][s]


def chunk_roots(T):
    """The functions that decode (read, read into) or encode (write) a chunk from a stream, and the store operations that use them."""
    rd = [r for r in T.roots if (r.get("trait_default") or "").endswith("::DefaultChunkReader")]
    wr = [r for r in T.roots if (r.get("trait_default") or "").endswith("::DefaultChunkWriter")]
    return rd, wr


def feasible(trace, f):
    """The events of a trace with the facts of their iteration, without the alternatives that f excludes."""
    for ev in trace:
        if ev.a[0] != "loop":
            yield ev, f
            continue
        for al in ev.a[-1]:
            g = f.copy()
            if all(g.add(x) for x in al.a[0]): yield from feasible(al.a[1], g)


def is_stream(t, kind): return t.op == "app" and t.a[0] == kind


# ---------------------------------------------------------------- positions in a stream
def ev_len(e):
    """Bytes moved by a stream event."""
    n = e.a[0]
    if n == "read_exact": return e.a[3]
    if n == "read_into": return mul(I(tsize(e.a[4].a[0])), e.a[3])
    if n == "read_one": return I(tsize(e.a[3].a[0]))
    if n == "write_all": return length(norm_bytes(e.a[3]))
    raise NoLayout(f"{n} may transfer less than what it is given")


tsize = elem_size


def layout(trace, sel, f, base):
    """The stream events of a trace with the stream position at which each starts.
    Returns ([(event, position, facts)], end position)."""
    out = []
    pos = base
    for ev in trace:
        if ev.a[0] == "loop":
            k, K, alts = ev.a[2], ev.a[3], ev.a[-1]
            if not any(sel(e) for al in alts for e, _ in events(al.a[1])): continue
            subs = []
            for al in alts:
                g = f.copy()
                g._add(ge0(k)); g._add(lt(k, K))
                if not all(g.add(x) for x in al.a[0]): continue
                l, n = layout(al.a[1], sel, g, ZERO)
                subs.append((l, g.simp(n), g))
            if not subs: continue
            n = subs[0][1]
            if any(not (n is m or g.same(n, m)) for _, m, g in subs): raise NoLayout("iterations transfer different amounts: " + "; ".join(short(m, 200) for _, m, g in subs))
            P, end = progress(k, K, n, f)
            for l, _, g in subs:
                for e, p, h in l: out.append((e, add(add(pos, P), p), h))
            pos = add(pos, end)
        elif sel(ev):
            out.append((ev, pos, f))
            pos = add(pos, ev_len(ev))
    return out, pos


def progress(k, K, n, f):
    """(start of iteration k, total) of a loop of K iterations that each move n bytes."""
    if not occurs(k, n): return mul(n, k), mul(n, K)
    neg_ = {m: c for m, c in poly(n).items() if c < 0 and k in m}
    P = unpoly({m: -c for m, c in neg_.items()})
    if not neg_:
        # min(block, what is left)
        for u in subterms(n):
            c = next((x for x in u.a if isint(x)), None) if u.op == "min" else None
            b = subst(n, {u: c}) if c is not None else n
            if not occurs(k, b):
                P = mul(b, k)
                break
    if subst(P, {k: ZERO}) is not ZERO: raise NoLayout("start of the transfer")
    g = f.copy()
    g._add(ge0(k)); g._add(lt(add(k, ONE), K))
    if not g.same(add(P, n), subst(P, {k: add(k, ONE)})):
        raise NoLayout("an iteration that is not the last one does not move a whole block")
    g = f.copy()
    last = None
    if g.add(lt(ZERO, K)):
        last = g.simp(subst(add(P, n), {k: sub(K, ONE)}))
        h = f.copy()
        if h.add(eq0(K)) and not (h.same(last, ZERO) or zero_by(h, K, last)): raise NoLayout(f"total of an empty transfer is {short(last)} after {short(K)} iterations")
    return P, last if last is not None else ZERO


def zero_by(h, K, t):
    """K = 0 makes t zero, as K is a quotient rounded up."""
    if K.op != "cdiv": return False
    h._add(le(K.a[0], ZERO))
    return h.same(t, ZERO) or (h.prove(t) and h.prove(neg(t)))


def locate(R, leaves):
    """The event whose result is R: (event, position)."""
    for e, p, g in leaves:
        r = e.a[1]
        if r is R: return e, p, g
        if r.op == R.op == "res" and r.a[:2] == R.a[:2] and len(r.a[2]) == len(R.a[2]):
            m = {x: y for x, y in zip(r.a[2], R.a[2]) if x is not y}
            return subst(e, m), subst(p, m), g
    return None


# ---------------------------------------------------------------- elements and bytes
def norm_bytes(t):
    """A byte sequence without the wrapper that gives it a size it has anyway."""
    if t.op == "subseq" and t.a[1] is ZERO and t.a[0].op == "app" and t.a[0].a[0] in ("encoded", "encoded1") and t.a[2] is length(t.a[0]): return t.a[0]
    return t


def byte_src(t, i):
    """(read result, offset) of byte i of a byte sequence."""
    if t.op == "subseq": return byte_src(t.a[0], add(t.a[1], i))
    if t.op == "app" and t.a[0] == "stream_bytes": return t.a[1], i
    if t.op == "arr" and t.a:
        x = byte_of(t.a[0])
        # The bytes of an array in their order.
        if x and all((y := byte_of(b)) and y[0] is x[0] and y[1] is add(x[1], I(j)) for j, b in enumerate(t.a)): return x[0], add(x[1], i)
    return None


def byte_of(t):
    if t.op == "at": return byte_src(t.a[0], t.a[1])
    return None


def decode(t):
    """(type, byte order, read result, byte offset) of an element read from a stream."""
    if t.op == "at":
        s, i = t.a
        while s.op == "subseq": s, i = s.a[0], add(s.a[1], i)
        if s.op == "app" and s.a[0] == "stream_elems":
            R = s.a[1]
            return R.a[5].a[0], R.a[6].a[0], R, mul(I(tsize(R.a[5].a[0])), i)
        if s.op == "app" and s.a[0] == "decoded":
            ty = s.a[1].a[0]
            b = byte_src(s.a[3], mul(I(tsize(ty)), i))
            return b and (ty, s.a[2].a[0]) + b
        b = byte_src(s, i)
        return b and ("u8", "none") + b
    if t.op == "app" and t.a[0] == "decoded1":
        b = byte_src(t.a[3], ZERO)
        return b and (t.a[1].a[0].split("::")[-1], t.a[2].a[0]) + b
    if t.op == "vfld" and t.a[0].op == "res" and t.a[0].a[0] == "read_one":
        R = t.a[0]
        return R.a[4].a[0], R.a[5].a[0], R, ZERO
    if t.op == "app" and t.a[0] == "bits" and t.a[2].a[0] == "from_bits":
        # A floating point number from the integer with its bits.
        d = decode(t.a[3])
        return d and d[0] == f"u{t.a[1].a[0]}" and (f"f{t.a[1].a[0]}",) + d[1:] or None
    if t.op == "app" and t.a[0] == "cast":
        d = decode(t.a[-1])
        return d and (("i8" if d[0] == "u8" else d[0]),) + d[1:]
    # Truth of a byte.
    if t.op == "not" and t.a[0].op == "eq0":
        d = decode(t.a[0].a[0])
        return d and d[0] == "u8" and ("bool",) + d[1:] or None
    if t.op == "ge0":
        d = decode(add(t.a[0], ONE))
        return d and d[0] == "u8" and ("bool",) + d[1:] or None
    return None


def encoded_elem(t, i, f, bits=1):
    """(type, byte order, element) whose encoding has byte size * i as its first byte in the byte sequence t."""
    t = norm_bytes(t)
    if t.op == "app" and t.a[0] in ("encoded", "encoded1"):
        ty, x = t.a[1].a[0].split("::")[-1], at(t.a[3], i) if t.a[0] == "encoded" else t.a[3]
        if x.op == "app" and x.a[0] == "bits" and x.a[2].a[0] == "to_bits" and ty == f"u{x.a[1].a[0]}": return "f" + ty[1:], t.a[2].a[0], x.a[3]
        return ty, t.a[2].a[0], x
    if t.op == "ite": return None
    x = f.at(t, i)
    if x.op == "at" and x.a[0].op == "app" and x.a[0].a[0] in ("encoded", "encoded1"): return encoded_elem(x.a[0], x.a[1], f)
    return "u8", "none", x


def mentions(t, x): return occurs(x, t)


def matching(F, meta, elem):
    """The representations of the data type that matches elem: (name, conditions, effective type, endian term or None)."""
    kind, size = ELEM[elem]
    d = next(x for x in F["adts"] if x["path"].endswith("data_type::DataType"))
    v = next(x for x in d["variants"] if x["name"] == kind)
    dt, cases = edt_parts(F, meta)
    for name, conds, eff in cases:
        cs = list(conds) + [IS(eff, kind)]
        en = None
        for j, fl in enumerate(v["fields"]):
            t = vfld(eff, kind, j, fl["name"])
            if fl["ty"].endswith("Size"): cs.append(IS(t, size))
            elif fl["ty"].endswith("Endian"): en = t
        yield name, cs, eff, en


def endians(F, meta, elem):
    for name, cs, eff, en in matching(F, meta, elem):
        for e in ("Big", "Little") if en is not None else (None,):
            yield f"{name} {e or ''}".strip(), cs + ([IS(en, e)] if e else []), e


def chunk_of(run, o, f):
    """The chunk that a successful read leaves behind (None: no chunk)."""
    b = run.e.F["bodies"][run.root["key"]]
    F = run.e.F
    for i, a in enumerate(run.args):
        if "SliceDataChunk" in b["locals"][i + 1]["ty"]:
            return data_of(F, o.st.mem.get(a, a))
    v = vfld(o.val, "Ok", 0)
    if v.op == "adt" and v.a[2] in ("Some", "None"): v = vfld(v, "Some", 0) if v.a[2] == "Some" else None
    return None if v is None else data_of(F, v)


def reading(run, o): return any(e.a[0] in READ_EV and is_stream(e.a[2], "decoder") for e, _ in events(o.st.trace, None))


def sel_read(e): return e.a[0] in READ_EV and is_stream(e.a[2], "decoder")
def sel_write(e): return e.a[0] in WRITE_EV and is_stream(e.a[2], "encoder")


def ops(T, elem):
    """(run, metadata argument, reads?) of everything that moves chunk data, for an element type."""
    rd, wr = chunk_roots(T)
    for r in rd: yield T.run(r, "codec", opts=("precise",)), True
    for r in wr: yield T.run(r, "codec", opts=("precise",)), False
    for n in ("read_chunk", "read_chunk_into", "write_chunk"):
        for r in op(T, Report(""), n, False): yield T.run(r, "store", opts=("precise",)), n != "write_chunk"


def setup(T, rep, what):
    for elem, Te in elem_trees(T):
        rep.count("element types")
        n = 0
        for run, reads in ops(Te, elem):
            rep.saw(run)
            path, meta, pos, chunk = key_args(run)
            if meta is None:
                rep.violation("args:" + run.name, f"{run.name}: array metadata argument not found")
                continue
            n += 1
            yield elem, Te, run, meta, reads, f"{run.name} <{elem.split('::')[-1]}>"
        if n < 5: rep.violation(f"floor:{elem}", f"only {n} operations move chunk data of {elem}")
    rep.floor("element types", 12)


# ---------------------------------------------------------------- C06
def rule_C06(T, rep):
    for elem, Te, run, meta, reads, nm in setup(T, rep, "C06"):
        F = Te.F
        for ev, f, pre, sp in fin(run):
            if (sel_read if reads else sel_write)(ev) or ev.a[0] == "st_set":
                rep.count("stream accesses")
                w = wrong_types(F, f, meta, elem)
                rep.ob(not w, f"{nm}:type", f"{nm} ({sp}): chunk data is {'read' if reads else 'written'} for an array of type {', '.join(w[:4])}", "stream access implies matching type")
        oks = []
        for o, f in run.oks():
            if reads and not reading(run, o): continue
            oks.append((o, f))
            w = wrong_types(F, f, meta, elem)
            rep.ob(not w, f"{nm}:ok", f"{nm} succeeds for an array of type {', '.join(w[:4])}", "success implies matching type")
        dt, _ = edt_parts(F, meta)
        okfacts = []
        for case, cs, e in endians(F, meta, elem):
            good = []
            for o, f in oks:
                g = f.copy()
                if all(g.add(c) for c in cs): good.append(o)
            rep.ob(bool(good), f"{nm}:accept:{case}", f"{nm} never succeeds for the matching data type ({case})", "matching type accepted")
            free = [frozenset(x for x in f.true if not occurs(dt, x)) for o, f in oks if o in good]
            for o, f in run.errs():
                g = f.copy()
                if not all(g.add(c) for c in cs): continue
                mine = frozenset(x for x in f.true if not occurs(dt, x))
                rep.ob(not any(mine <= x for x in free), f"{nm}:reject:{case}", f"{nm} fails for the matching data type ({case}) for no other reason: {short(o.val)}", "no failure on account of a matching type")
    # Raw element types have no chunks of their own, but stand for a data type as well.
    for el in elem_types():
        if not el.startswith("["): continue
        Te = Tree(facts(None, el))
        n = int(el.split(";")[1].rstrip("]"))
        for r in chunk_roots(Te)[0]:
            run = Te.run(r, "codec", opts=("precise",))
            path, meta, pos, chunk = key_args(run)
            rep.count("raw element types")
            for o, f in run.oks():
                dt, cases = edt_parts(Te.F, meta)
                good = False
                for name, conds, eff in cases:
                    g = f.copy()
                    if all(g.add(c) for c in conds):
                        good = g.decide(IS(eff, "Raw")) is True and g.decide(EQ(vfld(eff, "Raw", 0), I(8 * n), True)) is True
                        if not good: break
                rep.ob(good, f"raw:{el}", f"{r['path']} <{el}> succeeds for an array of another type than raw with {8 * n} bits", "raw type")


# ---------------------------------------------------------------- C07 and C08
def elements(rep, F, run, meta, o, f, elem, nm):
    """Check a successful read: every element is decoded from its own bytes. Yields (facts, decoded element, index facts)."""
    d = chunk_of(run, o, f)
    d = f.simp(d)
    shp = prod(chunk_shape_of(F, meta))
    n = length(d)
    rep.ob(f.same(n, shp), f"{nm}:length", lambda: f"{nm}: the number of elements read ({short(n)}) is not that of a chunk of the array", "length")
    i = fresh("elem")
    g = f.copy()
    g.add(ge0(i)); g.add(lt(i, n)); g.add(lt(i, shp))
    return d, i, g


def rule_C07(T, rep):
    for elem, Te, run, meta, reads, nm in setup(T, rep, "C07"):
        F = Te.F
        want = elem.split("::")[-1]
        sz = esize(elem)
        for case, cs, e in endians(F, meta, elem):
            seen = 0
            for o, f0 in run.oks():
                f = f0.copy()
                if not all(f.add(c) for c in cs): continue
                if reads:
                    if not reading(run, o): continue
                    seen += 1
                    d, i, g = elements(rep, F, run, meta, o, f, elem, nm)
                    x = g.simp(elem_at(g, d, i))
                    r = decode(x)
                    if not rep.ob(r is not None, f"{nm}:decode", lambda: f"{nm} ({case}): cannot tell how element i is decoded: {short(x, 300)}"): continue
                    ty, order = r[0], r[1]
                    rep.ob(ty == want or (want == "i8" and ty == "u8"), f"{nm}:kind:{case}", f"{nm} ({case}): elements of {want} are decoded as {ty}", "decoded type")
                    rep.ob(sz == 1 or ORD.get(order) == e, f"{nm}:order:{case}", f"{nm}: elements declared {case} are decoded in byte order {order}", f"{want} decoded {e}")
                else:
                    n = 0
                    for ev, g in feasible(o.st.trace, f):
                        if not sel_write(ev): continue
                        n += 1
                        if ev.a[0] != "write_all":
                            rep.ob(False, f"{nm}:{ev.a[0]}", f"{nm}: chunk bytes are written with {ev.a[0]}")
                            continue
                        p = g.simp(ev.a[3])
                        i = fresh("elem")
                        h = g.copy()
                        h.add(ge0(i)); h.add(lt(mul(I(sz), i), length(norm_bytes(p))))
                        r = encoded_elem(p, i, h)
                        if not rep.ob(r is not None, f"{nm}:encode", lambda: f"{nm} ({case}): cannot tell how elements are encoded: {short(p, 300)}"): continue
                        ty, order, x = r
                        x = h.simp(x)
                        rep.ob(same_kind(ty, want, x), f"{nm}:kind:{case}", lambda: f"{nm} ({case}): elements of {want} are encoded as {ty}: {short(x)}", "encoded type")
                        rep.ob(sz == 1 or ORD.get(order) == e, f"{nm}:order:{case}", f"{nm}: elements declared {case} are encoded in byte order {order}", f"{want} encoded {e}")
                    seen += n > 0
            rep.ob(seen > 0, f"{nm}:seen:{case}", f"{nm}: no {'decoding' if reads else 'encoding'} found for data type {case}", "decoded or encoded")
            rep.count("byte order cases")


def elem_at(f, s, i):
    return f.at(s, i)


def same_kind(ty, want, x):
    if ty == want: return True
    if ty == "u8" and want == "i8": return True
    if ty == "u8" and want == "bool": return bool_elem(x) is not None
    return False


def bool_elem(x):
    """The truth value stored as 0 or 1."""
    if x.op == "ite" and x.a[1] is ONE and x.a[2] is ZERO: return x.a[0]
    if x.op == "ite" and x.a[1] is ZERO and x.a[2] is ONE: return NOT_deep(x.a[0])
    if x.op == "app" and x.a[0] == "cast": return bool_elem(x.a[-1]) or x.a[-1]
    return None


def rule_C08(T, rep):
    presence_contract(T, rep, ("get",))
    for elem, Te, run, meta, reads, nm in setup(T, rep, "C08"):
        F = Te.F
        sz = esize(elem)
        n = 0
        for o, f in run.oks():
            if reads:
                if not reading(run, o): continue
                n += 1
                rep.count("complete reads")
                try: leaves, end = layout(o.st.trace, sel_read, f, ZERO)
                except NoLayout as x:
                    rep.ob(False, f"{nm}:layout", f"{nm}: the elements read are not shown to be those of the stored stream, in order: {x}")
                    continue
                for e, p, g in leaves:
                    rep.ob(g.decide(IS(e.a[1], "Ok")) is True, f"{nm}:{e.a[0]}:error", f"{nm}: succeeds although {e.a[0]} on the stored stream may fail", "stream result is Ok on success")
                d, i, g = elements(rep, F, run, meta, o, f, elem, nm)
                x = g.simp(elem_at(g, d, i))
                for h, y in cases_of(g, x):
                    r = decode(y)
                    if not rep.ob(r is not None, f"{nm}:fill", lambda: f"{nm}: element i of a chunk may hold {short(y, 200)} instead of stored data", "element is decoded"): continue
                    l = locate(r[2], leaves)
                    if not rep.ob(l is not None, f"{nm}:source", lambda: f"{nm}: element i comes from {short(r[2])}, which is not a read of the stored stream"): continue
                    e, p, _ = l
                    # The read happened: its position lies below the end.
                    rep.ob(h.same(add(p, r[3]), mul(I(sz), i)), f"{nm}:position", lambda: f"{nm}: element i is taken from byte {short(add(p, r[3]))} of the stream", "element position")
                    try: inside = h.decide(le(add(r[3], I(sz)), ev_len(e))) is True
                    except NoLayout: inside = False
                    rep.ob(inside, f"{nm}:within", lambda: f"{nm}: element i lies outside of what {e.a[0]} filled", "element within what was read")
            else:
                n += 1
                rep.count("complete writes")
                path, _, pos, chunk = key_args(run)
                data = data_of(F, chunk)
                try: leaves, end = layout(o.st.trace, sel_write, f, ZERO)
                except NoLayout as x:
                    rep.ob(False, f"{nm}:layout", f"{nm}: the bytes written are not shown to be those of all elements, in order: {x}")
                    continue
                rep.ob(f.same(end, mul(I(sz), length(data))), f"{nm}:total", lambda: f"{nm}: {short(end)} bytes are written for {short(length(data))} elements of {sz} bytes", "all bytes written")
                for e, p, g in leaves:
                    rep.ob(g.decide(IS(e.a[1], "Ok")) is True, f"{nm}:{e.a[0]}:error", f"{nm}: succeeds although {e.a[0]} may fail", "write result is Ok on success")
                    if e.a[0] != "write_all":
                        rep.ob(False, f"{nm}:{e.a[0]}", f"{nm}: {e.a[0]} may write only a part")
                        continue
                    b = g.simp(e.a[3])
                    i = fresh("elem")
                    h = g.copy()
                    h.add(ge0(i)); h.add(le(mul(I(sz), add(i, ONE)), length(norm_bytes(b))))
                    r = encoded_elem(b, i, h)
                    if not rep.ob(r is not None, f"{nm}:encode", lambda: f"{nm}: cannot tell which elements are written: {short(b, 300)}"): continue
                    x = h.simp(r[2])
                    if elem == "bool": x = bool_elem(x) if bool_elem(x) is not None else x
                    if x.op == "app" and x.a[0] == "cast": x = x.a[-1]
                    # Byte p + size * i of the stream starts element (p + size * i) / size.
                    ix = None
                    if x.op == "at":
                        s, ix = x.a
                        while s.op == "subseq": s, ix = s.a[0], add(s.a[1], ix)
                        if not h.same(s, data): ix = None
                    rep.ob(ix is not None and h.same(mul(I(sz), ix), add(p, mul(I(sz), i))), f"{nm}:order", lambda: f"{nm}: byte {short(add(p, mul(I(sz), i)))} of the stream starts with {short(x)}", "elements in order")
                    # A payload of single elements holds nothing else.
                    if r[0] != "u8" and b.op == "app" and b.a[0] == "encoded1": rep.ob(True, "", "")
        rep.ob(n > 0, f"{nm}:none", f"{nm}: no successful outcome transfers data", "transfers")


def cases_of(g, x, depth=4):
    if x.op == "ite" and depth:
        for c, y in ((x.a[0], x.a[1]), (NOT_deep(x.a[0]), x.a[2])):
            h = g.copy()
            if h.add(c): yield from cases_of(h, h.simp(y), depth - 1)
    else: yield g, x
