"""Calls at which an analysis stops, recording an event instead of entering the callee."""
from terms import *
from engine import *

STORE = {"ReadableStore": ("get", "exists", "uri"), "ListableStore": ("list_dir",), "WriteableStore": ("set", "erase", "erase_prefix")}


def store_pred(d, rd, f):
    if not d.startswith("zarr::storage::"): return False
    p = d.split("::")
    return len(p) == 4 and p[2] in STORE and p[3] in STORE[p[2]]


def store_handler(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    key = e.dd(st, a[1])
    if nm == "set":
        b = e.result(st, "st_set", key)
        out = []
        s = st.copy()
        if s.assume(IS(b, "Ok")):
            w = app("writer", b)
            for o in e.call_value(s, a[2], [w], c.fid):
                if o.tag == "ret":
                    e.event(o.st, "st_set_end", b, e.dd(o.st, o.val))
                out.append(o)
        if st.assume(NOT_deep(IS(b, "Ok"))):
            out.append(Out("ret", st, err(vfld(b, "Err", 0))))
        return out
    return [(st, e.result(st, "st_" + nm, key))]


STORE_LAYER = (store_pred, store_handler)


def named(names, ev):
    """Stop at functions with one of the given names of the crate, as event ev."""
    def pred(d, rd, f):
        return d.split("::")[-1] in names and (d.startswith("zarr::") or rd.startswith(("zarr::", "<zarr::")))

    def handler(e, st, a, c):
        nm = c.f["def"].split("::")[-1]
        vals = [e.dd(st, x) for x in a[1:]]
        r = e.result(st, ev + nm, *vals)
        return [(st, r)]
    return pred, handler


# ---------------------------------------------------------------- codecs
def codec_pred(d, rd, f):
    return d in ("zarr::compression::Compression::encoder", "zarr::compression::Compression::decoder")


def codec_handler(e, st, a, c):
    """A codec becomes a stream of its own: app(encoder, codec, n) over a sink that is finished on drop."""
    nm = c.f["def"].split("::")[-1]
    ct = e.dd(st, a[0])
    if nm == "decoder":
        return [(st, app("decoder", ct, e.dd(st, a[1])))]
    st.nev += 1
    sty = (c.argtys() or ["", ""])[-1]
    sink = a[1]
    if sink.op == "ref" and "alloc::vec::Vec<u8" in sty:
        cl, p = e.target(st, sink)
        old = e.get(st, cl, p)
        t = app("encoder", ct, I(st.nev), mk("place", cl, p), old)
        e.put(st, cl, p, app("enc_open", t))
    else:
        t = app("encoder", ct, I(st.nev), UNIT, e.dd(st, sink))
    e.event(st, "encoder", t)
    return [(st, t)]


def codec_drop(e, st, v):
    e.event(st, "encoder_drop", v)
    if v.a[3].op == "place":
        e.put(st, v.a[3].a[0], v.a[3].a[1], scat(v.a[4], app("enc_done", v)))


CODEC_LAYER = (codec_pred, codec_handler)


# ---------------------------------------------------------------- chunk positions
def coords_pred(d, rd, f):
    return d.split("::")[-1] in ("bounded_coord_iter", "coord_iter") and d.startswith("zarr::")


def coords_handler(e, st, a, c):
    """The grid positions of the chunks that meet a box (what C18 decides), in some order."""
    import models
    vals = [e.dd(st, x) for x in a]
    s = app("grid_coords", *vals)
    e.seq_facts["grid_coords"] = coords_facts
    n = length(s)
    st.assume(le(ZERO, n))
    return [(st, models.itx(mk("x", "seq", s), ZERO, n))]


def coords_facts(e, st, s, i):
    from common import field_of, chunk_shape_of
    meta = s.a[1]
    v = at(s, i)
    shape, cs = field_of(e.F, "ArrayMetadata", meta, "shape"), chunk_shape_of(e.F, meta)
    st.assume(EQ(length(v), length(shape), True))
    x = fresh()
    cond = [le(ZERO, at(v, x)), lt(mul(at(v, x), at(cs, x)), at(shape, x))]
    if len(s.a) > 2:
        off, bs = field_of(e.F, "BoundingBox", s.a[2], "offset"), field_of(e.F, "BoundingBox", s.a[2], "shape")
        cond += [lt(mul(at(v, x), at(cs, x)), add(at(off, x), at(bs, x))),
                 lt(at(off, x), mul(add(at(v, x), ONE), at(cs, x))), lt(ZERO, at(bs, x))]
    st.assume(forall(length(shape), x, AND(*cond)))


def coords_next_pred(d, rd, f):
    return d == "core::iter::traits::iterator::Iterator::next" and rd.startswith("<zarr::")


def coords_next(e, st, a, c):
    import models
    cl, p = e.target(st, a[0])
    it = e.get(st, cl, p)
    if it.op != "it": return NotImplemented
    return models.it_next(e, st, a, c)


COORDS_LAYER = [(coords_pred, coords_handler), (coords_next_pred, coords_next)]
