"""Rules about the operations on nodes and chunks, above the store interface (C04, C05, C13-C15, C17, C21-C24, C27)."""
from common import *
from evalterm import differ, Some as VSome, NONE as VNONE
import rules_fs
from rules_fs import fs_roots, fin, lock_held, opens_in, stream_args, same_file, FS_NAMES, MUTATING

TRAITS = ("zarr::HierarchyReader", "zarr::HierarchyWriter", "zarr::HierarchyLister", "zarr::Hierarchy")
READERS = {"zarr::HierarchyReader", "zarr::HierarchyLister", "zarr::Hierarchy", "zarr::storage::ReadableStore", "zarr::storage::ListableStore",
           "zarr::ndarray::ZarrNdarrayReader"}
CALLS = ("st_get", "st_exists", "st_uri", "st_list_dir", "st_set", "st_erase", "st_erase_prefix")
ST_MUT = ("st_set", "st_erase", "st_erase_prefix")


def op(T, rep, name, floor=True):
    """The analysed operations with that name of the node interfaces."""
    out = [r for r in T.roots if r["name"] == name and ((r.get("impl_trait") or "") in TRAITS or (r.get("trait_default") or "") in TRAITS)]
    if not out and floor: rep.violation("missing:" + name, f"operation {name} not found")
    return out


def node_roots(T):
    return [r for r in T.roots if (r.get("impl_trait") or "") in TRAITS or (r.get("trait_default") or "") in TRAITS
            or (r.get("trait_default") or "").startswith("zarr::storage::")]


TODO = {"store_chunk_metadata"}


def key_args(run):
    """(path argument, metadata argument, position argument) of a chunk operation."""
    path = meta = pos = chunk = None
    b = run.e.F["bodies"][run.root["key"]]
    for i, a in enumerate(run.args):
        ty = b["locals"][i + 1]["ty"]
        if ty == "&str": path = path or a
        elif "ArrayMetadata" in ty: meta = a
        elif "[u64]" in ty or "GridCoord" in ty or "SmallVec" in ty: pos = a
        elif "SliceDataChunk" in ty: chunk = a
    return path, meta, pos, chunk


def okd(f, res): return f.decide(IS(res, "Ok"))


# ---------------------------------------------------------------- C04
STORING_RES = {"write_all", "write_fmt", "to_writer", "flush", "into_inner", "callback", "file_set_len", "create_dir_all", "create_dir",
               "st_set", "io_copy", "sync_all", "sync_data", "rename", "finish", "try_finish", "st_erase", "st_erase_prefix"}
DATA_EV = {"write_all", "write_fmt", "to_writer", "callback", "io_copy", "write"}


def rule_C04(T, rep):
    todo = []
    for r in fs_roots(T):
        if r["name"] in ("set", "open_or_create") or (r.get("impl_trait") or "").endswith("WriteableStore"): todo.append((r, "fs"))
    for r in node_roots(T):
        if (r.get("impl_trait") or r.get("trait_default")) == "zarr::HierarchyWriter": todo.append((r, "store"))
    for r in T.roots:
        if (r.get("trait_default") or "") == "zarr::chunk::DefaultChunkWriter": todo.append((r, "codec"))
        if (r.get("impl_trait") or "") == "zarr::chunk::WriteableDataChunk": todo.append((r, "none"))
    for r, layer in todo:
        run = T.run(r, layer, opts=("precise",))
        rep.saw(run)
        key = r["path"].replace("zarr::", "")[-60:]
        for o, f in run.oks():
            evs = list(events(o.st.trace, f))
            nw = 0
            for i, (ev, f2) in enumerate(evs):
                n = ev.a[0]
                if n == "write":
                    rep.ob(False, f"{key}:partial", f"{r['path']}: `write` may accept only part of the bytes")
                if n in STORING_RES and isinstance(ev.a[1], T_) and ev.a[1].op == "res":
                    rep.count("storing steps")
                    okk = okd(f2, ev.a[1]) is True
                    if not okk and n == "flush" and not any(e2.a[0] in DATA_EV for e2, _ in evs[:i]): okk = True
                    rep.ob(okk, f"{key}:ignored:{n}", f"{r['path']} reports success although {n} may have failed", f"{r['name']}: success implies {n} succeeded")
                if n in DATA_EV and n != "callback":
                    nw += 1
                    sink = ev.a[2] if len(ev.a) > 2 else None
                    if sink is not None and sink.op == "app" and sink.a[0] in ("writer", "BufWriter"):
                        fl = any(e2.a[0] in ("flush", "into_inner") and sink in e2.a and okd(f3, e2.a[1]) is True for e2, f3 in evs[i + 1:])
                        rep.count("buffered writes")
                        rep.ob(fl, f"{key}:unflushed", f"{r['path']} reports success while bytes written by {n} may still be buffered: no successful flush follows")
                if n == "encoder":
                    enc = ev.a[1]
                    written = any(e2.a[0] == "write_all" and e2.a[2] is enc for e2, _ in evs)
                    inner = enc.a[3].op == "place" or infallible(enc.a[4])
                    rep.count("compressors")
                    if layer == "store": rep.ob(inner, f"{key}:finish-on-drop", f"{r['path']}: the compressor finishes in its destructor over {short(enc.a[4])}, where a write error is lost")
                    rep.ob(written, f"{key}:encoder-unused", f"{r['path']}: nothing was written to the compressor")
                    if inner:
                        rep.ob(any(e2.a[0] == "write_all" and any(occurs(app("enc_done", enc), x) for x in e2.a[3:]) for e2, _ in evs) or
                               any(occurs(app("enc_done", enc), x) for x in final_state(o)), f"{key}:finish-lost",
                               f"{r['path']}: the finished output of the compressor is not what is stored")
            if r["name"] == "set_attributes" or layer != "store": continue
        for o in run.panics():
            bad = [ev for ev, f2 in events(o.st.trace, o.st.facts) if ev.a[0] in STORING_RES | {"write"} and isinstance(ev.a[1], T_) and ev.a[1].op == "res" and o.st.facts.decide(IS(ev.a[1], "Ok")) is False]
            rep.ob(not bad, f"{key}:panic:{bad[0].a[0] if bad else ''}", f"{r['path']} panics when {bad[0].a[0] if bad else ''} fails")
        for ev, l in run.e.log.items():
            if ev.a[0] == "unmodelled" and layer == "fs":
                rep.violation(f"{key}:unmodelled:{ev.a[2].a[0]}", f"{r['path']}: {ev.a[2].a[0]} is outside the rule")
    rep.floor("storing steps", 12)
    rep.floor("buffered writes", 4)
    # The document or chunk itself must be what was written.
    for name, what in (("create_group", 1), ("create_array", 1), ("write_chunk", 1), ("set_attributes", 0)):
        for r in op(T, rep, name):
            if (r.get("impl_trait") or "") != "zarr::HierarchyWriter": continue
            run = T.run(r, "store", opts=("precise",))
            for o, f in run.oks():
                evs = [e for e, _ in events(o.st.trace, f)]
                for e in evs:
                    if e.a[0] == "st_set":
                        w = app("writer", e.a[1])
                        d = [x for x in evs if x.a[0] in DATA_EV and len(x.a) > 2 and x.a[2] is w]
                        rep.ob(len(d) == 1, f"{name}:pieces", f"{r['path']}: the value is written in {len(d)} pieces where one document is stored")


T_ = type(TRUE)


def infallible(t): return t.op in ("arr", "scat", "seq", "bytes") or (t.op == "app" and t.a[0] == "enc_open")


def final_state(o):
    st = o.st
    vals = []
    for c in st.cells.values() if hasattr(st, "cells") else []:
        if isinstance(c, T_): vals.append(c)
    return vals


# ---------------------------------------------------------------- C05 / C06 helper
KINDS = {"Bool": None, "Int": ("B1", "B2", "B4", "B8"), "UInt": ("B1", "B2", "B4", "B8"), "Float": ("B2", "B4", "B8"), "Raw": None}
ELEM = {"bool": ("Bool", None), "i8": ("Int", "B1"), "i16": ("Int", "B2"), "i32": ("Int", "B4"), "i64": ("Int", "B8"),
        "u8": ("UInt", "B1"), "u16": ("UInt", "B2"), "u32": ("UInt", "B4"), "u64": ("UInt", "B8"),
        "half::binary16::f16": ("Float", "B2"), "f32": ("Float", "B4"), "f64": ("Float", "B8")}


def edt_parts(F, meta):
    """(data type term, its effective data type in each representation)."""
    a = next((x for x in F["adts"] if x["path"].endswith("::ArrayMetadata")), None)
    i, n = next((i, f["name"]) for i, f in enumerate(a["variants"][0]["fields"]) if f["ty"].endswith("ExtensibleDataType"))
    dt = fld(meta, i, n)
    e = next(x for x in F["adts"] if x["path"].endswith("::ExtensibleDataType"))
    cases = []
    for v in e["variants"]:
        for j, f in enumerate(v["fields"]):
            if f["ty"].endswith("Option<zarr::data_type::DataType>"):
                cases.append((v["name"], [IS(dt, v["name"]), IS(vfld(dt, v["name"], j, f["name"]), "Some")], vfld(vfld(dt, v["name"], j, f["name"]), "Some", 0)))
            elif f["ty"].endswith("data_type::DataType"):
                cases.append((v["name"], [IS(dt, v["name"])], vfld(dt, v["name"], j, f["name"])))
    return dt, cases


def all_types(F):
    """(variant, size variant or None, fields) of the crate's DataType, and of its size enumerations."""
    d = next(x for x in F["adts"] if x["path"].endswith("data_type::DataType"))
    out = []
    for v in d["variants"]:
        sz = None
        for j, f in enumerate(v["fields"]):
            s = next((x for x in F["adts"] if x["path"] == f["ty"] and x["path"].endswith("Size")), None)
            if s: sz = (j, [y["name"] for y in s["variants"]])
        if sz: out += [(v["name"], sz[0], s) for s in sz[1]]
        else: out.append((v["name"], None, None))
    return out


def wrong_types(F, facts, meta, elem):
    """Data types other than elem's that the facts do not exclude."""
    want = ELEM[elem]
    dt, cases = edt_parts(F, meta)
    left = []
    for rep_, conds, eff in cases:
        for kind, j, size in all_types(F):
            if (kind, size) == want: continue
            f = facts.copy()
            good = all(f.add(c) for c in conds) and f.add(IS(eff, kind))
            if good and size: good = f.add(IS(vfld(eff, kind, j), size))
            if good: left.append(f"{rep_} {kind} {size or ''}".strip())
    for c in [x for x in [v["name"] for v in next(x for x in F["adts"] if x["path"].endswith("::ExtensibleDataType"))["variants"]]]:
        # A representation without an effective type.
        f = facts.copy()
        cs = [y for y in cases if y[0] == c]
        if f.add(IS(dt, c)) and (not cs or (len(cs[0][1]) > 1 and f.add(NOT_deep(cs[0][1][1])))): left.append(f"{c} without an effective type")
    return left


def sizes_ok(F, facts, meta, data):
    shp = chunk_shape_of(F, meta)
    return facts.same(length(data), prod(shp)) or facts.decide(EQ(length(data), prod(shp), True)) is True


def data_of(F, chunk): return field_of(F, "SliceDataChunk", chunk, "data")


def rule_C05(T, rep):
    F = T.F
    for r in op(T, rep, "write_chunk"):
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)
        path, meta, pos, chunk = key_args(run)
        if meta is None or chunk is None:
            rep.violation("write_chunk:args", f"{r['path']}: arguments not recognised")
            continue
        for ev, f, pre, sp in fin(run):
            if ev.a[0] in ST_MUT:
                rep.count("store changes")
                w = wrong_types(F, f, meta, "i32")
                rep.ob(not w, "write_chunk:type", f"{r['path']} ({sp}): {ev.a[0]} is reached by a chunk of i32 for an array of type {', '.join(w[:4])}", "store change implies matching type")
                rep.ob(sizes_ok(F, f, meta, data_of(F, chunk)), "write_chunk:size", f"{r['path']} ({sp}): {ev.a[0]} is reached by a chunk whose number of elements is not shown to be that of the array's chunks", "store change implies matching element count")
                if ev.a[0] != "st_set": rep.ob(False, "write_chunk:" + ev.a[0], f"{r['path']} ({sp}): writing a chunk erases")
                enc = [e for e, _ in events(pre, f) if e.a[0] in ("encoder_drop",)]
                # Everything that may still refuse the chunk has run before the store is changed.
                rep.ob(bool(enc), "write_chunk:late-encode", f"{r['path']} ({sp}): the store is changed before the chunk is completely encoded")
        for o, f in run.oks():
            rep.ob(any(e.a[0] == "st_set" for e, _ in events(o.st.trace)), "write_chunk:nothing", f"{r['path']}: success without storing the chunk")
        rep.floor("store changes", 1)
    for r in T.roots:
        if (r.get("trait_default") or "") == "zarr::chunk::DefaultChunkWriter":
            run = T.run(r, "codec", opts=("precise",))
            rep.saw(run)
            b = F["bodies"][r["key"]]
            meta = next((a for i, a in enumerate(run.args) if "ArrayMetadata" in b["locals"][i + 1]["ty"]), None)
            chunk = next((a for i, a in enumerate(run.args) if "SliceDataChunk" in b["locals"][i + 1]["ty"]), None)
            for o, f in run.oks():
                rep.count("encodings")
                rep.ob(not wrong_types(F, f, meta, "i32"), "encode:type", lambda: f"{r['path']}: succeeds for {wrong_types(F, f, meta, 'i32')[:4]}")
                rep.ob(sizes_ok(F, f, meta, data_of(F, chunk)), "encode:size", f"{r['path']}: succeeds for a chunk whose number of elements is not that of the array's chunks")
    rep.floor("encodings", 1)


# ---------------------------------------------------------------- C13
def doc_of(t):
    """The parsed document a value comes from."""
    for u in subterms(t):
        if u.op == "res" and u.a[0] in ("from_reader", "from_slice", "from_str", "from_value"): return u
    return None


def no_must_understand(F, f, meta, adt):
    exts = field_of(F, adt, meta, "extensions", "Vec<zarr::ExtensionMetadata")
    if exts.op == "arr": return all(f.decide(field_of(F, "ExtensionMetadata", x, "must_understand", "bool")) is False for x in exts.a)
    x = fresh()
    g = f.copy()
    g._add(le(ZERO, x)); g._add(lt(x, length(exts)))
    mu = field_of(F, "ExtensionMetadata", at(exts, x), "must_understand", "bool")
    return g.decide(mu) is False or f.decide(forall(length(exts), x, NOT(mu))) is True


def version_conditions(f, docs):
    """Facts that say something about the declared version."""
    return [x for x in f.true if any(u.op == "app" and "VersionReq::matches" in str(u.a[0]) for u in subterms(x)) and (not docs or occurs(docs, x))]


def rule_C13(T, rep):
    F = T.F
    for r in fs_roots(T):
        if not rules_fs.is_ctor(T, r): continue
        run = T.run(r, "fs", opts=("precise",))
        rep.saw(run)
        h = next(x for x in F["adts"] if x["path"] == rules_fs.FSH)
        for o, f in run.oks():
            v = vfld(o.val, "Ok", 0)
            i, n = next((i, x["name"]) for i, x in enumerate(h["variants"][0]["fields"]) if "EntryPointMetadata" in x["ty"])
            meta = fld(v, i, n)
            fmt_ = field_of(F, "EntryPointMetadata", meta, "zarr_format", "String")
            rep.count("opened hierarchies")
            good = [x for x in f.true if x.op == "app" and "VersionReq::matches" in str(x.a[0]) and occurs(fmt_, x)]
            rep.ob(good, f"{r['name']}:version", f"{r['path']}: a hierarchy is opened without its declared version being required to match a supported one ({short(fmt_, 80)})", f"{r['name']}: {short(good[0], 120) if good else ''}")
            for g in good:
                ver = [u for u in subterms(g) if u.op == "adt" and u.a[0].endswith("Version")]
                if ver: rep.ob(all(u.op != "sym" for u in subterms(ver[0])), f"{r['name']}:supported", "the supported version is not a constant")
            rep.ob(no_must_understand(F, f, meta, "EntryPointMetadata"), f"{r['name']}:extensions", f"{r['path']}: a hierarchy is opened although its entry point document may declare a must-understand extension",
                   f"{r['name']}: no extension is must_understand")
        # Not refused on these grounds otherwise.
        for o, f in run.errs():
            g = f.copy()
            cons = all(g.add(IS(e.a[1], "Ok")) for e, f2 in events(o.st.trace, f) if isinstance(e.a[1], T_) and e.a[1].op == "res" and okd(f, e.a[1]) is not None or False)
            d = next((vfld(e.a[1], "Ok", 0) for e, _ in events(o.st.trace, f) if e.a[0] in ("from_reader", "from_slice", "from_str") and okd(f, e.a[1]) is True), None)
            if d is None or any(e.a[1].op == "res" and okd(f, e.a[1]) is False for e, _ in events(o.st.trace, f) if isinstance(e.a[1], T_)): continue
            exts = field_of(F, "EntryPointMetadata", d, "extensions", "Vec<zarr::ExtensionMetadata")
            x = fresh()
            free = g.add(forall(length(exts), x, NOT(field_of(F, "ExtensionMetadata", at(exts, x), "must_understand", "bool")))) if not has_any(f, exts) else False
            vc = [x for x in f.true if any(u.op == "app" and ("VersionReq" in str(u.a[0]) or u.a[0] in ("rsplit", "parse")) for u in subterms(x))]
            bad_v = any(x.op == "not" for x in vc)
            rep.ob(not free or bad_v, f"{r['name']}:refused", f"{r['path']}: refuses a document without unsupported version or must-understand extension: {short(o.val, 120)}")
    rep.floor("opened hierarchies", 3)
    for r in op(T, rep, "get_array_metadata"):
        run = T.run(r, "store")
        rep.saw(run)
        for o, f in run.oks():
            v = vfld(o.val, "Ok", 0)
            rep.count("loaded metadata")
            rep.ob(no_must_understand(F, f, v, "ArrayMetadata"), "get_array_metadata:extensions", f"{r['path']}: array metadata is returned although it may declare a must-understand extension", "extensions[i].must_understand is false for all i")
    rep.floor("loaded metadata", 1)


def has_any(f, exts):
    """Do the facts say that some extension is must-understand?"""
    for x in f.true:
        if occurs(exts, x) and any(u.op in ("fld", "vfld") and "must_understand" in str(u.a) for u in subterms(x)):
            if x.op == "not" and x.a[0].op == "forall": return True
            if x.op in ("fld",): return True
    return False


# ---------------------------------------------------------------- C14
def wf_conditions(F, v):
    cg = field_of(F, "ArrayMetadata", v, "chunk_grid", "ChunkGridMetadata")
    shape = field_of(F, "ArrayMetadata", v, "shape")
    cs = chunk_shape_of(F, v)
    gt = field_of(F, "ChunkGridMetadata", cg, "grid_type", "String")
    x = fresh()
    return [("chunk dimensions equal array dimensions", EQ(length(cs), length(shape), True)),
            ("no chunk dimension is zero", forall(length(cs), x, NOT(EQ(at(cs, x), ZERO, True)))),
            ("the chunk grid is regular", EQ(gt, S("regular")))]


def holds(f, c):
    if f.decide(c) is True: return True
    if c.op == "forall":
        x = fresh()
        g = f.copy()
        g._add(le(ZERO, x)); g._add(lt(x, c.a[0]))
        return g.decide(subst(c.a[2], {bv(c.a[1]): x})) is True
    return False


def rule_C14(T, rep):
    F = T.F
    for r in op(T, rep, "get_array_metadata"):
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)
        for o, f in run.oks():
            v = vfld(o.val, "Ok", 0)
            rep.count("loaded metadata")
            d = doc_of(v)
            rep.ob(d is not None and v is vfld(d, "Ok", 0), "changed", f"{r['path']}: the metadata returned is not the stored document: {short(v)}")
            for what, c in wf_conditions(F, v):
                rep.ob(holds(f, c), what, f"{r['path']}: array metadata is returned although it is not shown that {what}", what)
        # Well-formed documents are accepted.
        for o, f in run.errs():
            g = f.copy()
            d = None
            feasible = True
            for e, _ in events(o.st.trace, f):
                if isinstance(e.a[1], T_) and e.a[1].op == "res":
                    feasible = feasible and g.add(IS(e.a[1], "Ok"))
                    if e.a[0] == "st_get" and feasible: feasible = g.add(IS(vfld(e.a[1], "Ok", 0), "Some"))
                    if e.a[0] == "from_reader": d = vfld(e.a[1], "Ok", 0)
            if not feasible: continue
            if d is not None:
                for what, c in wf_conditions(F, d):
                    if feasible and refutes(g, c): feasible = False
                    feasible = feasible and g.add(c)
                exts = field_of(F, "ArrayMetadata", d, "extensions", "Vec<zarr::ExtensionMetadata")
                x = fresh()
                c = forall(length(exts), x, NOT(field_of(F, "ExtensionMetadata", at(exts, x), "must_understand", "bool")))
                if feasible and (refutes(g, c) or not g.add(c)): feasible = False
            rep.ob(not feasible, "refused:" + short(o.val, 60), f"{r['path']}: a well-formed document may be refused with {short(o.val, 120)}", "error implies a violated condition")
    rep.floor("loaded metadata", 1)


def refutes(f, c):
    """Do the facts contradict c (an instance of a failing element included)?"""
    if f.decide(c) is False: return True
    if c.op == "forall":
        for x in f.true:
            # a failing element found at a loop counter
            for u in subterms(x):
                if u.op == "k" or u.op == "fresh":
                    i = subst(c.a[2], {bv(c.a[1]): u})
                    if f.decide(i) is False and f.decide(lt(u, c.a[0])) is True: return True
            if x.op == "not" and x.a[0].op == "forall":
                y = x.a[0]
                z = fresh()
                g = Facts()
                for q in f.true:
                    if q is not x: g._add(q)
                g._add(le(ZERO, z)); g._add(lt(z, y.a[0])); g._add(NOT_deep(subst(y.a[2], {bv(y.a[1]): z})))
                if g.decide(lt(z, c.a[0])) is True and g.decide(subst(c.a[2], {bv(c.a[1]): z})) is False: return True
    return False


# ---------------------------------------------------------------- C15
PATHS = ["", "/", "a", "/a", "a/", "/a/b", "a/b/", "//x//", "foo/baz.q"]
SEPS = ["/", ".", "", "::"]
POSS = [[], [0], [7], [1, 2], [10, 0, 3], [18446744073709551615, 1, 1, 0]]


def want_chunk_key(path, sep, pos):
    c = path.strip("/")
    return "/data/root/" + (c + "/" if c else "") + "c" + sep.join(str(x) for x in pos)


def norm_key(t):
    """Joins of decimal coordinates in one form, however the separators were put in."""
    m = {}
    for u in subterms(t):
        if u.op == "sjoin" and u.a[0].op == "seq":
            n, h, b = u.a[0].a
            if b.op == "ite":
                i = bv(h)
                c, x, y = b.a
                # not the last: x + sep; or not the first: sep + x
                last = Facts(); last._add(ge0(i)); last._add(lt(i, n))
                if y.op != "cat" and x.op == "cat" and len(x.a) == 2 and x.a[0] is y and not occurs(i, x.a[1]) and c in (le(ONE, sub(sub(n, i), ONE)), lt(i, sub(n, ONE)), NOT(EQ(i, sub(n, ONE), True)), NOT(EQ(add(i, ONE), n, True))):
                    m[u] = app("join_sep", mk("seq", n, h, y), x.a[1])
                elif y.op != "cat" and x.op == "cat" and len(x.a) == 2 and x.a[1] is y and not occurs(i, x.a[0]) and c in (le(ONE, i), NOT(EQ(i, ZERO, True))):
                    m[u] = app("join_sep", mk("seq", n, h, y), x.a[0])
                elif x.op != "cat" and y.op == "cat" and len(y.a) == 2 and y.a[1] is x and not occurs(i, y.a[0]) and c is EQ(i, ZERO, True):
                    m[u] = app("join_sep", mk("seq", n, h, x), y.a[0])
                elif x.op != "cat" and y.op == "cat" and len(y.a) == 2 and y.a[0] is x and not occurs(i, y.a[1]) and c is EQ(i, sub(n, ONE), True):
                    m[u] = app("join_sep", mk("seq", n, h, x), y.a[1])
    return subst(t, m) if m else t


def spec_chunk_key(F, path, meta, pos):
    sep = field_of(F, "ChunkGridMetadata", field_of(F, "ArrayMetadata", meta, "chunk_grid", "ChunkGridMetadata"), "separator")
    p = app("trim", path, CH("/"), S("se"))
    x = fresh()
    js = app("join_sep", mkseq(length(pos), x, app("dec", at(pos, x))), sep)
    return sep, ite(EQ(p, S("")), cat(S("/data/root/c"), js), cat(S("/data/root/"), p, S("/c"), js))


def same_key(F, rep, t, path, meta, pos):
    """None when t is the specified key of the chunk, else what is wrong."""
    sep, want = spec_chunk_key(F, path, meta, pos)
    if norm_key(t) is norm_key(want):
        rep.count("keys proved equal to the specified form")
        return None
    cg = field_of(F, "ArrayMetadata", meta, "chunk_grid", "ChunkGridMetadata")
    envs = []
    for p in PATHS:
        for s in SEPS:
            for q in POSS:
                envs.append({path: p, pos: q, cg: {"separator": s, "grid_type": "regular", "chunk_shape": [1] * len(q)}, sep: s, length(pos): len(q)})
    st_, w = differ(t, lambda e: want_chunk_key(e[path], e[sep], e[pos]), envs)
    if st_ == "equal":
        rep.count("keys compared by valuation")
        return None
    if st_ == "differs":
        e, a, b = w
        return f"for path {e[path]!r}, separator {e[sep]!r}, position {e[pos]} the key is {b!r} instead of {a!r}"
    return f"not shown to be the specified key ({w}): {short(t, 240)}"


def key_term(F, run, pos_of=None):
    path, meta, pos, chunk = key_args(run)
    if pos is None and chunk is not None: pos = field_of(F, "SliceDataChunk", chunk, "grid_position", "SmallVec")
    return path, meta, pos


CHUNK_OPS = {"read_chunk": "st_get", "read_chunk_into": "st_get", "write_chunk": "st_set", "delete_chunk": "st_erase", "get_chunk_uri": "st_uri"}


def rule_C15(T, rep):
    F = T.F
    for name, want in CHUNK_OPS.items():
        for r in op(T, rep, name):
            run = T.run(r, "store", opts=("precise",))
            rep.saw(run)
            path, meta, pos = key_term(F, run)
            used = set()
            for ev, f, pre, sp in fin(run):
                if ev.a[0] not in CALLS: continue
                used.add(ev.a[0])
                rep.count("store calls")
                k = f.simp(ev.a[2]) if hasattr(f, "simp") else ev.a[2]
                w = same_key(F, rep, ev.a[2], path, meta, pos)
                if w: w2 = same_key_facts(F, rep, ev.a[2], f, path, meta, pos); w = w2
                rep.ob(w is None, f"{name}:{ev.a[0]}", f"{r['path']} ({sp}): {ev.a[0]} uses another key: {w}", f"{name}: {ev.a[0]} {short(ev.a[2], 120)}")
            for o, f in run.oks():
                called = [e.a[0] for e, _ in events(o.st.trace) if e.a[0] in CALLS]
                rep.ob(called == [want] or (name.startswith("read") and not called), f"{name}:calls", f"{r['path']}: a successful call performs {called} where one {want} is expected")
            rep.ob(want in used, f"{name}:none", f"{r['path']}: never calls {want}")
    for r in [r for r in T.roots if r["name"] == "get_chunk_key" and r["public"]]:
        run = T.run(r, "none")
        rep.saw(run)
        b = F["bodies"][r["key"]]
        if len(run.args) != 3: continue
        path, meta, pos = run.args
        for o in run.rets():
            w = same_key(F, rep, o.val, path, meta, pos)
            if w: w = same_key_facts(F, rep, o.val, o.st.facts, path, meta, pos)
            rep.ob(w is None, "get_chunk_key", f"{r['path']}: {w}", f"get_chunk_key = {short(o.val, 160)}")
    rep.floor("store calls", 5)


def same_key_facts(F, rep, t, f, path, meta, pos):
    """As same_key, for a key that is only right under the facts of its path (such as an empty node path)."""
    sep, want = spec_chunk_key(F, path, meta, pos)
    cg = field_of(F, "ArrayMetadata", meta, "chunk_grid", "ChunkGridMetadata")
    from evalterm import ev as val, Unknown
    n = 0
    for p in PATHS:
        for s in SEPS:
            for q in POSS:
                env = {path: p, pos: q, cg: {"separator": s, "grid_type": "regular", "chunk_shape": [1] * len(q)}, sep: s}
                skip = False
                for x in f.true:
                    try:
                        if val(x, env) is False: skip = True
                    except Exception: pass
                if skip: continue
                try: got = val(t, env)
                except Exception as x: return f"not shown to be the specified key ({x}): {short(t, 200)}"
                n += 1
                if got != want_chunk_key(p, s, q): return f"for path {p!r}, separator {s!r}, position {q} the key is {got!r} instead of {want_chunk_key(p, s, q)!r}"
    rep.count("keys compared by valuation")
    return None


# ---------------------------------------------------------------- C17
def rule_C17(T, rep):
    F = T.F
    for name in ("read_chunk", "read_chunk_into"):
        for r in op(T, rep, name):
            run = T.run(r, "store", opts=("precise", "wf"))
            rep.saw(run)
            path, meta, pos, chunk = key_args(run)
            cond = in_bounds_cond(F, meta, pos)
            for ev, f, pre, sp in fin(run):
                if ev.a[0] in CALLS:
                    rep.count("store calls")
                    for what, c in cond:
                        rep.ob(holds(f, c), f"{name}:{ev.a[0]}:{what}", f"{r['path']} ({sp}): {ev.a[0]} is reached for a position for which it is not shown that {what}", f"{name}: {ev.a[0]} implies {what}")
            for o, f in run.oks():
                rep.count("successes")
                rep.ob(all(holds(f, c) for _, c in cond), f"{name}:ok", f"{r['path']}: succeeds for a position not shown to be in bounds")
            for o, f in run.errs():
                if any(e.a[0] in CALLS for e, _ in events(o.st.trace)): continue
                g = f.copy()
                bad = any(refutes(g, c) or not g.add(c) for _, c in cond)
                rep.ob(bad, f"{name}:refused", f"{r['path']}: an in-bounds position may be refused without being looked up: {short(o.val, 100)}")
            for o in run.panics():
                if any(e.a[0] in CALLS for e, _ in events(o.st.trace)): continue
                rep.ob(False, f"{name}:panic", f"{r['path']}: may panic before the lookup: {panic_of(o)}")
            for k in run.e.maypanic:
                pass
    rep.floor("store calls", 2)
    rep.floor("successes", 2)


def panic_of(o): return short(o.val, 120) if isinstance(o.val, T_) else str(o.val)


def in_bounds_cond(F, meta, pos):
    shape = field_of(F, "ArrayMetadata", meta, "shape")
    cs = chunk_shape_of(F, meta)
    x = fresh()
    return [("it has the array's number of dimensions", EQ(length(pos), length(shape), True)),
            ("every coordinate is below the grid extent", forall(length(pos), x, lt(at(pos, x), cdiv(at(shape, x), at(cs, x)))))]


# ---------------------------------------------------------------- keys of metadata documents
SUFFIXES = [".json", "json", ".x"]


def want_meta_key(path, suffix, kind):
    c = path.strip("/")
    return "/meta/root" + ("/" + c if c else "") + "." + kind + "." + (suffix[1:] if suffix.startswith(".") else suffix)


def valued(t, want, facts, path, self_, same=lambda a, b: a == b):
    """None when the key term t has the wanted value for every node path allowed by the facts."""
    from evalterm import ev as val
    n = 0
    for p in PATHS:
        for s in SUFFIXES:
            env = {self_: {"entry_point_metadata": {"metadata_key_suffix": s}}}
            if path is not None: env[path] = p
            skip = False
            for x in facts.true:
                try:
                    if val(x, env) is False: skip = True
                except Exception: pass
            if skip: continue
            try: got = val(t, env)
            except Exception as x: return f"key not understood ({x}): {short(t, 200)}"
            n += 1
            if not same(got, want(p, s)): return f"for path {p!r} and suffix {s!r} the key is {got!r} instead of {want(p, s)!r}"
    return None


def key_kind(t, facts, path, self_):
    """'array' or 'group' for the key of the node's own metadata document, else None and why."""
    w = None
    for k in ("array", "group"):
        w = valued(t, lambda p, s: want_meta_key(p, s, k), facts, path, self_)
        if w is None: return k, None
    return None, w


def str_args(run):
    b = run.e.F["bodies"][run.root["key"]]
    s = run.args[0] if run.args else None
    p = next((a for i, a in enumerate(run.args) if b["locals"][i + 1]["ty"] == "&str"), None)
    return s, p


def existence(f, trace, path, self_):
    """What the events and facts say about the node's documents: {'array': True/False/'failed', ...}."""
    out = {}
    for e, f2 in events(trace, f):
        if e.a[0] in ("st_exists", "st_get"):
            k, _ = key_kind(e.a[2], f, path, self_)
            if k is None: continue
            o = f.decide(IS(e.a[1], "Ok"))
            v = vfld(e.a[1], "Ok", 0)
            if o is False: out[k] = "failed"
            elif o is True:
                d = f.decide(v) if e.a[0] == "st_exists" else f.decide(IS(v, "Some"))
                if k not in out or out[k] is None: out[k] = d
            else: out.setdefault(k, None)
    return out


# ---------------------------------------------------------------- C21
def rule_C21(T, rep):
    F = T.F
    for name in ("create_array", "create_group"):
        own = name.split("_")[1]
        for r in op(T, rep, name):
            run = T.run(r, "store", opts=("precise",))
            rep.saw(run)
            self_, path = str_args(run)
            for ev, f, pre, sp in fin(run):
                if ev.a[0] in ST_MUT:
                    rep.count("store changes")
                    rep.ob(ev.a[0] == "st_set", f"{name}:{ev.a[0]}", f"{r['path']} ({sp}): creating a node erases")
                    k, w = key_kind(ev.a[2], f, path, self_)
                    rep.ob(k == own, f"{name}:document", f"{r['path']} ({sp}): stores another document than the node's {own} metadata: {w}", f"{name} stores the {own} document")
                    ex = existence(f, pre, path, self_)
                    for kind in ("array", "group"):
                        rep.ob(ex.get(kind) is False, f"{name}:overwrite-{kind}", f"{r['path']} ({sp}): the document is stored although it is not shown that no {kind} exists at the path (known: {ex.get(kind)})",
                               f"{name}: store change implies no {kind}")
            for o, f in run.oks():
                ex = existence(f, o.st.trace, path, self_)
                rep.count("successes")
                muts = [e for e, _ in events(o.st.trace) if e.a[0] in ST_MUT]
                if muts:
                    rep.ob(len(muts) == 1, f"{name}:muts", f"{r['path']}: a creation changes the store {len(muts)} times")
                    continue
                rep.ob(own == "group" and ex.get("group") is True and ex.get("array") is False, f"{name}:silent", f"{r['path']}: reports success without creating anything (existing: {ex})")
            for o, f in run.errs():
                # refused only because of an existing node or a failure
                g = f.copy()
                feas = True
                for e, _ in events(o.st.trace, f):
                    if isinstance(e.a[1], T_) and e.a[1].op == "res":
                        feas = feas and g.add(IS(e.a[1], "Ok"))
                        if feas and e.a[0] in ("st_exists", "st_get"):
                            k, _ = key_kind(e.a[2], f, path, self_)
                            v = vfld(e.a[1], "Ok", 0)
                            c = v if e.a[0] == "st_exists" else IS(v, "Some")
                            if k == "array" or own == "array": feas = g.add(NOT_deep(c))
                rep.ob(not feas, f"{name}:refused", f"{r['path']}: refuses although no conflicting node exists: {short(o.val, 100)}")
                ex = existence(f, o.st.trace, path, self_)
                muts = [e for e, _ in events(o.st.trace) if e.a[0] in ST_MUT]
                if muts: rep.ob(all(ex.get(k) is False for k in ("array", "group")), f"{name}:err-after", f"{r['path']}: fails after changing the store although a node exists")
    presence_contract(T, rep, ("exists",))
    rep.floor("store changes", 2)
    rep.floor("successes", 3)


def presence(o, f):
    """What the path establishes about a regular file at the key: 'file', 'none' or None."""
    yes = no = False
    for e, f2 in events(o.st.trace, f):
        n, r = e.a[0], e.a[1]
        if n in ("is_file", "exists"):
            d = f.decide(r)
            if d is True: yes = True
            if d is False: no = True
        elif n in ("metadata", "symlink_metadata", "open"):
            d = okd(f, r)
            if d is False: no = no or n != "open" or any("NotFound" in show(x) for x in f.true if occurs(r, x))
            if d is True:
                if n == "open": yes = True
                t = f.decide(app("is_file", app("md_type", vfld(r, "Ok", 0))))
                if t is True: yes = True
                if t is False: no = True
        elif n == "try_exists" and okd(f, r) is True:
            d = f.decide(vfld(r, "Ok", 0))
            if d is True: yes = True
            if d is False: no = True
    return "none" if no else "file" if yes else None


def presence_contract(T, rep, names=("exists", "get")):
    """The file system store reports a key present or absent exactly when a file is there or not."""
    for r in fs_roots(T):
        if r["name"] not in names or "ReadableStore" not in (r.get("impl_trait") or ""): continue
        run = T.run(r, "fs", opts=("precise",))
        rep.saw(run)
        name = r["name"]
        for o, f in run.oks():
            v = vfld(o.val, "Ok", 0)
            rep.count("presence reports")
            if name == "get": v = IS(v, "Some")
            for want, val in (("file", True), ("none", False)):
                g = f.copy()
                g._add(v if val else NOT(v))
                if g.decide(FALSE) is True or f.decide(v) is (not val): continue
                if f.decide(v) is None and g.decide(v) is not val: g = f
                rep.ob(presence(o, g) == want, f"{name}:presence", f"{r['path']}: reports a value {'present' if val else 'absent'} without knowing that {'a file' if val else 'no file'} is stored under the key", f"{name}: {'present' if val else 'absent'} means {want}")
    rep.floor("presence reports", 1)


# ---------------------------------------------------------------- C22
def rule_C22(T, rep):
    F = T.F
    pfx = lambda root: (lambda p, s: "/" + root + "/root" + ("/" + p.strip("/") if p.strip("/") else ""))
    samep = lambda a, b: isinstance(a, str) and a.rstrip("/") == b
    for name in ("remove", "remove_all"):
        for r in op(T, rep, name):
            run = T.run(r, "store", opts=("precise",))
            rep.saw(run)
            self_, path = str_args(run)
            root = (lambda w: (lambda p, s: w("", s))) if path is None else (lambda w: w)
            want = {"the array document": ("st_erase", root(lambda p, s: want_meta_key(p, s, "array")), lambda a, b: a == b),
                    "the group document": ("st_erase", root(lambda p, s: want_meta_key(p, s, "group")), lambda a, b: a == b),
                    "the metadata below the node": ("st_erase_prefix", root(pfx("meta")), samep),
                    "the chunk data below the node": ("st_erase_prefix", root(pfx("data")), samep)}
            for o, f in run.oks():
                rep.count("removals")
                done = set()
                for e, f2 in events(o.st.trace, f):
                    if e.a[0] not in ST_MUT: continue
                    hit = [n for n, (w, k, same) in want.items() if w == e.a[0] and valued(e.a[2], k, f, path, self_, same) is None]
                    rep.ob(bool(hit), f"{name}:outside:{e.a[0]}", f"{r['path']}: {e.a[0]} of {short(e.a[2], 160)}, which is not the node's")
                    rep.ob(okd(f2, e.a[1]) is True, f"{name}:failure", f"{r['path']}: succeeds although {e.a[0]} of {hit} may have failed", f"{name}: {e.a[0]} {hit} succeeded")
                    done |= set(hit)
                for n in want:
                    rep.ob(n in done, f"{name}:left:{n}", f"{r['path']}: {n} is not erased", f"{name} erases {n}")
            rep.ob(not run.panics(), f"{name}:panic", f"{r['path']}: may panic: {panic_of(run.panics()[0]) if run.panics() else ''}")
    rep.floor("removals", 2)
    for r in op(T, rep, "delete_chunk"):
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)
        for o, f in run.oks():
            es = [e for e, _ in events(o.st.trace) if e.a[0] in ST_MUT]
            rep.ob(len(es) == 1 and es[0].a[0] == "st_erase" and f.same(vfld(o.val, "Ok", 0), vfld(es[0].a[1], "Ok", 0)), "delete_chunk:result", f"{r['path']}: does not report the result of erasing the chunk's key")
    fs_erase(T, rep)


def gone(o, f, P):
    """Is the boolean returned exactly 'nothing exists at P any more'?"""
    v = vfld(o.val, "Ok", 0)
    evs = list(events(o.st.trace, f))
    last = max([i for i, (e, _) in enumerate(evs) if e.a[0] in ("remove_file", "remove_dir", "remove_dir_all")], default=-1)
    tests = [e for i, (e, _) in enumerate(evs) if i > last and e.a[0] in ("exists", "try_exists", "is_file", "is_dir", "symlink_metadata") and e.a[2] is P]
    for e in tests:
        t = e.a[1]
        if e.a[0] == "exists":
            if f.same(v, NOT(t)): return True
            d = f.decide(t)
            if d is not None and f.decide(v) is (not d): return True
        if e.a[0] == "try_exists" and f.same(v, NOT(vfld(t, "Ok", 0))): return True
    if f.decide(v) is True:
        for e, f2 in evs:
            if e.a[0] in ("remove_file", "remove_dir_all") and e.a[2] is P and okd(f2, e.a[1]) is True: return True
    return False


def fs_erase(T, rep):
    for r in fs_roots(T):
        if r["name"] not in ("erase", "erase_prefix") or "Store" not in (r.get("impl_trait") or ""): continue
        run = T.run(r, "fs", opts=("precise",))
        rep.saw(run)
        name = r["name"]
        paths = [ev.a[2] for ev, f, pre, sp in fin(run) if ev.a[0] in ("exists", "open", "remove_file", "walk", "remove_dir_all", "try_exists", "is_file") and not anywhere(ev.a[2], lambda u: u.op == "app" and u.a[0] in ("entry_path", "dir_entries"))]
        P = paths[0] if paths else None
        if P is not None and P.op == "app" and P.a[0] == "walkdir": P = P.a[1]
        for o, f in run.oks():
            rep.count("erasures")
            rep.ob(P is not None and gone(o, f, P), f"{name}:report", f"{r['path']}: the result {short(vfld(o.val, 'Ok', 0), 80)} does not say whether the key is gone on return", f"{name} reports {short(vfld(o.val, 'Ok', 0), 60)}")
            evs = list(events(o.st.trace, f))
            absent = any(e.a[0] in ("exists", "is_file", "is_dir") and e.a[2] is P and f.decide(e.a[1]) is False for e, _ in evs) or \
                any(e.a[0] in ("open", "remove_file", "symlink_metadata") and e.a[2] is P and okd(f, e.a[1]) is False for e, _ in evs)
            removed = any(e.a[0] in ("remove_file", "remove_dir_all") and e.a[2] is P and okd(f2, e.a[1]) is True for e, f2 in evs)
            if name == "erase_prefix": removed = removed or walk_removes(o, f, P)
            rep.ob(absent or removed, f"{name}:kept", f"{r['path']}: returns without an error although something at the key was not removed", f"{name}: everything present is removed")
        for o, f in run.errs():
            evs = list(events(o.st.trace, f))
            bad = [e for e, f2 in evs if isinstance(e.a[1], T_) and e.a[1].op == "res" and e.a[0] in ("open", "remove_file", "symlink_metadata", "walk", "remove_dir_all", "metadata") and okd(f, e.a[1]) is False and e.a[2] is P]
            for e in bad:
                ex = any(x.a[0] in ("exists", "is_file", "is_dir") and x.a[2] is P and f.decide(x.a[1]) is True for x, _ in evs)
                kind = any("NotFound" in show(x) and x.op == "not" for x in f.true if occurs(e.a[1], x))
                rep.ob(ex or kind, f"{name}:absent", f"{r['path']}: erasing an absent key is an error ({e.a[0]} fails)", f"{name}: {e.a[0]} only if present")
    rep.floor("erasures", 4)


def walk_removes(o, f, P):
    """A complete bottom-up walk from P that removes every entry."""
    for e in o.st.trace:
        if e.a[0] != "loop": continue
        k, last, alts = e.a[2], e.a[3], e.a[6]
        if last.op != "len" or last.a[0].op != "app" or last.a[0].a[0] not in ("walk_entries",): continue
        ents = last.a[0]
        w = ents.a[1]
        d = w.a[3] if w.op == "res" and len(w.a) > 3 else w
        if not occurs(P, w): continue
        fl = set(x for u in subterms(w) if u.op == "flags" for x in u.a)
        if "contents_first=true" not in fl or any(x.split("=")[0] not in ("contents_first", "follow_links", "follow_root_links", "same_file_system", "sort") for x in fl): continue
        cur = at(ents, k)
        good = bool(alts)
        for al in alts:
            g = f.copy()
            for x in al.a[0]: g._add(x)
            if g.decide(IS(cur, "Ok")) is not True: good = False
            rm = [x for x in al.a[1] if x.a[0] in ("remove_file", "remove_dir") and g.decide(IS(x.a[1], "Ok")) is True and x.a[2].op == "app" and x.a[2].a[0] == "entry_path" and x.a[2].a[1] is vfld(cur, "Ok", 0)]
            if not rm: good = False
        if good: return True
    return False


# ---------------------------------------------------------------- C23
def rule_C23(T, rep):
    F = T.F
    n_writes = 0
    for r in op(T, rep, "set_attributes"):
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)
        self_, path = str_args(run)
        b = F["bodies"][r["key"]]
        given = next((a for i, a in enumerate(run.args) if "Map<" in b["locals"][i + 1]["ty"]), None)
        for ev, f, pre, sp in fin(run):
            if ev.a[0] in ST_MUT:
                rep.count("store changes")
                k, w = key_kind(ev.a[2], f, path, self_)
                rep.ob(ev.a[0] == "st_set" and k, "set_attributes:target", f"{r['path']} ({sp}): {ev.a[0]} of {short(ev.a[2], 100)}, which is not the node's document: {w}")
                ex = existence(f, pre, path, self_)
                rep.ob(ex.get(k) is True and (k == "array" or ex.get("array") is False), "set_attributes:which", f"{r['path']} ({sp}): the {k} document is changed without knowing that it is the node's (known: {ex})", f"{k} document changed when {ex}")
                docs = [e for e, _ in events(pre, f) if e.a[0] in ("from_reader", "from_slice", "from_str")]
                src = [g for g, _ in events(pre, f) if g.a[0] == "st_get" and docs and occurs(g.a[1], docs[-1].a[2])]
                rep.ob(bool(src) and key_kind(src[-1].a[2], f, path, self_)[0] == k, "set_attributes:source", f"{r['path']} ({sp}): the document written is not derived from the one stored under the same key")
        for o, f in run.oks():
            evs = list(events(o.st.trace, f))
            docs = [vfld(e.a[1], "Ok", 0) for e, _ in evs if e.a[0] in ("from_reader", "from_slice", "from_str")]
            rep.ob(bool(docs), "set_attributes:unread", f"{r['path']}: succeeds without reading the stored document")
            if not docs: continue
            D = docs[-1]
            ws = [e.a[3] for e, _ in evs if e.a[0] in ("to_writer", "to_writer_pretty") and len(e.a) > 3]
            for w in ws:
                rep.count("documents written")
                why = merged_ok(w, D, given, o, f)
                rep.ob(why is None, "set_attributes:merge:" + str(why)[:60], f"{r['path']}: the document written is not the stored one with the given attributes replaced: {why}", f"written {short(w, 160)}")
            if not ws:
                same = any(x.op == "eq" and D in x.a and all(y is D or merged_ok(y, D, given, o, f) is None for y in x.a) for x in f.true) or \
                    f.decide(EQ(length(app("entries", given)), ZERO, True)) is True
                # Unchanged documents need not be written.
                mm = any(f.decide(EQ(D, y)) is True for y in merged_terms(o, D, given, f))
                rep.ob(same or mm, "set_attributes:dropped", f"{r['path']}: reports success without storing the attributes")
        for o, f in run.errs():
            pass
    rep.floor("documents written", 2)
    # A node without documents is an error.
    for name in ("set_attributes", "list_attributes"):
        for r in op(T, rep, name):
            run = T.run(r, "store", opts=("precise",))
            rep.saw(run)
            self_, path = str_args(run)
            for o, f in run.oks():
                rep.count("successes")
                ex = existence(f, o.st.trace, path, self_)
                rep.ob(any(v is True for v in ex.values()), f"{name}:absent", f"{r['path']}: succeeds for a node not known to exist ({ex})")
                g = [e for e, _ in events(o.st.trace, f) if e.a[0] == "st_get"]
                for e in g:
                    k, w = key_kind(e.a[2], f, path, self_)
                    rep.ob(k is not None and (ex.get(k) is True) and (k == "array" or ex.get("array") is False), f"{name}:document", f"{r['path']}: reads {k or w} where the node's documents are {ex}", f"{name} reads the {k} document")
                if name == "list_attributes":
                    d = doc_of(o.val)
                    v = vfld(o.val, "Ok", 0)
                    docs = [vfld(e.a[1], "Ok", 0) for e, _ in events(o.st.trace, f) if e.a[0] in ("from_reader",)]
                    good = False
                    for D in docs:
                        a = engine_map_get(D)
                        if f.decide(IS(a, "Some")) is False and is_empty_map(v): good = True
                        if f.decide(IS(a, "Some")) is True and v is vfld(vfld(a, "Some", 0), "Object", 0): good = True
                    rep.ob(good, "list_attributes:value", f"{r['path']}: returns {short(v, 120)} instead of the document's attributes", f"returns {short(v, 100)}")
    rep.floor("successes", 4)
    for r in op(T, rep, "set_attribute", floor=False):
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)


def engine_map_get(D): return app("map_get", D, S("attributes"))


def is_empty_map(v): return v.op == "app" and v.a[0] == "map" and all((x.op == "arr" and not x.a) for x in v.a[1:])


def merged_terms(o, D, given, f):
    for x in f.true:
        for u in subterms(x):
            if u.op in ("phi",) or (u.op == "app" and u.a[0] == "map_insert"): yield u


def merged_ok(w, D, given, o, f):
    """None when w is D with its attributes merged with the given ones."""
    if w.op == "app" and w.a[0] == "map_insert":
        base, key, val = w.a[1:4]
        if base is not D: return "it is not based on the stored document: " + short(base, 80)
        if strval(key) != "attributes": return "another field is set: " + short(key, 40)
        old = engine_map_get(D)
        return attrs_ok(val, old, given, o, f)
    if w.op == "phi" or occurs_phi(w):
        for e in o.st.trace:
            if e.a[0] != "loop": continue
            k, last, phis, inits, alts = e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]
            for j, p in enumerate(phis):
                q = subst(p, {k: last})
                if q is not w: continue
                if inits[j] is not D: return "it is not based on the stored document: " + short(inits[j], 80)
                if not (last is length(app("entries", given))): return "not all given attributes are merged"
                ent = at(app("entries", given), k)
                for al in alts:
                    nx = al.a[2][j]
                    if not (nx.op == "app" and nx.a[0] == "map_insert" and nx.a[1] is p and strval(nx.a[2]) == "attributes"): return "the merge changes something else: " + short(nx, 100)
                    old = app("map_get", p, S("attributes"))
                    want = app("map_insert", vfld(vfld(old, "Some", 0), "Object", 0), fld(ent, 0), fld(ent, 1))
                    got = vfld(nx.a[3], "Object", 0)
                    if got is not want: return "an attribute is not replaced by the given value: " + short(got, 120)
                return None
    if w is D: return "the given attributes are not in it"
    return "not understood: " + short(w, 120)


def occurs_phi(w): return anywhere(w, lambda u: u.op == "phi") is not None


def attrs_ok(val, old, given, o, f):
    v = val
    if v.op == "app" and v.a[0] == "json": v = v.a[1]
    if v.op == "adt" and v.a[2] == "Object": v = v.a[4]
    if v.op == "rec" and v.a[0] is vfld(old, "Some", 0) and len(v.a[1]) == 1 and vfld(v, "Object", 0).op == "app": v = vfld(v, "Object", 0)
    if v is given:
        # Only where there are no attributes to keep.
        if f.decide(IS(old, "Some")) is False: return None
        if f.decide(IS(vfld(old, "Some", 0), "Object")) is False: return None
        return "existing attributes are replaced as a whole"
    if v.op == "app" and v.a[0] in ("map_extend", "extended"):
        if v.a[1] is vfld(vfld(old, "Some", 0), "Object", 0) and v.a[2] is given: return None
    # merged in a loop over the existing attributes
    for e in o.st.trace:
        if e.a[0] != "loop": continue
        k, last, phis, inits, alts = e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]
        for j, p in enumerate(phis):
            if subst(p, {k: last}) is v or (v.op == "rec"):
                if v.op == "rec": continue
                okb = inits[j] is vfld(vfld(old, "Some", 0), "Object", 0) or (is_empty_map(inits[j]) and f.decide(IS(old, "Some")) is False)
                if not okb: return "it is not based on the stored attributes: " + short(inits[j], 80)
                if last is not length(app("entries", given)): return "not all given attributes are merged"
                ent = at(app("entries", given), k)
                for al in alts:
                    if al.a[2][j] is not app("map_insert", p, fld(ent, 0), fld(ent, 1)): return "an attribute is not replaced by the given value"
                return None
    return "attributes not understood: " + short(val, 120)


def strval(t): return t.a[0] if t.op == "str" else None


# ---------------------------------------------------------------- C24
READ_OPEN = {"read"}


def rule_C24(T, rep):
    for r in fs_roots(T):
        tr = r.get("impl_trait") or ""
        ro = tr in READERS or (not tr and r["name"] != "open_or_create")
        if not ro: continue
        run = T.run(r, "fs")
        rep.saw(run)
        for ev, f, pre, sp in fin(run):
            n = ev.a[0]
            rep.count("effects")
            if n == "open":
                bad = set(ev.a[3].a) - READ_OPEN
                rep.ob(not bad, f"{r['name']}:open:{sorted(bad)}", f"{r['path']} ({sp}): opens {short(ev.a[2], 80)} with {sorted(bad)}", f"{r['name']}: open read-only")
            elif n in MUTATING or n in ("to_writer", "write_all", "write", "write_file", "callback", "unmodelled", "flush"):
                rep.ob(False, f"{r['name']}:{n}", f"{r['path']} ({sp}): {n} changes the store")
            elif n in ("lock", "try_lock"):
                rep.ob(ev.a[3].a[0] == "sh", f"{r['name']}:lock", f"{r['path']} ({sp}): takes an exclusive lock", f"{r['name']}: shared lock")
            else: rep.ob(True, "", "")
    for r in T.roots:
        tr = r.get("impl_trait") or r.get("trait_default") or ""
        if tr not in READERS or r["name"] in TODO: continue
        if (r.get("impl_self") or "").startswith(rules_fs.FSH): continue
        layer = "nd" if tr.startswith("zarr::ndarray") else "store"
        run = T.run(r, layer)
        rep.saw(run)
        for ev, f, pre, sp in fin(run):
            rep.count("effects")
            n = ev.a[0]
            rep.ob(n not in ST_MUT and n not in MUTATING and n not in ("open", "lock", "to_writer", "callback", "c_write_chunk", "unmodelled") and not (n == "write_all" and ev.a[2].op == "app" and ev.a[2].a[0] == "writer"),
                   f"{r['name']}:{n}", f"{r['path']} ({sp}): a reading operation performs {n}", f"{r['name']}: {n}")
    coords_pure(T, rep)
    rep.floor("effects", 30)


def coords_pure(T, rep):
    """The iterators over chunk positions, at which the analysis of region operations stops, have no effects."""
    for r in T.pick(name=lambda n: n in ("coord_iter", "bounded_coord_iter")) + T.pick(name="next", path=lambda p: p.startswith("<zarr::ndarray")):
        run = T.run(r, "none")
        rep.saw(run)
        bad = [ev for ev, _, _, _ in fin(run) if ev.a[0] not in ("next", "drop")]
        rep.ob(not bad, f"{r['name']}:pure", f"{r['path']}: iterating chunk positions performs {short(bad[0], 120) if bad else ''}", f"{r['name']} has no effects")


# ---------------------------------------------------------------- C27
def live_handles(pre, facts):
    """Files opened and locked, and store values obtained, that are still alive after the events."""
    held = {}
    for e, f in events(pre, facts):
        n = e.a[0]
        if n == "lock" and (f is None or f.decide(IS(e.a[1], "Ok")) is not False):
            for o in opens_in(e.a[2]): held[o] = "locked file"
        elif n == "st_get":
            if f is None or (f.decide(IS(e.a[1], "Ok")) is not False and f.decide(IS(vfld(e.a[1], "Ok", 0), "Some")) is not False): held[e.a[1]] = "reader"
        elif n == "st_set": held[e.a[1]] = "writer"
        elif n == "st_set_end": held.pop(e.a[1], None)
        elif n in ("drop", "unlock"):
            for h in list(held):
                if any(isinstance(x, T_) and occurs(h, x) for x in e.a[1:]): del held[h]
    return held


def consumed(pre, h):
    """Was the reader h handed by value to something that drops it on return?"""
    for e, _ in events(pre):
        if e.a[0] in ("from_reader",) and any(isinstance(x, T_) and occurs(h, x) for x in e.a[2:]): return True
    return False


def loop_events(trace):
    for ev in trace:
        if ev.a[0] == "loop":
            yield ev
            for al in ev.a[-1]: yield from loop_events(al.a[1])


def carried(run):
    """Handles obtained in one iteration of a loop and still alive when the next one starts."""
    seen, out = set(), {}
    for o in run.outs:
        for ev in loop_events(o.st.trace):
            if ev in seen: continue
            seen.add(ev)
            for al in ev.a[-1]:
                f = Facts()
                for x in al.a[0]: f._add(x)
                for h, kind in live_handles(al.a[1], f).items():
                    if not (kind == "reader" and consumed(al.a[1], h)): out.setdefault(h, (ev.a[2], kind))
    return out


def rule_C27(T, rep):
    for r in fs_roots(T):
        run = T.run(r, "fs", opts=("precise",))
        rep.saw(run)
        for ev, f, pre, sp in fin(run):
            if ev.a[0] == "lock":
                rep.count("lock acquisitions")
                held = live_handles(pre, f)
                mine = opens_in(ev.a[2])
                other = [h for h in held]
                rep.ob(not other, f"{r['name']}:nested", f"{r['path']} ({sp}): a lock is waited for while one is held on {[short(h, 60) for h in other]}", f"{r['name']}: no lock held at acquisition")
            if ev.a[0] == "try_lock": rep.count("lock acquisitions")
        for h, (k, kind) in carried(run).items():
            rep.ob(False, f"{r['name']}:carried", f"{r['path']}: {short(h, 60)} ({kind}) of one loop iteration is still held when the next iteration waits for its lock")
    rep.floor("lock acquisitions", 4)
    for r in node_roots(T):
        if r["name"] in TODO: continue
        if (r.get("impl_self") or "").startswith(rules_fs.FSH): continue
        run = T.run(r, "store", opts=("precise",))
        rep.saw(run)
        for ev, f, pre, sp in fin(run):
            if ev.a[0] in CALLS and ev.a[0] not in ("st_uri", "st_exists"):
                rep.count("store calls")
                held = [h for h, k in live_handles(pre, f).items() if not (k == "reader" and consumed(pre, h))]
                rep.ob(not held, f"{r['name']}:{ev.a[0]}", f"{r['path']} ({sp}): {ev.a[0]} is called while {[short(h, 40) for h in held]} is still open and locked", f"{r['name']}: nothing held at {ev.a[0]}")
        for h, (k, kind) in carried(run).items():
            rep.ob(False, f"{r['name']}:carried", f"{r['path']}: {short(h, 60)} ({kind}) of one loop iteration is still held in the next")
    for r in T.roots:
        if not (r.get("trait_default") or "").startswith("zarr::ndarray"): continue
        run = T.run(r, "nd")
        rep.saw(run)
        for ev, f, pre, sp in fin(run):
            if ev.a[0] in ("open", "lock", "st_get", "st_set"): rep.ob(False, f"{r['name']}:{ev.a[0]}", f"{r['path']} ({sp}): {ev.a[0]} bypasses the chunk operations")
    coords_pure(T, rep)
    rep.floor("store calls", 15)
