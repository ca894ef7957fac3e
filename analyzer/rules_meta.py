"""Metadata documents: codecs, names and field tables (C09, C10, C11, C12).

What is written is a term for the document (the calls to the serializer, in order); reading runs the deserializer code of the
tree on that term. Values of a field are handed over as they are when the type written is the type read."""
import re
from rules_store import *


# ---------------------------------------------------------------- documents
def norm(t):
    t = re.sub(r"'[a-z_]+\b", "'_", t)
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("'_ "): t = t[3:]
        if t.startswith("mut "): t = t[4:]
    return t


def ty(t): return mk("ty", norm(t))


def serde_pred(d, rd, f): return d.startswith(("serde_core::ser::", "serde_core::de::", "serde::private::de", "serde::private::ser", "serde_core::private"))


def root_for(e, trait, self_ty, method):
    """The body of an impl's method, by trait and implementing type."""
    self_ty = norm(self_ty)
    for (tr, m), l in e.impls.items():
        if m == method and tr.split("<")[0] == trait:
            for r in l:
                if norm(r.get("impl_self") or "") == self_ty: return r
    return None


def de_err(what): return err(app("de_error", S(what)))


def visit(e, st, vty, method, visitor, arg, fid):
    r = root_for(e, "serde_core::de::Visitor", vty, method)
    if r is None: return [(st, de_err("invalid type"))]
    return e.run(r["key"], [visitor, arg], st, fid + 1)


def read_as(e, st, t, d, fid):
    """Deserialize a document as a type of the crate."""
    r = root_for(e, "serde_core::de::Deserialize", t, "deserialize")
    if r is None: raise AnalysisError("cannot read a document as " + t)
    return e.run(r["key"], [d], st, fid + 1)


def put_access(e, st, doc, n):
    st.nev += 1
    cl = cell(952, st.nev)
    st.mem[cl] = app("d_access", doc, I(n))
    return cl


def serde_handler(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    d0 = c.f["def"]
    targs = c.targs()
    if d0.startswith("serde_core::ser::"):
        if nm == "serialize": return NotImplemented
        if nm == "serialize_struct": return [(st, ok(app("d_struct")))]
        if nm in ("serialize_field", "serialize_element", "serialize_entry"):
            cl, p = e.target(st, a[0])
            k, v = e.dd(st, a[1]), e.dd(st, a[2])
            t = norm(targs[1]) if len(targs) > 1 else ""
            if "AdjacentlyTaggedEnumVariant" in t: v, t = v.a[-1], "variant"
            e.put(st, cl, p, app("d_struct", *e.get(st, cl, p).a[1:], tup(k, v, mk("ty", t))))
            return [(st, ok(UNIT))]
        if nm == "skip_field": return [(st, ok(UNIT))]
        if nm == "end": return [(st, ok(e.dd(st, a[0])))]
        if nm in ("serialize_unit_variant",): return [(st, ok(app("d_str", e.dd(st, a[3]))))]
        if nm in ("serialize_unit_struct", "serialize_unit"): return [(st, ok(app("d_unit")))]
        if nm in ("serialize_str", "collect_str"): return [(st, ok(app("d_str", e.dd(st, a[1]))))]
        raise AnalysisError("serializer call without a model: " + d0)
    if "::Error::" in d0 or nm in ("invalid_value", "invalid_length", "unknown_variant", "unknown_field", "duplicate_field", "custom"):
        return [(st, app("de_error", S(nm)))]
    if nm == "missing_field":
        return [(st, ok(adt(OPT, 0, "None", ())) if targs and targs[0].startswith("core::option::Option") else de_err("missing field"))]
    if nm == "from_utf8_lossy": return NotImplemented
    if d0.startswith("serde_core::de::Deserializer::deserialize_"):
        doc, visitor, vty = e.dd(st, a[0]), a[-1], targs[1] if len(targs) > 1 else ""
        k = doc.a[0] if doc.op == "app" else None
        if k == "d_str":
            if nm == "deserialize_enum": return visit(e, st, vty, "visit_enum", visitor, app("d_enum", doc.a[1]), c.fid)
            if nm in ("deserialize_str", "deserialize_string", "deserialize_identifier", "deserialize_any"): return visit(e, st, vty, "visit_str", visitor, doc.a[1], c.fid)
            return [(st, de_err("invalid type"))]
        if k == "d_struct":
            if nm not in ("deserialize_struct", "deserialize_map", "deserialize_any"): return [(st, de_err("invalid type"))]
            return visit(e, st, vty, "visit_map", visitor, app("d_access", doc, ZERO), c.fid)
        if k == "d_unit":
            if nm not in ("deserialize_unit_struct", "deserialize_unit", "deserialize_any"): return [(st, de_err("invalid type"))]
            r = root_for(e, "serde_core::de::Visitor", vty, "visit_unit")
            if r is None: return [(st, de_err("invalid type"))]
            return e.run(r["key"], [visitor], st, c.fid + 1)
        raise AnalysisError(f"{nm} of {short(doc)}")
    if nm in ("next_key", "next_key_seed"):
        cl, p = e.target(st, a[0])
        acc = e.get(st, cl, p)
        doc, n = acc.a[1], acc.a[2].a[0]
        if n >= len(doc.a) - 1: return [(st, ok(adt(OPT, 0, "None", ())))]
        key = doc.a[1 + n].a[0]
        if nm == "next_key_seed":
            seed = e.dd(st, a[1])
            f = {x: v for x, v in zip(seed.a[3], seed.a[4:])}
            m = re.match(r"(serde_core::private::\w+::|serde::private::de::(content::)?|.*::)?(TagContentOtherField|TagOrContentField)Visitor", targs[1])
            if m is None or "tag" not in f: raise AnalysisError("unknown kind of key: " + targs[1])
            # serde's own enumerations: TagOrContentField {Tag, Content}, TagContentOtherField {Tag, Content, Other}.
            v = "Tag" if key is f["tag"] else "Content" if key is f["content"] else "Other"
            if v == "Other" and m.group(3) == "TagOrContentField": return [(st, de_err("unknown field"))]
            return [(st, ok(some(adt((m.group(1) or "") + m.group(3), ["Tag", "Content", "Other"].index(v), v, ()))))]
        out = []
        for o in read_as(e, st, targs[1], app("d_str", key), c.fid):
            if o.tag != "ret": out.append(o); continue
            r = o.val
            if r.op == "adt" and r.a[2] == "Ok": out.append((o.st, ok(some(r.a[-1]))))
            else: out.append((o.st, r))
        return out
    if nm in ("next_value", "next_value_seed"):
        cl, p = e.target(st, a[0])
        acc = e.get(st, cl, p)
        doc, n = acc.a[1], acc.a[2].a[0]
        _, v, t = doc.a[1 + n].a
        e.put(st, cl, p, app("d_access", doc, I(n + 1)))
        V = norm(targs[1])
        if V.endswith("IgnoredAny"): return [(st, ok(UNIT))]
        if nm == "next_value":
            if V == t.a[0]: return [(st, ok(v))]
            # An optional value of the type.
            if V == f"core::option::Option<{t.a[0]}>": return [(st, ok(some(v)))]
            if t.a[0] == f"core::option::Option<{V}>" and v.op == "adt" and v.a[2] == "Some": return [(st, ok(v.a[-1]))]
            return [(st, de_err(f"{show(doc.a[1 + n].a[0])}: written as {t.a[0]}, read as {V}"))]
        if "AdjacentlyTaggedEnumVariantSeed" in V:
            return read_as(e, st, re.search(r"AdjacentlyTaggedEnumVariantSeed<(.*)>$", V).group(1), app("d_str", v), c.fid)
        if "ContentVisitor" in V: return [(st, ok(app("d_val", v, t)))]
        r = root_for(e, "serde_core::de::DeserializeSeed", V, "deserialize")
        if r is None: raise AnalysisError("unknown seed " + V)
        return e.run(r["key"], [a[1], app("d_val", v, t)], st, c.fid + 1)
    if nm == "variant":
        doc = e.dd(st, a[0])
        out = []
        for o in read_as(e, st, targs[1], app("d_str", doc.a[1]), c.fid):
            if o.tag != "ret": out.append(o); continue
            r = o.val
            if r.op == "adt" and r.a[2] == "Ok": out.append((o.st, ok(tup(r.a[-1], app("d_noval")))))
            else: out.append((o.st, r))
        return out
    if nm == "unit_variant": return [(st, ok(UNIT))]
    if nm == "new":      # content visitors and deserializers hand on the document
        return [(st, e.dd(st, a[0]) if a else app("content_seed"))]
    if nm == "deserialize" and d0 == "serde_core::de::DeserializeSeed::deserialize":
        s = e.dd(st, a[0])
        if s.op == "app" and s.a[0] == "content_seed": return [(st, ok(e.dd(st, a[1])))]
        return NotImplemented
    if nm == "deserialize" and d0 == "serde_core::de::Deserialize::deserialize":
        d = e.dd(st, a[0])
        if d.op == "app" and d.a[0] == "d_val":
            V = norm(targs[0])
            return [(st, ok(d.a[1]) if V == d.a[2].a[0] else de_err(f"written as {d.a[2].a[0]}, read as {V}"))]
        return NotImplemented
    raise AnalysisError("deserializer call without a model: " + d0)


SERDE_LAYER = (serde_pred, serde_handler)


def single_byte(v):
    """Is v a data type of one byte? Its byte order does not matter."""
    sz = dict(zip(v.a[3], v.a[4:])).get("size")
    return sz is not None and sz.op == "adt" and sz.a[2] == "B1"


SINGLE = set()      # enumerations with one variant only


def doc_run(T, r, args):
    """The outcomes of a body on given arguments, over documents."""
    SINGLE.clear()
    SINGLE.update(a["path"] for a in T.F["adts"] if a["enum"] and len(a["variants"]) == 1)
    return Run(T.F, r, [SERDE_LAYER], prep=lambda e, st, a: [x if x is not None else y for x, y in zip(args(e, st) if callable(args) else args, a)], opts=("precise", "concrete"))


def is_value(f, got, want):
    """Is the term got the value want, under the facts?"""
    if got is want or f.same(got, want): return True
    if got.op == "adt" and want.op != "adt":
        # The variant of an enumeration must be known; a structure is named as its only variant.
        enum = got.a[0].split("<")[0].split("::")[-1] != got.a[2] or got.a[0] in SINGLE or f.decide(IS(want, got.a[2])) is not None
        if enum and got.a[0] not in SINGLE and f.decide(IS(want, got.a[2])) is not True: return False
        return all(is_value(f, x, vfld(want, got.a[2], i, n) if enum else fld(want, i, n)) for i, (n, x) in enumerate(zip(got.a[3], got.a[4:]))
                   if not (n == "endian" and single_byte(got)))
    if got.op == "adt" and want.op == "adt":
        return got.a[:3] == want.a[:3] and all(is_value(f, x, y) for x, y in zip(got.a[4:], want.a[4:]))
    return False


# ---------------------------------------------------------------- data types
INTSZ, FLTSZ = ["B1", "B2", "B4", "B8"], ["B2", "B4", "B8"]
DT = "zarr::data_type::DataType"


def dtypes(T):
    """Every data type with its specified name: (value, name, other values the name may be read as)."""
    F = T.F
    def enum(path, name, fields=()):
        a = next((x for x in F["adts"] if x["path"] == path), None)
        if a is None: raise AnalysisError("no type " + path)
        i, v = next((i, v) for i, v in enumerate(a["variants"]) if v["name"] == name)
        want = tuple(x["name"] if isinstance(x, dict) else x for x in v["fields"])
        d = dict(fields)
        return adt(path, i, name, want, *[d[w] for w in want])
    P = "zarr::data_type::"
    out = [(enum(DT, "Bool"), "bool", [])]
    for kind, ch, sizes, szt in (("Int", "i", INTSZ, "IntSize"), ("UInt", "u", INTSZ, "IntSize"), ("Float", "f", FLTSZ, "FloatSize")):
        for sz in sizes:
            vals = {e: enum(DT, kind, dict(size=enum(P + szt, sz), endian=enum(P + "Endian", e))) for e in ("Little", "Big")}
            for e, pre in (("Little", "<"), ("Big", ">")):
                n = ch + sz[1]
                if sz == "B1": out.append((vals[e], n, [vals["Big" if e == "Little" else "Little"]]))
                else: out.append((vals[e], pre + n, []))
    return out, lambda n: enum(DT, "Raw", dict(size=n))


def pinned(f, s):
    """The string that s must be under the facts, if they determine it."""
    for x in f.true:
        if x.op == "eq" and any(y is s for y in x.a[:2]) and any(y.op == "str" for y in x.a[:2]):
            return next(y for y in x.a[:2] if y.op == "str").a[0]
    seqs = ((app("chars", s), CH), (app("bytes", s), lambda c: I(ord(c))), (s, lambda c: I(ord(c))))
    for n in range(1, 8):
        # All characters are ASCII, so that the number of bytes is that of characters.
        if not any(f.decide(EQ(length(q), I(n))) is True for q in (s, seqs[0][0], seqs[1][0])): continue
        out = ""
        for i in range(n):
            c = next((c for c in "<>|=iufbrcool0123456789+-. " if any(f.decide(EQ(at(q, I(i)), val(c))) is True for q, val in seqs)), None)
            if c is None: break
            out += c
        else: return out
    return None


def one_outcome(run):
    outs = [o for o in run.outs]
    return outs[0] if len(outs) == 1 else None


def rule_C11(T, rep):
    ser = root_for(engine(T), "serde_core::ser::Serialize", DT, "serialize")
    de = root_for(engine(T), "serde_core::de::Deserialize", DT, "deserialize")
    if not rep.ob(ser and de, "missing:data type", "the data type is not written or not read"): return
    types, raw = dtypes(T)
    for v, name, alt in types:
        run = doc_run(T, ser, [v, None])
        rep.saw(run)
        o = one_outcome(run)
        got = o.val.a[-1] if o and o.tag == "ret" and o.val.op == "adt" and o.val.a[2] == "Ok" else None
        names = [name] + ([("<" if "Little" in show(v) else ">") + name] if alt else [])
        okk = got is not None and got.op == "app" and got.a[0] == "d_str" and got.a[1].op == "str" and got.a[1].a[0] == name
        rep.ob(okk, f"write:{show(v)[:60]}", lambda: f"{short(v)} is written as {[short(x.val) if x.tag == 'ret' else x.tag for x in run.outs][:4]}, not as '{name}'", sample=f"{short(v)} is written as '{name}'")
        rep.count("data types")
        back(T, rep, de, app("d_str", S(name)), [v] + alt, f"'{name}'", None)
    # Raw types: any whole number of bytes.
    n = mk("sym", "size", "usize")
    TY[n] = "usize"
    run = Run(T.F, ser, [SERDE_LAYER], prep=lambda e, st, a: [st.facts.add(EQ(rem(n, I(8)), ZERO)) and None, raw(n), a[1]][1:], opts=("precise", "concrete"))
    rep.saw(run)
    for o in run.outs:
        want = app("d_str", cat(S("r"), app("dec", n)))
        if not rep.ob(o.tag == "ret" and o.val.op == "adt" and o.val.a[2] == "Ok" and o.val.a[-1] is want, "write:raw", lambda: f"a raw type of n bits is written as {short(o.val) if o.tag == 'ret' else o.tag}, not as r and the number"): continue
        back(T, rep, de, o.val.a[-1], [raw(n)], "'r' and the number of bits", o.st.facts)
    rep.count("data types")
    # Any other string is an error.
    s = mk("sym", "name", "str")
    run = doc_run(T, de, [app("d_str", s)])
    rep.saw(run)
    byname = {}
    for v, name, alt in types: byname.setdefault(name, []).extend([v] + alt)
    for v, name, alt in types:
        if alt: byname[("<" if "Little" in show(v) else ">") + name] = [v] + alt
    total(rep, run, "data type", s)
    for o in run.rets():
        f = o.st.facts
        if f.decide(IS(o.val, "Ok")) is False: continue
        v = fld_ok(o.val)
        if v is None:
            rep.ob(False, "read:unknown", "the data type read cannot be determined: " + short(o.val))
            continue
        p = pinned(f, s)
        if p is not None:
            rep.ob(p in byname and any(v is x for x in byname[p]), f"read:{p}", lambda: f"the string '{p}' is read as {short(v)}", sample=f"'{p}' is read as {short(v)}")
            rep.count("strings read")
            continue
        if v.op == "adt" and v.a[2] == "Raw":
            rest = app("stripped_prefix", s, S("r"))
            num = None
            for u in subterms(v):
                if u.op == "app" and u.a[0] == "parse" and u.a[2] is rest: num = u
            x = v.a[-1]
            okk = f.decide(app("starts_with", s, S("r"))) is True and num is not None and x is vfld(num, "Ok", 0) and f.decide(IS(num, "Ok")) is True and f.decide(EQ(rem(x, I(8)), ZERO)) is True
            rep.ob(okk, "read:raw", lambda: f"a raw type of {short(x)} bits is read where it is not known that the string is 'r' and a multiple of 8: " + "; ".join(short(y) for y in f.true)[:400], sample="a raw type is read only from 'r' and a multiple of 8")
            rep.count("strings read")
            continue
        rep.ob(False, "read:" + show(v)[:40], lambda: f"{short(v)} is read from a string that is not known to be its name: " + "; ".join(short(y) for y in f.true)[:400])
    # Strings near to names.
    for bad in BAD_NAMES:
        run = doc_run(T, de, [app("d_str", S(bad))])
        for o in run.outs:
            rep.ob(o.tag == "ret" and o.val.op == "adt" and o.val.a[2] == "Err", "bad:" + bad, lambda: f"the string '{bad}' is not the name of a data type, but is read as {short(o.val) if o.tag == 'ret' else o.tag}")
        rep.count("malformed names")
    rep.floor("data types", 24)
    rep.floor("strings read", 4)


BAD_NAMES = ["", "r", "r+8", "r-8", "r7", "r4", "r12", "r 8", "r8 ", "R8", "r8.0", "rr8", "r1é", "r99999999999999999999999999999999",
             "Bool", "bool ", "b1", "i8", "u8", "f8", "i4", "<i3", "<f1", ">f1", "=i4", "|i1", "<c8", "<b1", "<I4", "<i16", "<i4 ", " i4", "<", "<i", "é1", "<é", "<ié", "aéb", "é"]


def fld_ok(v):
    return v.a[-1] if v.op == "adt" and v.a[2] == "Ok" else None


def engine(T):
    if not hasattr(T, "meta_engine"): T.meta_engine = Engine(T.F)
    return T.meta_engine


def total(rep, run, what, s):
    for o in run.panics():
        rep.ob(False, f"panic:{what}", f"reading a {what} may panic: {short(o.val) if hasattr(o.val, 'op') else str(o.val)[:200]} where " + "; ".join(short(x) for x in o.st.facts.true)[-300:])
    for k, l in run.e.maypanic.items():
        for c, st, sp, _ in l:
            rep.ob(st.facts.decide(c) is True, f"panic:{what}", f"reading a {what} may panic ({sp}): {k[0]} {short(c)}")


def back(T, rep, de, doc, wants, what, facts0):
    """Reading the document yields one of the values, always."""
    def args(e, st):
        if facts0:
            for x in facts0.true: st.facts.add(x)
        return [doc]
    run = doc_run(T, de, args)
    rep.saw(run)
    for o in run.outs:
        v = fld_ok(o.val) if o.tag == "ret" else None
        rep.ob(v is not None and any(is_value(o.st.facts, v, w) for w in wants), "read back:" + what, lambda: f"{what} is read as {short(o.val) if o.tag == 'ret' else 'a panic: ' + str(o.val)[:100]}, not as {short(wants[0])}", sample=f"{what} is read as {short(wants[0])}")
    rep.ob(bool(run.outs), "read back:" + what, what + ": no outcome")


# ---------------------------------------------------------------- documents of the protocol
DOCS = {      # type -> specified keys
    "zarr::ArrayMetadata": ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value", "extensions", "attributes", "compressor"],
    "zarr::GroupMetadata": ["extensions", "attributes"],
    "zarr::EntryPointMetadata": ["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"],
    "zarr::ChunkGridMetadata": ["type", "chunk_shape", "separator"],
    "zarr::ExtensionMetadata": ["extension", "must_understand", "configuration"],
    "zarr::data_type::ExtensibleDataType": ["extension", "type", "fallback"],
    "zarr::compression::CompressionType": ["codec", "configuration"],
}
FIELD_KEYS = {    # fields whose key is not their name
    ("zarr::ChunkGridMetadata", "grid_type"): "type",
}
TAGS = {"zarr::Order": {"RowMajor": "C", "ColumnMajor": "F"}}


def absent_ok(f, e, st, t, v):
    """May the field with value v of type t be left out?"""
    if t.startswith("core::option::Option"): return f.decide(IS(v, "None")) is True or f.decide(IS(v, "Some")) is False
    return False


def orders(doc):
    """The fields as written, sorted by key (as the maps of serde_json keep them) and reversed."""
    fs = list(doc.a[1:])
    out = [fs, sorted(fs, key=lambda x: show(x.a[0])), fs[::-1]]
    seen = []
    for o in out:
        if o not in seen: seen.append(o)
    return [app("d_struct", *o) for o in seen]


def rule_C12(T, rep):
    e0 = engine(T)
    sers = [r for r in T.roots if r["name"] == "serialize" and (r.get("impl_trait") or "").split("<")[0] == "serde_core::ser::Serialize"]
    for t in list(DOCS) + list(TAGS):
        rep.ob(any(norm(r["impl_self"]) == t for r in sers), "missing:" + t, f"{t} is not written to metadata")
    for r in sers:
        t = norm(r["impl_self"])
        de = root_for(e0, "serde_core::de::Deserialize", t, "deserialize")
        if not rep.ob(de is not None, "missing:read:" + t, f"{t} is written but not read"): continue
        if t == DT: continue      # C11
        run = doc_run(T, r, [None, None])
        rep.saw(run)
        rep.count("types")
        self_v = run.args[0]
        for o in run.outs:
            st = o.st
            val = run.e.dd(st, self_v)
            f = st.facts
            if not rep.ob(o.tag == "ret" and o.val.op == "adt" and o.val.a[2] == "Ok", f"{t}:write", lambda: f"writing {t} fails or panics by itself: {short(o.val) if o.tag == 'ret' else str(o.val)[:200]}"): continue
            doc = o.val.a[-1]
            k = doc.a[0]
            if t in TAGS:
                tag = next((v for v in TAGS[t] if f.decide(IS(val, v)) is True), None)
                rep.ob(k == "d_str" and doc.a[1] is S(TAGS[t].get(tag, "?")), f"{t}:tag:{tag}", lambda: f"{t}::{tag} is written as {short(doc)}, not as '{TAGS[t].get(tag)}'", sample=f"{t}::{tag} is written as {short(doc)}")
            if k == "d_struct":
                keys = [x.a[0].a[0] for x in doc.a[1:]]
                rep.ob(len(set(keys)) == len(keys), f"{t}:twice", f"{t}: a key is written twice: {keys}")
                if t in DOCS:
                    for q in keys: rep.ob(q in DOCS[t], f"{t}:key:{q}", f"{t} is written with the key '{q}', which is not one of {DOCS[t]}", sample=f"{t}: '{q}'")
                    for q in DOCS[t]:
                        if q in keys: continue
                        fv = field_for(T, t, val, q)
                        # A field left out must read back as the same value (below), which only defaults can.
                        rep.ob(q in OPTIONAL.get(t, ()), f"{t}:dropped:{q}", f"{t}: '{q}' may be left out of the document")
                    # Each key holds the field it is for.
                    for x in doc.a[1:]:
                        fv = field_for(T, t, val, x.a[0].a[0])
                        if fv is not None: rep.ob(x.a[1] is fv or f.same(x.a[1], fv), f"{t}:field:{x.a[0].a[0]}", f"{t}: the key '{x.a[0].a[0]}' holds {short(x.a[1])}")
                rep.count("fields", len(keys))
            elif t in DOCS and t not in ("zarr::data_type::ExtensibleDataType",):
                rep.ob(False, f"{t}:kind", f"{t} is written as {short(doc)}, not as an object")
            for d in (orders(doc) if k == "d_struct" else [doc]):
                def args(e, s):
                    for x in f.true: s.facts.add(x)
                    return [d]
                rb = doc_run(T, de, args)
                rep.saw(rb)
                n = 0
                for q in rb.outs:
                    n += 1
                    v = fld_ok(q.val) if q.tag == "ret" else None
                    if t == "zarr::data_type::ExtensibleDataType" and whole_bytes(q.st.facts, val) is False: continue
                    rep.ob(v is not None and is_value(q.st.facts, v, val), f"{t}:read back", lambda: f"{t}: the document {short(d, 300)} is read as {short(q.val, 300) if q.tag == 'ret' else 'a panic: ' + str(q.val)[:100]}", sample=f"{t}: read back from {[show(x.a[0]) for x in d.a[1:]] if k == 'd_struct' else short(d)}")
                rep.ob(n > 0, f"{t}:read back", t + ": no outcome of reading")
                rep.count("documents read")
    rep.floor("types", 12)
    rep.floor("fields", 30)


OPTIONAL = {"zarr::ArrayMetadata": ["compressor"], "zarr::ExtensionMetadata": ["configuration"], "zarr::data_type::ExtensibleDataType": ["fallback"]}


def whole_bytes(f, val):
    """False where the type is a raw one of a number of bits that is not of whole bytes: no such type can be named."""
    core = vfld(val, "Core", 0)
    n = vfld(core, "Raw", 0, "size")
    return f.decide(EQ(rem(n, I(8)), ZERO))


def field_for(T, t, val, key):
    a = next((x for x in T.F["adts"] if x["path"] == t), None)
    if a is None or len(a["variants"]) != 1: return None
    for i, x in enumerate(a["variants"][0]["fields"]):
        n = x["name"] if isinstance(x, dict) else x
        if FIELD_KEYS.get((t, n), n) == key: return fld(val, i, n)
    return None


# ---------------------------------------------------------------- codecs
CT = "zarr::compression::CompressionType"
COMP = "zarr::compression::Compression"
ENC = [(r"bzip2::write::BzEncoder::.*new", "bzip2"), (r"flate2::gz::(write::GzEncoder::.*new|GzBuilder::write)", "gzip"), (r"flate2::(gz::)?write::GzEncoder::.*new", "gzip"),
       (r"flate2::(zlib::)?write::ZlibEncoder::.*new", "zlib"), (r"flate2::(deflate::)?write::DeflateEncoder::.*new", "deflate"), (r"xz2::write::XzEncoder::.*new(_parallel)?", "xz"),
       (r"lz4::encoder::EncoderBuilder::build", "lz4")]
DEC = [(r"bzip2::(bufread|read)::(Multi)?BzDecoder::.*new", "bzip2"), (r"flate2::gz::(bufread|read)::(Multi)?GzDecoder::.*new", "gzip"),
       (r"flate2::(zlib::)?(bufread|read)::ZlibDecoder::.*new", "zlib"), (r"flate2::(deflate::)?(bufread|read)::DeflateDecoder::.*new", "deflate"),
       (r"xz2::(bufread|read)::XzDecoder::.*new(_multi_decoder)?", "xz"), (r"lz4::decoder::Decoder::.*new", "lz4"), (r"lz_fear::framed::decompress::LZ4FrameReader::.*new", "lz4")]
LZ4_SIZES = [1 << 16, 1 << 18, 1 << 20, 1 << 22]


def call_of(t, table):
    """(format, term) of a codec constructor's result."""
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("call:"):
        for pat, fm in table:
            if re.fullmatch(pat, t.a[0][5:]): return fm
    return None


def codec_in(t, table):
    """The codec constructed somewhere in the value t."""
    out = []
    for u in subterms(t):
        fm = call_of(u, table)
        if fm and not any(u is x for _, x in out): out.append((fm, u))
    return out


def stream_of(fm, u, write):
    i = len(u.a) - 1 if u.a[0].endswith(("EncoderBuilder::build",)) else 2 if u.a[0].endswith("GzBuilder::write") else 1
    return through_buf(u.a[i])


def through_buf(t):
    while t.op == "app" and isinstance(t.a[0], str) and re.match(r"call:std::io::buffered::\w+::Buf(Reader|Writer)::<.*>::(new|with_capacity)", t.a[0]): t = t.a[-1]
    return t


def codec_get_size(d, rd, f): return bool(re.match(r"lz4(_sys)?::(liblz4::)?BlockSize::get_size", d))


def m_get_size(e, st, a, c):
    v = e.dd(st, a[0])
    t = {"Default": 1 << 16, "Max64KB": 1 << 16, "Max256KB": 1 << 18, "Max1MB": 1 << 20, "Max4MB": 1 << 22}
    if v.op == "adt" and v.a[2] in t: return [(st, I(t[v.a[2]]))]
    return NotImplemented


CODEC_OPTS = [(codec_get_size, m_get_size)]
CONFIGS = ["", "bzip", "gzip", "gzip_pure", "lz", "lz_pure", "xz", "gzip,gzip_pure", "bzip,filesystem,gzip_pure,lz_pure,use_ndarray,xz", "default,gzip_pure,lz_pure"]
PURE = "bzip,filesystem,gzip_pure,lz_pure,use_ndarray,xz"


def schemes(feats):
    s = {"Raw"}
    fs = set("bzip,filesystem,gzip,lz,use_ndarray,xz".split(",") if feats is None or "default" in feats else []) | set((feats or "").split(","))
    if "bzip" in fs: s.add("Bzip2")
    if fs & {"gzip", "gzip_pure"}: s.add("Gzip")
    if fs & {"lz", "lz_pure"}: s.add("Lz4")
    if "xz" in fs: s.add("Xz")
    return s


def configs(rep, extra):
    """The trees of the feature configurations; one that does not compile while the default does is reported."""
    yield "default features", Tree(facts()), None
    for c in extra:
        try: yield f"features '{c}'", Tree(facts(features=c)), c
        except BuildError as x: rep.violation("build:" + c, f"the crate does not compile with --no-default-features --features '{c}': {str(x)[-300:]}")


def variant_under(f, val, names):
    if val.op == "adt": return val.a[2]
    if len(names) == 1: return names[0]
    return next((n for n in names if f.decide(IS(val, n)) is True), None)


def strip_ok(t):
    """Drops projections to the success of a result."""
    while t.op in ("vfld", "fld") and t.a and isinstance(t.a[0], T_): t = t.a[0]
    return t


def alts(t, f):
    """The values of t with the facts they are for (conditional values split)."""
    u = anywhere(t, lambda u: u.op == "ite")
    if u is None:
        yield t, f
        return
    for c in (u.a[0], NOT_deep(u.a[0])):
        g = f.copy()
        if g.add(c): yield from alts(g.simp(t), g)


def codec_runs(T, self_ty, method):
    r = next((r for r in T.roots if (r.get("impl_trait") or "").split("<")[0] == COMP and r["name"] == method and norm(r["impl_self"]) == self_ty), None)
    if r is None: return None
    return Run(T.F, r, CODEC_OPTS, opts=("precise", "concrete"))


def check_encoder(T, rep, run, v, f, st, key):
    """The format of the stream that an encoder's value writes, or None."""
    stream = run.args[1]
    if through_buf(v) is stream: return "raw"
    cs = codec_in(v, ENC)
    fm = call_of(v, ENC)
    if fm:
        rep.ob(stream_of(fm, v, True) is stream, key + ":stream", f"{run.name}: the encoder does not write to the given stream: {short(v)}")
        return fm
    if v.op == "adt" and local_adt(T, v):
        return check_wrapper(T, rep, run, v, st, f, key, cs, stream)
    if cs and strip_ok(v) is cs[0][1]: 
        # An lz4 encoder without a wrapper is never finished.
        if cs[0][0] == "lz4":
            rep.ob(False, key + ":unfinished", f"{run.name}: the lz4 encoder is not finished when it is dropped")
        return cs[0][0]
    rep.ob(False, key + ":unknown", f"{run.name}: encoder of an unknown format: {short(v)}")
    return None


def local_adt(T, v): return any(a["path"] == v.a[0] for a in T.F["adts"])


def impl_body(T, trait, ty, method):
    for r in T.roots:
        tr = (r.get("impl_trait") or "").split("<")[0]
        if (tr == trait or trait.startswith("io::") and re.search(r"\bio::(\w+::)*" + trait[4:] + "$", tr)) and r["name"] == method and norm(r.get("impl_self") or "").split("<")[0] == ty: return r
    return None


def check_wrapper(T, rep, run, v, st, f, key, cs, stream):
    """A wrapper of the crate around an encoder: two writes and a drop hand everything written to the codec, which is finished."""
    ty = v.a[0]
    w, d, fl = impl_body(T, "io::Write", ty, "write"), impl_body(T, "core::ops::drop::Drop", ty, "drop"), impl_body(T, "io::Write", ty, "flush")
    if not rep.ob(w is not None, key + ":wrapper", f"{ty}: no implementation of Write found"): return None
    inner = cs[0][1] if cs else None
    fmt = cs[0][0] if cs else None
    e = run.e
    cl = cell(953, 1)
    s0 = st.copy()
    s0.mem[cl] = v
    s0.trace = ()
    b = [mk("sym", "buf1", "[u8]"), mk("sym", "buf2", "[u8]")]
    def steps(states, body, args, what):
        out = []
        for s in states:
            if body is None:
                out.append((s, UNIT))
                continue
            for o in e.run(body["key"], args, s, 600):
                if o.tag == "panic":
                    # Failures of the stream below end the writing.
                    rep.ob(io_failure(o.st.facts, T), key + ":panic:" + what, f"{ty}::{what} may panic: {panic_of(o)}")
                    continue
                if o.tag == "ret": out.append((o.st, o.val))
        return out
    states = [s0]
    for i, buf in enumerate(b):
        nxt = []
        s_before = {x for s in states for x, _ in events(s.trace)}
        for s, r in steps(states, w, [ref(cl), buf], "write"):
            evs = [x for x, _ in events(s.trace) if x.a[0] in ("write", "write_all") or str(x.a[0]).startswith("write")]
            new = [x for x in evs if x not in s_before]
            if r.op == "adt" and r.a[2] == "Err":
                continue
            if new:
                x = new[-1]
                okk = len(new) == 1 and inner is not None and any(y is buf for y in x.a[2:]) and any(strip_ok(y) is inner for y in x.a[2:] if isinstance(y, T_))
                rep.ob(okk, key + ":forward", f"{ty}::write does not hand the bytes to the encoder once: {[short(y) for y in new]}")
                rep.ob(is_event_result(r, x), key + ":count", f"{ty}::write does not return what the encoder's write returns: {short(r)}")
            else:
                # Collected: all of it.
                rep.ob(r.op == "adt" and r.a[2] == "Ok" and s.facts.same(r.a[-1], length(buf)), key + ":count", f"{ty}::write keeps the bytes, but returns {short(r)}")
            nxt.append(s)
        states = nxt
    nxt = steps(states, fl, [ref(cl)], "flush")
    n = 0
    for s, _ in [(s, None) for s in states] + nxt:
        for s2, _ in steps([s.copy()], d, [ref(cl)], "drop"):
            n += 1
            ts = [x for x in s2.facts.true] + [x for x in s2.trace]
            fin = [u for x in ts for u in subterms(x) if u.op == "app" and isinstance(u.a[0], str) and u.a[0].startswith("call:")]
            if fmt == "lz4":
                rep.ob(any(u.a[0].endswith("::finish") and strip_ok(u.a[1]) is inner for u in fin), key + ":finish", f"{ty}: the lz4 frame is not finished on drop")
            elif fmt is None:
                cp = [u for u in fin if re.search(r"CompressionSettings::.*compress(_with_size)?$", u.a[0])]
                whole = scat(*b)
                okk = len({u for u in cp}) == 1 and any(u_same(s2.facts, u.a[2], whole) for u in cp) and any(through_buf(u.a[3]) is stream for u in cp)
                rep.ob(okk, key + ":collected", f"{ty}: what was written ({short(whole)}) is not compressed to the stream on drop: {[short(u) for u in cp]}")
                if cp: fmt2 = "lz4"
    rep.ob(n > 0, key + ":drop", f"{ty}: dropping the encoder has no outcome")
    if fmt is None: return "lz4" if n else None
    if stream_of(fmt, inner, True) is not stream: rep.ob(False, key + ":stream", f"{run.name}: the encoder does not write to the given stream")
    return fmt


def u_same(f, x, y): return x is y or f.same(x, y)


def is_event_result(r, ev): return any(u is ev.a[1] for u in subterms(r))


def io_failure(f, T):
    """Does the path assume that a call to a foreign codec or stream failed?"""
    for x in f.true:
        t = x
        neg_ = False
        while t.op == "not": t, neg_ = t.a[0], not neg_
        if t.op == "is" or t.op == "IS":
            pass
        for u in subterms(t):
            if u.op == "app" and isinstance(u.a[0], str) and u.a[0].startswith("call:") and re.match(r"call:(lz4|lz_fear)::", u.a[0]) and f.decide(IS(u, "Ok")) is False: return True
            if u.op in ("vfld", "fld") and f.decide(IS(u, "Ok")) is False and any(y.op == "app" and isinstance(y.a[0], str) and re.match(r"call:(lz4|lz_fear)::", y.a[0]) for y in subterms(u)): return True
    return False


def check_decoder(T, rep, run, v, f, st, key):
    """The format of the stream that a decoder's value reads, or None."""
    stream = run.args[1]
    if through_buf(v) is stream: return "raw"
    if v.op == "adt" and local_adt(T, v): return check_reader(T, rep, run, v, st, key, stream)
    cs = codec_in(v, DEC)
    if len(cs) == 1 and strip_ok(v) is cs[0][1]:
        rep.ob(stream_of(*cs[0], False) is stream, key + ":stream", f"{run.name}: the decoder does not read the given stream: {short(v)}")
        return cs[0][0]
    rep.ob(False, key + ":unknown", f"{run.name}: decoder of an unknown format: {short(v)}")
    return None


def check_reader(T, rep, run, v, st, key, stream, panics=None):
    """A wrapper of the crate around a decoder: every read is one of the same decoder of the stream, or an error."""
    ty = v.a[0]
    r = impl_body(T, "io::Read", ty, "read")
    if not rep.ob(r is not None, key + ":wrapper", f"{ty}: no implementation of Read found"): return None
    e = run.e
    cl = cell(953, 2)
    s0 = st.copy()
    s0.mem[cl] = v
    s0.trace = ()
    states, fmts, decs = [(s0, None)], set(), set()
    for i in range(3):
        nxt = []
        for s, dec0 in states:
            bc = cell(954, i)
            buf = mk("sym", f"buf{i}", "[u8]")
            s = s.copy()
            s.mem[bc] = buf
            n0 = len(s.trace)
            for o in e.run(r["key"], [ref(cl), ref(bc)], s, 600):
                if o.tag == "panic":
                    if panics is not None: panics.append(o)
                    rep.ob(io_failure(o.st.facts, T), key + ":panic:read", f"{ty}::read may panic: {panic_of(o)}")
                    continue
                if o.tag != "ret": continue
                x = o.val
                evs = [ev for ev, _ in events(o.st.trace[n0:]) if ev.a[0].startswith("read") and ev.a[0] != "read_link"]
                if not evs:
                    rep.ob(x.op == "adt" and x.a[2] == "Err" or o.st.facts.decide(IS(x, "Err")) is True, key + ":noread", f"{ty}::read returns {short(x)} without reading")
                    continue
                ev = evs[-1]
                cs = [c for a in ev.a[2:] if isinstance(a, T_) for c in codec_in(a, DEC)]
                okk = len(evs) == 1 and len({c for _, c in cs}) == 1
                if not rep.ob(okk, key + ":forward", f"{ty}::read does not read from the decoder once: {[short(y) for y in evs]}"): continue
                rep.ob(is_event_result(x, ev), key + ":count", f"{ty}::read does not return what the decoder's read returns: {short(x)}")
                rep.ob(dec0 is None or cs[0][1] is dec0, key + ":again", f"{ty}::read opens a second decoder on the stream")
                rep.ob(stream_of(*cs[0], False) is stream, key + ":stream", f"{ty}: the decoder does not read the given stream")
                fmts.add(cs[0][0])
                nxt.append((o.st, cs[0][1]))
        states = nxt
        if not rep.ob(bool(states), key + ":never", f"{ty}::read never reads the stream"): return None
    return fmts.pop() if len(fmts) == 1 else None


FORMATS = {"Raw": "raw", "Bzip2": "bzip2", "Gzip": "gzip", "Lz4": "lz4", "Xz": "xz"}
CODEC_CALLS = r"(new|default|block_size|block_mode|level|checksum|content_checksum|block_checksums|independent_blocks|auto_flush|favor_dec_speed|build|finish|compress|into_read|get_size|write|read|flush|clone|fast|best|from|into|write_all|read_to_end|read_exact|try_finish|drop|by_ref|none)$"


def rule_C09(T0, rep):
    for cfg, T, feats in configs(rep, CONFIGS):
        codecs(T, rep, cfg, schemes(feats))
    rep.floor("schemes", 20)
    rep.floor("names", 20)


def codecs(T, rep, cfg, expected):
    e = engine(T)
    a = next((x for x in T.F["adts"] if x["path"] == CT), None)
    if not rep.ob(a is not None, cfg + ":type", f"{cfg}: no compression schemes"): return
    names = [x["name"] for x in a["variants"]]
    for n in sorted(expected - set(names)): rep.ob(False, f"{cfg}:missing:{n}", f"{cfg}: the scheme {n} is not compiled in")
    enc, dec = codec_runs(T, CT, "encoder"), codec_runs(T, CT, "decoder")
    if not rep.ob(enc and dec, cfg + ":codec", f"{cfg}: encoder or decoder of the compression schemes not found"): return
    for fn in (x for x in T.F["bodies"].values()) if isinstance(T.F["bodies"], dict) else T.F["bodies"]: codec_calls(rep, cfg, fn)
    got = {}
    for run, chk, side in ((enc, check_encoder, "encoder"), (dec, check_decoder, "decoder")):
        rep.saw(run)
        seen = set()
        for o in run.outs:
            val = run.e.dd(o.st, run.args[0])
            n = variant_under(o.st.facts, val, names)
            if o.tag == "panic":
                if n: continue      # C10
                rep.ob(False, f"{cfg}:{side}:panic", f"{cfg}: {side} panics: {panic_of(o)}")
                continue
            if not rep.ob(n is not None, f"{cfg}:{side}:any", f"{cfg}: the {side} does not depend on the scheme: {short(o.val)}"): continue
            seen.add(n)
            for v, f in alts(run.e.dd(o.st, o.val), o.st.facts):
                fm = chk(T, rep, run, v, f, o.st, f"{cfg}:{side}:{n}")
                got.setdefault((n, side), set()).add(fm)
                rep.ob(fm is not None and (n not in FORMATS or fm == FORMATS[n]), f"{cfg}:{side}:{n}:format", f"{cfg}: the {side} of the scheme {n} is for the format {fm}: {short(v)}", sample=f"{cfg}: {side} of {n}: {fm}")
        for n in names: rep.ob(n in seen, f"{cfg}:{side}:{n}:none", f"{cfg}: the scheme {n} has no {side}")
    for n in names:
        rep.ob(got.get((n, "encoder")) == got.get((n, "decoder")) and len(got.get((n, "encoder"), ())) == 1, f"{cfg}:{n}:pair", f"{cfg}: the scheme {n} encodes {got.get((n, 'encoder'))}, but decodes {got.get((n, 'decoder'))}")
        rep.count("schemes")
    # The implementations for the single schemes.
    for r in T.roots:
        if (r.get("impl_trait") or "").split("<")[0] == COMP and r["name"] == "encoder" and norm(r["impl_self"]) != CT:
            t = norm(r["impl_self"])
            fs = {}
            for side, chk in (("encoder", check_encoder), ("decoder", check_decoder)):
                run = codec_runs(T, t, side)
                if run is None: continue
                rep.saw(run)
                fs[side] = {chk(T, rep, run, v, f, o.st, f"{cfg}:{side}:{t}") for o in run.rets() for v, f in alts(run.e.dd(o.st, o.val), o.st.facts)}
            rep.ob(fs.get("encoder") == fs.get("decoder") and len(fs.get("encoder", ())) == 1, f"{cfg}:{t}:pair", f"{cfg}: {t} encodes {fs.get('encoder')}, but decodes {fs.get('decoder')}")
    scheme_names(T, rep, cfg, names)
    identifiers(T, rep, cfg, names)


def codec_calls(rep, cfg, body):
    if not body.get("local", True): return
    for blk in body["blocks"]:
        t = blk.get("t") or {}
        f = t.get("f") or {}
        d = f.get("def") if isinstance(f, dict) else None
        if d and re.match(r"<?(bzip2|flate2|xz2|lz4|lz4_sys|lz_fear)::", d) and not re.search(CODEC_CALLS, re.sub(r"::<.*?>$", "", d)):
            rep.ob(False, f"{cfg}:call:{d}", f"{cfg}: {body.get('path', '?')}: call of {d}, whose effect on the format is not known")


def scheme_names(T, rep, cfg, names):
    """The displayed name of each scheme parses back to it."""
    disp = impl_body(T, "core::fmt::Display", CT, "fmt")
    parse = impl_body(T, "core::str::traits::FromStr", CT, "from_str")
    if not rep.ob(disp and parse, cfg + ":names", f"{cfg}: the schemes are not displayed or not parsed"): return
    cl = cell(951, "fmt")
    def prep(e, st, a):
        st.mem[cl] = S("")
        return [a[0], ref(cl)]
    run = Run(T.F, disp, CODEC_OPTS, prep=prep, opts=("precise", "concrete"))
    rep.saw(run)
    by = {}
    for o in run.outs:
        val = run.e.dd(o.st, run.args[0])
        if not rep.ob(o.tag == "ret" and o.st.facts.decide(IS(o.val, "Ok")) is not False, cfg + ":display", f"{cfg}: displaying a scheme fails: {short(o.val) if o.tag == 'ret' else panic_of(o)}"): continue
        for t, f in alts(o.st.facts.simp(o.st.mem[cl]), o.st.facts):
            n = variant_under(f, val, names)
            if n is None:
                live = [x for x in names if f.decide(IS(val, x)) is not False]
                n = live[0] if len(live) == 1 else None
            if not rep.ob(n is not None and t.op == "str", cfg + ":display", f"{cfg}: the name displayed for a scheme is not determined: {short(t)}"): continue
            by.setdefault(n, set()).add(t.a[0])
    for n in names:
        l = by.get(n, set())
        if not rep.ob(len(l) == 1, f"{cfg}:{n}:display", f"{cfg}: the scheme {n} is displayed as {sorted(l)}"): continue
        s = next(iter(l))
        rep.ob(all(s.lower() not in {y.lower() for y in by[m]} for m in by if m != n), f"{cfg}:{n}:shared", f"{cfg}: the name {s} is that of two schemes")
        for form in (s, s.lower(), s.upper(), s.swapcase()):
            run = Run(T.F, parse, CODEC_OPTS, prep=lambda e, st, a: [S(form)], opts=("precise", "concrete"))
            rep.saw(run)
            for o in run.outs:
                v = fld_ok(o.val) if o.tag == "ret" else None
                rep.ob(v is not None and v.op == "adt" and v.a[2] == n, f"{cfg}:{n}:parse", f"{cfg}: the name '{form}' of the scheme {n} is parsed as {short(o.val) if o.tag == 'ret' else panic_of(o)}", sample=f"{cfg}: '{form}' is parsed as {n}")
            rep.ob(bool(run.outs), f"{cfg}:{n}:parse", "no outcome")
        rep.count("names")


def identifiers(T, rep, cfg, names):
    """The stored scheme is read back, and no two schemes are stored alike."""
    e0 = engine(T)
    r, de = root_for(e0, "serde_core::ser::Serialize", CT, "serialize"), root_for(e0, "serde_core::de::Deserialize", CT, "deserialize")
    if not rep.ob(r and de, cfg + ":stored", f"{cfg}: the schemes are not stored or not read"): return
    run = doc_run(T, r, [None, None])
    rep.saw(run)
    ids = {}
    for o in run.outs:
        val = run.e.dd(o.st, run.args[0])
        f = o.st.facts
        n = variant_under(f, val, names)
        if not rep.ob(o.tag == "ret" and n is not None and fld_ok(o.val) is not None, cfg + ":store", f"{cfg}: storing a scheme: {short(o.val) if o.tag == 'ret' else panic_of(o)}"): continue
        doc = fld_ok(o.val)
        tag = next((x.a[1] for x in doc.a[1:] if isinstance(x, T_) and x.op == "tuple" and x.a[0] is S("codec")), None) if doc.a[0] == "d_struct" else None
        ids.setdefault(show(tag) if tag is not None else show(doc), set()).add(n)
        for d in (orders(doc) if doc.a[0] == "d_struct" else [doc]):
            def args(e, s):
                for x in f.true: s.facts.add(x)
                return [d]
            rb = doc_run(T, de, args)
            rep.saw(rb)
            for q in rb.outs:
                v = fld_ok(q.val) if q.tag == "ret" else None
                rep.ob(v is not None and is_value(q.st.facts, v, val), f"{cfg}:{n}:stored", f"{cfg}: the scheme {n}, stored as {short(d, 200)}, is read as {short(q.val, 200) if q.tag == 'ret' else panic_of(q)}", sample=f"{cfg}: {n} is read from {short(d, 120)}")
            rep.ob(bool(rb.outs), f"{cfg}:{n}:stored", "no outcome")
    for i, l in ids.items(): rep.ob(len(l) == 1, f"{cfg}:id:{i}", f"{cfg}: {sorted(l)} are stored under the same identifier {i}")
    for n in names: rep.ob(any(n in l for l in ids.values()), f"{cfg}:{n}:unstored", f"{cfg}: the scheme {n} is not stored")


# ---------------------------------------------------------------- parameters of codecs
PARAMS = {     # scheme -> (type, field, key, default)
    "Bzip2": ("zarr::compression::bzip::Bzip2Compression", "blockSize", 9),
    "Gzip": ("zarr::compression::gzip::GzipCompression", "level", -1),
    "Lz4": (None, "blockSize", 65536),
    "Xz": ("zarr::compression::xz::XzCompression", "preset", 6),
}


def param_in(v, pats):
    out = []
    for u in subterms(v):
        if u.op == "app" and isinstance(u.a[0], str) and any(re.fullmatch(r"(call|havoc):" + p, u.a[0]) for p in pats): out.append(u)
    return out


def rule_C10(T0, rep):
    for cfg, T, feats in configs(rep, [PURE]):
        a = next((x for x in T.F["adts"] if x["path"] == CT), None)
        names = [x["name"] for x in a["variants"]]
        for side in ("encoder", "decoder"):
            run = codec_runs(T, CT, side)
            if not rep.ob(run is not None, f"{cfg}:{side}", f"{cfg}: no {side}"): continue
            rep.saw(run)
            for o in run.outs:
                val = run.e.dd(o.st, run.args[0])
                n = variant_under(o.st.facts, val, names)
                if o.tag == "panic":
                    rep.ob(io_failure(o.st.facts, T), f"{cfg}:{side}:{n}:panic", f"{cfg}: the {side} of {n} may panic where nothing failed in the stream: {panic_of(o)} where {'; '.join(short(x) for x in o.st.facts.true)[:300]}", sample=f"{cfg}: {side} of {n} panics only where the codec reports a failure of the stream")
                    continue
                if side == "encoder":
                    for v, f in alts(run.e.dd(o.st, o.val), o.st.facts): parameter(T, rep, cfg, run, n, val, v, f)
            for k, l in run.e.maypanic.items():
                for c, st, sp, _ in l:
                    rep.ob(st.facts.decide(c) is True, f"{cfg}:{side}:{k[0]}", f"{cfg}: building the {side} ({sp}): {k[0]}: not shown to hold: {short(c, 200)}")
        absent(T, rep, cfg, names)
    rep.floor("parameters", 10)
    rep.floor("defaults", 8)


def parameter(T, rep, cfg, run, n, val, v, f):
    fields = next((x for x in T.F["adts"] if x["path"] == CT), None)
    payload = next(x for x in fields["variants"] if x["name"] == n)
    if n not in PARAMS: return
    a = next((x for x in T.F["adts"] if PARAMS[n][0] and x["path"] == PARAMS[n][0] or not PARAMS[n][0] and x["path"].endswith("::Lz4Compression")), None)
    if not rep.ob(a is not None and len(a["variants"][0]["fields"]) == 1, f"{cfg}:{n}:fields", f"{cfg}: the parameters of {n} are not the ones the rule knows"): return
    fn = a["variants"][0]["fields"][0]
    fn = fn["name"] if isinstance(fn, dict) else fn
    p = fld(vfld(val, n, 0), 0, fn)
    key = f"{cfg}:{n}"
    rep.count("parameters")

    def in_range(x, lo, hi): return f.decide(le(I(lo), x)) is True and f.decide(le(x, I(hi))) is True
    def kept(x, lo, hi, what):
        """x is p where p is accepted, and accepted anyway."""
        rep.ob(in_range(x, lo, hi), key + ":range", lambda: f"{cfg}: {n}: the {what} {short(x)} passed on is not shown to be in {lo}..={hi}: {'; '.join(short(y) for y in f.true)[:300]}", sample=f"{cfg}: {n}: {what} {short(x)} is in {lo}..={hi}")
        g = f.copy()
        if g.add(le(I(lo), p)) and g.add(le(p, I(hi))):
            rep.ob(g.decide(EQ(x, p)) is True, key + ":kept", lambda: f"{cfg}: {n}: where the {what} is accepted, {short(x)} is passed on instead", sample=f"{cfg}: {n}: an accepted {what} is passed on")
    if n == "Bzip2":
        ps = param_in(v, [r"bzip2::(\w+::)*Compression::new"])
        if not ps and param_in(v, [r"bzip2::(\w+::)*Compression::(fast|best|default)"]) + [u for u in subterms(v) if u.op == "app" and u.a[0] == "default"]:
            g = f.copy()
            rep.ob(not (g.add(le(I(1), p)) and g.add(le(p, I(9)))), key + ":kept", f"{cfg}: {n}: an accepted block size is not passed on")
            return
        if rep.ob(len(ps) == 1, key + ":param", f"{cfg}: {n}: no block size found in {short(v)}"): kept(ps[0].a[1], 1, 9, "block size")
    if n == "Gzip":
        ps = param_in(v, [r"flate2::(\w+::)*Compression::new"])
        if not ps:
            g = f.copy()
            rep.ob(not (g.add(le(ZERO, p)) and g.add(le(p, I(9)))), key + ":kept", f"{cfg}: {n}: an accepted level is not passed on: {short(v)}", sample=f"{cfg}: {n}: the default level only where the level is not accepted")
            return
        if rep.ob(len(ps) == 1, key + ":param", f"{cfg}: {n}: no level found in {short(v)}"): kept(ps[0].a[1], 0, 9, "level")
    if n == "Xz":
        ps = param_in(v, [r"xz2::write::XzEncoder::.*new"])
        if rep.ob(len(ps) == 1, key + ":param", f"{cfg}: {n}: no preset found in {short(v)}"): kept(ps[0].a[2], 0, 9, "preset")
    if n == "Lz4":
        ps = param_in(v, [r"lz4::encoder::EncoderBuilder::block_size", r"lz_fear::.*CompressionSettings::.*block_size"])
        if not rep.ob(len(ps) == 1, key + ":param", f"{cfg}: {n}: no block size found in {short(v)}"): return
        x = ps[0].a[2]
        sz = {"Default": 1 << 16, "Max64KB": 1 << 16, "Max256KB": 1 << 18, "Max1MB": 1 << 20, "Max4MB": 1 << 22}.get(x.a[2]) if x.op == "adt" else x.a[0] if isint(x) else None
        if not rep.ob(sz in LZ4_SIZES, key + ":size", f"{cfg}: {n}: the block size {short(x)} is not one of the format"): return
        i = LZ4_SIZES.index(sz)
        if i < 3: rep.ob(f.decide(le(p, I(sz))) is True, key + ":small", lambda: f"{cfg}: {n}: a block size of {sz} is used where a larger one may be asked for: {'; '.join(short(y) for y in f.true)[:300]}", sample=f"{cfg}: {n}: at most {sz} asked for")
        if i > 0: rep.ob(f.decide(lt(I(LZ4_SIZES[i - 1]), p)) is True, key + ":large", lambda: f"{cfg}: {n}: a block size of {sz} is used where a smaller one suffices: {'; '.join(short(y) for y in f.true)[:300]}", sample=f"{cfg}: {n}: more than {LZ4_SIZES[i - 1]} asked for")


def absent(T, rep, cfg, names):
    """A parameter absent from the metadata takes its default, as does a scheme made anew."""
    e0 = engine(T)
    for n, (t, k, d) in PARAMS.items():
        if n not in names: continue
        t = t or next((x["path"] for x in T.F["adts"] if x["path"].endswith("::Lz4Compression")), "?")
        de = root_for(e0, "serde_core::de::Deserialize", t, "deserialize")
        if not rep.ob(de is not None, f"{cfg}:{n}:read", f"{cfg}: {t} is not read from metadata"): continue
        run = doc_run(T, de, [app("d_struct")])
        rep.saw(run)
        for o in run.outs:
            v = fld_ok(o.val) if o.tag == "ret" else None
            rep.ob(v is not None and v.op == "adt" and len(v.a) == 5 and v.a[4] is I(d), f"{cfg}:{n}:absent", f"{cfg}: {n} without a parameter is read as {short(o.val) if o.tag == 'ret' else panic_of(o)}, not with {d}", sample=f"{cfg}: {n}: absent parameter is {d}")
        rep.ob(bool(run.outs), f"{cfg}:{n}:absent", "no outcome")
        rep.count("defaults")
        # The parameter is read from its key.
        x = mk("sym", "given", "i64")
        ft = field_ty(T, t)
        TY[x] = ft
        run = doc_run(T, de, [app("d_struct", tup(S(k), x, mk("ty", ft)))])
        for o in run.outs:
            v = fld_ok(o.val) if o.tag == "ret" else None
            rep.ob(v is not None and v.op == "adt" and v.a[4] is x, f"{cfg}:{n}:given", f"{cfg}: {n}: the parameter '{k}' is read as {short(o.val) if o.tag == 'ret' else panic_of(o)}")
        df = impl_body(T, "core::default::Default", t, "default")
        if df is not None:
            run = Run(T.F, df, [], opts=("precise",))
            rep.saw(run)
            for o in run.outs:
                rep.ob(o.tag == "ret" and o.val.op == "adt" and len(o.val.a) == 5 and o.val.a[4] is I(d), f"{cfg}:{n}:default", f"{cfg}: the default of {n} is {short(o.val) if o.tag == 'ret' else panic_of(o)}, not {d}")


def field_ty(T, t):
    a = next(x for x in T.F["adts"] if x["path"] == t)
    x = a["variants"][0]["fields"][0]
    return x.get("ty", "i32") if isinstance(x, dict) else "i32"
