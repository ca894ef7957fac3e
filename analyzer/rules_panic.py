"""Stored data never makes an operation panic (C26)."""
import re
from rules_meta import *
from rules_grid import elem_types
from rules_nd import contradictions

# Operations that read what is stored, with the layer below which they are cut (other roots cover what is below).
OPERATIONS = (
    ("fs", lambda p: "FilesystemHierarchy" in p and not re.search(r"(Listable|Writeable)Store", p), ()),
    ("store", lambda p: re.search(r"HierarchyReader for |HierarchyReader::|Hierarchy::", p) and "store_chunk_metadata" not in p, ("wf",)),
    ("none", lambda p: re.search(r"serde_core::de::(Visitor|DeserializeSeed|Deserialize)<", p) or re.search(r"zarr::(ArrayMetadata|EntryPointMetadata|GroupMetadata|ChunkGridMetadata|ExtensionMetadata|data_type::ExtensibleDataType|data_type::DataType)::", p) and not p.endswith("::new"), ("wf",)),
)
PER_ELEMENT = (("codec", lambda p: re.search(r"::DefaultChunkReader::|ReadableDataChunk>::", p) or p.endswith(("::check_array_type", "::read_i8_into_wrapper")), ("wf",)),
               ("none", lambda p: re.search(r"ReflectedType::from_fill_value|::get_effective_fill_value", p), ("wf",)))
PARSED = ("from_reader", "from_slice", "from_str")
# get_version and array_exists answer for a malformed document, or parse nothing that is stored under a key.
LOADS = re.compile(r"::(open|open_or_create|get_array_metadata|list_attributes|get_attributes|read_entry_point_metadata)$")


def counter(c):
    """Is the condition about counters that are stepped by constants, and constants, alone? (No loop runs 2^31 times.)"""
    at_ = [u for u in subterms(c) if u.op in ("sym", "fresh", "fld", "vfld", "at", "app", "len", "bv", "sum", "prod")]
    return not at_


def quiet(rep, run, what, where=""):
    for o in run.panics():
        if contradictions(o.st.facts) is None: continue
        rep.ob(False, f"panic:{what}:{re.sub(chr(92) + 'd+', '', panic_of(o))[:80]}", f"{where}{what} may panic: {panic_of(o)} where " + "; ".join(short(x) for x in o.st.facts.true)[-300:])
    for k, l in run.e.maypanic.items():
        for c, st, sp, _ in l:
            okk = "overflow" in k[0] and counter(c) or a_product(k[0], c) or st.facts.decide(c) is True or contradictions(st.facts) is None
            rep.ob(okk, f"panic:{what}:{k[0]}", f"{where}{what} may panic ({sp}): {k[0]}: not shown to hold: {short(c, 200)}", sample=f"{what}: {k[0]} holds: {short(c, 80)}")
    rep.ob(True, "", "", f"{what}: no panic on {len(run.outs)} paths")


def loads(rep, run, what):
    for o, f in run.oks():
        for ev, _ in events(o.st.trace, f):
            if ev.a[0] in PARSED:
                rep.ob(okd(f, ev.a[1]) is True, f"parsed:{what}", f"{what} may succeed although what is stored is not a document of the expected form: {short(ev, 120)}", sample=f"{what}: succeeds only where {short(ev, 80)} is a document")
                rep.count("documents parsed")


def rule_C26(T, rep):
    for layer, pred, opts in OPERATIONS:
        for r in T.roots:
            if not pred(r["path"]): continue
            run = T.run(r, layer, opts=opts)
            rep.saw(run)
            what = r["path"]
            quiet(rep, run, what)
            rep.count("operations")
            if LOADS.search(what): loads(rep, run, what)
    for el in elem_types():
        Te = Tree(facts(elem=el))
        for layer, pred, opts in PER_ELEMENT:
            for r in Te.roots:
                if not pred(r["path"]): continue
                run = Te.run(r, layer, opts=opts)
                rep.saw(run)
                quiet(rep, run, f"{r['path']} <{el}>")
                rep.count("operations per element type")
    # The decoders, with and without their libraries in pure Rust.
    for cfg, Tc, feats in configs(rep, [PURE]):
        run = codec_runs(Tc, CT, "decoder")
        if not rep.ob(run is not None, f"{cfg}:decoder", f"{cfg}: no decoder"): continue
        rep.saw(run)
        for k, l in run.e.maypanic.items():
            for c, st, sp, _ in l:
                rep.ob(st.facts.decide(c) is True, f"{cfg}:decoder:{k[0]}", f"{cfg}: building the decoder ({sp}): {k[0]}: not shown to hold: {short(c, 200)}")
        for o in run.outs:
            if o.tag == "panic":
                rep.ob(no_memory(o.st.facts), f"{cfg}:decoder:panic", f"{cfg}: building a decoder may panic: {panic_of(o)} where {'; '.join(short(x) for x in o.st.facts.true)[-300:]}", sample=f"{cfg}: building a decoder panics only where its library is out of memory")
                continue
            for v, f in alts(run.e.dd(o.st, o.val), o.st.facts):
                rep.count("decoders")
                if v.op == "adt" and local_adt(Tc, v):
                    ps = []
                    check_reader(Tc, Report("C26"), run, v, o.st, "reader", run.args[1], ps)
                    for p in ps:
                        rep.ob(False, f"{cfg}:{v.a[0]}:read", f"{cfg}: {v.a[0]}::read may panic: {panic_of(p)} where {'; '.join(short(x) for x in p.st.facts.true)[-300:]}")
                    rep.ob(True, "", "", f"{cfg}: {v.a[0]}::read does not panic")
                    rep.count("readers of the crate")
    rep.floor("operations", 60)
    rep.floor("operations per element type", 30)
    rep.floor("decoders", 5)
    rep.floor("documents parsed", 3)


def no_memory(f):
    """lz4's Decoder::new only allocates: it reads nothing, and fails only without memory."""
    for x in f.true:
        for u in subterms(x):
            if u.op == "app" and isinstance(u.a[0], str) and re.match(r"call:lz4::.*Decoder.*::new$", u.a[0]) and f.decide(IS(u, "Ok")) is False: return True
    return False
