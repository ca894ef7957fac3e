"""Listings of the store and of nodes (C25)."""
from common import *
from models import trim, is_name
import layers

META = "meta/root"
CHS = mk("char", "/")


def name(x): return app("name", S(x))


def listed(v):
    """The elements of a list whose elements are known, or None."""
    if v.op == "arr": return list(v.a)
    if v.op == "scat":
        r = []
        for x in v.a:
            y = listed(x)
            if y is None: return None
            r += y
        return r
    return None


def same(f, x, y): return x is y or f.decide(EQ(x, y)) is True


# ---------------------------------------------------------------- the entries of a directory
def dir_rule(T, rep, r):
    for n in (0, 1, 2):
        def prep(e, st, args, n=n): e.dir_n = n
        run = Run(T.F, r, "fs", prep=prep, opts=("precise",))
        rep.saw(run)
        for o in run.panics(): rep.ob(False, "list_dir:panic", f"list_dir may panic: {short(o.val)}")
        good = 0
        for o, f in run.oks():
            evs = [x for x in o.st.trace]
            v = o.val if o.val.op == "adt" else None
            parts = f.simp(vfld(o.val, "Ok", 0))
            rd = [x for x in evs if x.a[0] == "read_dir"]
            if len(rd) != 1 or parts.op != "tup":
                rep.ob(False, "list_dir:shape", f"list_dir: a successful listing does not come from one reading of the directory: {short(o.val)}")
                continue
            keys, prefixes = (listed(f.simp(x)) for x in parts.a)
            if keys is None or prefixes is None:
                rep.ob(False, "list_dir:shape", f"list_dir: cannot tell what is listed: {short(o.val)}")
                continue
            good += 1
            prefix = run.args[1]
            whole = f.decide(EQ(prefix, S(""))) is True or f.decide(app("ends_with", prefix, S("/"))) is True
            es = [at(app("dir_entries", vfld(rd[0].a[1], "Ok", 0)), I(i)) for i in range(n)]
            rep.ob(len(keys) + len(prefixes) == n, "list_dir:count", f"list_dir returns {len(keys)} keys and {len(prefixes)} prefixes for a directory of {n} entries", sample=f"{n} entries, as many keys and prefixes")
            for x in es:
                rep.ob(f.decide(IS(x, "Ok")) is True, "list_dir:entry-error", "list_dir succeeds although an entry of the directory could not be read", sample="an entry that cannot be read is an error")
                E_ = vfld(x, "Ok", 0)
                nm = vfld(app("into_string", app("entry_name", E_)), "Ok", 0)
                want = [cat(prefix, nm)] if whole else [cat(prefix, S("/"), nm)]
                want += [app("join", w, nm) for w in (prefix, app("path_from", prefix))]
                where = [("key", k) for k in keys if mentions(k, E_)] + [("prefix", k) for k in prefixes if mentions(k, E_)]
                if not rep.ob(len(where) == 1, "list_dir:once", f"list_dir lists an entry {len(where)} times", sample="an entry is listed once"): continue
                kind, k = where[0]
                okk = any(same(f, norm_name(k, E_), w) for w in want)
                rep.ob(okk, "list_dir:key", f"list_dir lists an entry as {short(k)}, which is not the prefix it was given followed by the entry's name (facts: {'; '.join(short(q) for q in f.true)[-200:]})", sample=f"listed as {short(k)}")
                isf, isd = kind_of(evs, f, E_)
                if kind == "key": rep.ob(isf is True or isd is False, "list_dir:file", "list_dir lists an entry as a key that is not known to be a file (links followed)", sample="keys are files")
                else: rep.ob(isd is True or isf is False, "list_dir:dir", "list_dir lists an entry as a prefix that may be a file (links followed)", sample="prefixes are not files")
            for x in evs:
                if x.a[0] in ("metadata", "entry_metadata", "entry_file_type", "symlink_metadata", "read_dir", "open", "canonicalize"):
                    rep.ob(f.decide(IS(x.a[1], "Ok")) is True, "list_dir:error:" + x.a[0], f"list_dir succeeds although {x.a[0]} of an entry failed", sample=f"a failing {x.a[0]} is returned")
        rep.ob(good > 0, f"list_dir:none:{n}", f"list_dir never succeeds for a directory of {n} entries")
        rep.count("directory listings", good)


def mentions(k, x): return occurs(x, k)


def norm_name(k, E_):
    """Other ways to the entry's name as a string."""
    nm = app("entry_name", E_)
    std = vfld(app("into_string", nm), "Ok", 0)
    m = {}
    for u in subterms(k):
        if u.op == "vfld" and u.a[0].op in ("app", "res") and u.a[0] is not std.a[0] and u.a[0].a[0] in ("to_str", "into_string") and occurs(nm, u): m[u] = std
    return subst(k, m) if m else k


def kind_of(evs, f, E_):
    """Is the entry a file, is it a directory, links followed (None: not known)?"""
    isf = isd = None
    p = app("entry_path", E_)

    def note(t):
        nonlocal isf, isd
        a, b = f.decide(app("is_file", t)), f.decide(app("is_dir", t))
        if a is not None: isf = a
        if b is not None: isd = b
    for x in evs:
        if x.a[0] == "metadata" and p in x.a[2:]: note(app("md_type", vfld(x.a[1], "Ok", 0)))
        if x.a[0] in ("is_file", "is_dir") and p in x.a[2:]:
            b = f.decide(x.a[1])
            if b is not None and x.a[0] == "is_file": isf = b
            elif b is not None: isd = b
        if x.a[0] in ("entry_file_type", "entry_metadata") and E_ in x.a[2:]:
            # Links are not followed here: it only counts for what is no link.
            t = vfld(x.a[1], "Ok", 0)
            if x.a[0] == "entry_metadata": t = app("md_type", t)
            if f.decide(app("is_symlink", t)) is False: note(t)
    if isf is True and isd is None: isd = False
    if isd is True and isf is None: isf = False
    return isf, isd


# ---------------------------------------------------------------- nodes of a group
def tree_layer(contents, asked):
    """A store whose directories hold what contents(state, prefix) says: [(state, keys, prefixes)]."""
    pred, base = layers.STORE_LAYER

    def handler(e, st, a, c):
        if c.f["def"].split("::")[-1] != "list_dir": return base(e, st, a, c)
        key = e.dd(st, a[1])
        r = e.result(st, "st_list_dir", key)
        asked.append(key)
        out = []
        s = st.copy()
        if s.assume(IS(r, "Ok")):
            for s2, ks, ps in contents(e, s, key):
                out.append((s2, ok(tup(arr(*ks), arr(*ps)))))
        if st.assume(NOT_deep(IS(r, "Ok"))): out.append((st, err(vfld(r, "Err", 0))))
        return out
    return [(pred, handler), layers.CODEC_LAYER]


A, B_, C_, J = (name(x) for x in "ABCJ")
# What is stored below a group, and the names of its nodes.
SCENES = {
    "nothing": ((), (), ()),
    "an array": ((("array", A),), (), (A,)),
    "an explicit group": ((("group", A),), (), (A,)),
    "an implicit group": ((), (("plain", A),), (A,)),
    "an implicit group listed with a slash": ((), (("slash", A),), (A,)),
    "an explicit group with children, an array, an implicit group": ((("group", A), ("array", B_)), (("plain", C_), ("plain", A)), (A, B_, C_)),
    "an array next to a directory of its name": ((("array", B_), ("array", A)), (("slash", B_),), (A, B_)),
    "files that are not metadata": ((("junk", J), ("array", A), ("ext", J)), (), (A,)),
}


def node_rule(T, rep, r):
    suffix = None
    for what, (ks, ps, want) in SCENES.items():
        def contents(e, st, key, ks=ks, ps=ps):
            suf = field_of(T.F, "EntryPointMetadata", e.entry_meta, "metadata_key_suffix")
            dot = app("starts_with", suf, S("."))
            for c, x in ((dot, app("stripped_prefix", suf, S("."))), (NOT_deep(dot), suf)):
                s = st.copy()
                if not s.assume(c): continue
                base = key if ends_slash(s.facts, key) else cat(key, S("/"))
                end = {k: cat(S("." + k + "."), x) for k in ("array", "group")}
                keys = []
                for k, n in ks:
                    t = cat(base, n, end[k]) if k in end else cat(base, n) if k == "junk" else cat(base, n, S("."), x)
                    if k not in end:
                        for y in end.values(): s.assume(NOT_deep(app("ends_with", t, y)))
                    keys.append(t)
                prefixes = [cat(base, n) if k == "plain" else cat(base, n, S("/")) for k, n in ps]
                yield s, keys, prefixes
        asked = []

        def prep(e, st, args):
            e.entry_meta = entry_meta(T, args[0])
        run = Run(T.F, r, tree_layer(contents, asked), prep=prep, opts=("precise", "concrete"))
        rep.saw(run)
        for o in run.panics():
            rep.ob(False, f"list_nodes:panic:{what}", f"list_nodes may panic for a group with {what}: {short(o.val)}")
        good = 0
        for o, f in run.oks():
            evs = [x for x in o.st.trace if x.a[0] == "st_list_dir"]
            rep.ob(len(evs) == 1 and all(f.decide(IS(x.a[1], "Ok")) is True for x in evs), "list_nodes:error", "list_nodes succeeds although the listing failed", sample="a failing listing is returned")
            for x in evs:
                c = trim(run.args[1], CHS)
                k = trim(x.a[2], CHS)
                root = f.decide(EQ(c, S(""))) is True
                rep.ob(same(f, k, S(META) if root else trim(cat(S(META + "/"), c), CHS)) or same(f, k, trim(cat(S("/" + META + "/"), c), CHS)), "list_nodes:prefix", f"list_nodes lists {short(x.a[2])}, not the metadata of the group", sample=f"lists {short(x.a[2])}")
            v = listed(f.simp(vfld(o.val, "Ok", 0)))
            if v is None:
                rep.ob(False, f"list_nodes:{what}", f"list_nodes: cannot tell the names returned for a group with {what}: {short(o.val)}")
                continue
            good += 1
            for w in want:
                n = sum(same(f, x, w) for x in v)
                rep.ob(n == 1, f"list_nodes:{what}", f"list_nodes, for a group with {what}, returns a node's name {n} times: " + short(arr(*v)), sample=f"{what}: each name once")
            for x in v:
                rep.ob(any(same(f, x, w) for w in want), f"list_nodes:{what}", f"list_nodes, for a group with {what}, returns {short(x)}, which is not a node's name", sample=f"{what}: nothing else")
        rep.ob(good > 0, f"list_nodes:never:{what}", f"list_nodes never succeeds for a group with {what}")
        rep.count("node listings", good)


def ends_slash(f, k):
    return k.op == "str" and k.a[0].endswith("/") or k.op == "cat" and k.a[-1].op == "str" and k.a[-1].a[0].endswith("/")


def entry_meta(T, self_):
    """What get_entry_point_metadata returns for the hierarchy."""
    return field_of(T.F, "FilesystemHierarchy", self_, "entry_point_metadata", "EntryPointMetadata")


# ---------------------------------------------------------------- recursive listing
def tree_rule(T, rep, r, given):
    P = None
    asked = []
    K = [app("name", S("k%d" % i)) for i in range(5)]
    D = [app("name", S("d%d" % i)) for i in range(4)]
    for slash in ("", "/"):
        def contents(e, st, key):
            k = trim(key, CHS)
            d = lambda *xs: [cat(x, S(slash)) for x in xs]
            if k is D[0]: return [(st, [K[2]], [])]
            if k is D[1]: return [(st, [], d(D[2], D[3]))]
            if k is D[2]: return [(st, [K[3], K[4]], [])]
            if k is D[3]: return [(st, [], [])]
            if anywhere(k, is_name): raise AnalysisError("a prefix that was not listed is asked for: " + short(k))
            return [(st, [K[0], K[1]], d(D[0], D[1]))]
        run = Run(T.F, r, tree_layer(contents, asked), opts=("precise", "concrete"))
        rep.saw(run)
        nm = r["path"].split("::")[-1]
        for o in run.panics(): rep.ob(False, nm + ":panic", f"{nm} may panic: {short(o.val)}")
        good = 0
        for o, f in run.oks():
            good += 1
            v = listed(f.simp(vfld(o.val, "Ok", 0)))
            evs = [x for x in o.st.trace if x.a[0] == "st_list_dir"]
            rep.ob(all(f.decide(IS(x.a[1], "Ok")) is True for x in evs), nm + ":error", f"{nm} succeeds although a listing failed", sample=f"{nm}: a failing listing is returned")
            if evs:
                k = evs[0].a[2]
                rep.ob(k is run.args[1] if given else trim(k, CHS) is S(""), nm + ":prefix", f"{nm} starts with {short(k)}", sample=f"{nm} starts with {short(k)}")
            if v is None:
                rep.ob(False, nm + ":keys", f"{nm}: cannot tell the keys returned: {short(o.val)}")
                continue
            rep.ob(len(v) == len(K) and all(sum(x is k for x in v) == 1 for k in K), nm + ":keys", f"{nm}, in a tree of three levels, returns {short(arr(*v))}, not every key once", sample=f"{nm}: every key of three levels once")
        rep.ob(good > 0, nm + ":never", f"{nm} never succeeds")
        rep.count("recursive listings", good)


def rule_C25(T, rep):
    seen = set()
    for r in T.roots:
        nm = r["path"].split("::")[-1]
        if nm == "list_dir" and "FilesystemHierarchy" in r["path"]: dir_rule(T, rep, r)
        elif nm == "list_nodes": node_rule(T, rep, r)
        elif nm in ("list_prefix", "list"): tree_rule(T, rep, r, nm == "list_prefix")
        else: continue
        seen.add(nm)
    for x in ("list_dir", "list_nodes", "list_prefix", "list"): rep.ob(x in seen, "missing:" + x, f"no {x} found")
    rep.floor("directory listings", 3)
    rep.floor("node listings", 8)
