"""Rules about the filesystem store (C01, C02, C03, parts of C04, C24, C25, C27)."""
from common import *

FSH = "zarr::store::filesystem::FilesystemHierarchy"
# Events that name a path, and the argument that does.
PATH_EVENTS = {"open": (1,), "exists": (1,), "is_file": (1,), "is_dir": (1,), "is_symlink": (1,), "try_exists": (1,),
               "metadata": (1,), "symlink_metadata": (1,), "read_dir": (1,), "create_dir_all": (1,), "create_dir": (1,),
               "remove_file": (1,), "remove_dir": (1,), "remove_dir_all": (1,), "rename": (1, 2), "copy": (1, 2),
               "hard_link": (1, 2), "write_file": (1,), "read_file": (1,), "walk": (1,), "canonicalize": (1,),
               "set_permissions": (1,), "read_link": (1,), "soft_link": (1, 2), "symlink": (1, 2),
               "read_to_string": (1,), "stat": (1,)}
FS_NAMES = set(PATH_EVENTS) | {"lock", "try_lock", "unlock"}
MUTATING = {"create_dir_all", "create_dir", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "hard_link",
            "set_permissions", "soft_link", "symlink", "file_set_len", "file_set_permissions", "file_set_modified", "file_set_times"}


def fs_roots(T):
    return [r for r in T.roots if (r.get("impl_self") or "").split("<")[0] == FSH and r["public"]
            and r.get("impl_trait") not in ("core::clone::Clone", "core::fmt::Debug", "core::cmp::PartialEq")]


def is_ctor(T, r):
    b = T.F["bodies"][r["key"]]
    return FSH in b["locals"][0]["ty"] and not (b["argc"] and "Filesystem" in b["locals"][1]["ty"])


def base_terms(T, r, run):
    if is_ctor(T, r): return [run.args[0]] if run.args else []
    if not run.args: return []
    a = next((a for a in T.F["adts"] if a["path"] == FSH), None)
    return [fld(run.args[0], i, f["name"]) for i, f in enumerate(a["variants"][0]["fields"]) if "PathBuf" in f["ty"]] if a else []


def is_base(p, bases):
    while p.op == "app" and p.a[0] in ("path", "to_path_buf", "as_ref"): p = p.a[1]
    return p in bases


def const_rel(s):
    """A constant relative path that never climbs above its start."""
    d = 0
    if s.startswith("/"): return False
    for c in s.split("/"):
        if c == "..":
            d -= 1
            if d < 0: return False
        elif c not in ("", "."): d += 1
    return True


def comp_of(t):
    """(P, index) when t is a component of path P."""
    if t.op == "at" and t.a[0].op == "app" and t.a[0].a[0] == "components": return t.a[0].a[1], t.a[1]
    return None


def depth_checked(P, facts, pre):
    """A completed loop over the components of P in which a depth counter never becomes negative."""
    n = length(app("components", P))
    comps = app("components", P)
    for ev in pre:
        if ev.a[0] != "loop": continue
        k, last, phis, inits, alts = ev.a[2], ev.a[3], ev.a[4], ev.a[5], ev.a[6]
        if not alts or not facts.same(last, n): continue
        if not any(occurs(comps, f) for al in alts for f in al.a[0]): continue
        cur = at(comps, k)
        norooted = facts.decide(app("has_root", P)) is False
        for j, (p, ini) in enumerate(zip(phis, inits)):
            for measure in (lambda t: t, length):
                try: m0, mp = measure(ini), measure(p)
                except Exception: continue
                if not (measure is length or p in TY or ini in TY or isint(ini)): continue
                if not isint(m0): continue
                good = bool(alts)
                for al in alts:
                    f = Facts()
                    for x in facts.true: f._add(x) if x.op in ("forall",) else None
                    for x in al.a[0]: f._add(x)
                    m1 = measure(al.a[2][j])
                    kinds = [x for x in ("Normal", "ParentDir", "CurDir", "RootDir", "Prefix") if f.decide(IS(cur, x)) is not False]
                    for x in kinds:
                        if f.decide(IS(cur, x)) is True: kinds = [x]
                    # The counter stays at or above its start after every component.
                    f.add(le(m0, mp)) if f.decide(le(m0, mp)) is None else None
                    for x in al.a[0]:
                        if x.op == "not" and x.a[0].op == "eq0" and occurs(p, x):
                            for t in (x.a[0].a[0], neg(x.a[0].a[0])):
                                if f.prove(t): f.add(ge0(sub(t, ONE)))
                    if not f.prove(sub(m1, m0)): good = False
                    for x in kinds:
                        if x in ("RootDir", "Prefix"):
                            if norooted: continue
                            good = False
                            continue
                        bound = add(mp, {"Normal": ONE, "ParentDir": I(-1), "CurDir": ZERO}[x])
                        if not f.prove(sub(bound, m1)): good = False
                    if not good: break
                if good: return True
    return False


def rel_ok(P, facts, pre):
    s = strval(P)
    if s is not None: return const_rel(s)
    if depth_checked(P, facts, pre) and (facts.decide(app("has_root", P)) is False or rejects_root(P, facts, pre)): return True
    # path + ".json" and the like: same components but the last, which stays a name.
    if P.op == "cat" and strval(P.a[-1]) and not strval(P.a[-1]).startswith("/") and "/" not in strval(P.a[-1]):
        return rel_ok(P.a[0] if len(P.a) == 2 else cat(*P.a[:-1]), facts, pre)
    return False


def strval(t): return t.a[0] if t.op == "str" else None


def rejects_root(P, facts, pre):
    comps = app("components", P)
    n = length(comps)
    for ev in pre:
        if ev.a[0] != "loop" or not facts.same(ev.a[3], n): continue
        okk = bool(ev.a[6])
        for al in ev.a[6]:
            f = Facts()
            for x in al.a[0]: f._add(x)
            cur = at(comps, ev.a[2])
            if not all(f.decide(IS(cur, x)) is False for x in ("RootDir", "Prefix")): okk = False
        if okk: return True
    return False


def entries_root(t):
    """The directory whose walk or listing the entry t comes from, with the flags of the walk."""
    for u in subterms(t):
        if u.op == "res" and u.a[0] in ("walk", "read_dir"): return u
        if u.op == "app" and u.a[0] in ("walkdir", "read_dir"): return u
    return None


def safe(p, facts, pre, bases):
    """None if the path cannot be outside the base directory, else why it might."""
    if is_base(p, bases): return None
    if p.op == "app" and p.a[0] == "join":
        x = p.a[1]
        w = safe(x, facts, pre, bases)
        if w: return w
        for y in p.a[2:]:
            if y.op == "app" and y.a[0] in ("entry_name",): continue
            if not rel_ok(y, facts, pre):
                return f"joined with {short(y)}, not shown to stay below at every component"
        return None
    if p.op == "vfld" and p.a[0].op == "app" and p.a[0].a[0] == "parent":
        return safe(p.a[0].a[1], facts, pre, bases)
    if p.op == "app" and p.a[0] == "entry_path":
        r = entries_root(p)
        if r is None: return "entry of an unknown directory"
        d = r.a[3] if r.op == "res" else r.a[1]
        fl = [x for x in subterms(r) if x.op == "flags"]
        names = set(x for f in fl for x in f.a)
        if "follow_links=true" in names: return "entries of a walk that follows symbolic links"
        d = d if not (d.op == "app" and d.a[0] == "walkdir") else d.a[1]
        return safe(d, facts, pre, bases)
    if p.op == "ite":
        for c, x in ((p.a[0], p.a[1]), (NOT_deep(p.a[0]), p.a[2])):
            f = facts.copy()
            if f.add(c):
                w = safe(x, f, pre, bases)
                if w: return w
        return None
    if p.op == "cat" and strval(p.a[-1]) is not None and "/" not in strval(p.a[-1]):
        return safe(p.a[0], facts, pre, bases) if len(p.a) == 2 else "built from pieces"
    if p.op == "app" and p.a[0] in ("path", "to_path_buf"): return safe(p.a[1], facts, pre, bases)
    return "not derived from the base directory: " + short(p)


# ---------------------------------------------------------------- helpers about files
def opens_in(t):
    return [u for u in subterms(t) if u.op == "res" and u.a[0] == "open"]


def same_file(t, f):
    return any(o in opens_in(f) for o in opens_in(t))


def fin(run):
    """Log entries: (event, facts, events before it, span)."""
    for ev, l in run.e.log.items():
        for f, pre, stk, sp in l: yield ev, f, pre, sp


def is_ok(f, res): return f.decide(IS(res, "Ok")) is True


def lock_held(file, pre, facts):
    """The kind of lock held on `file` after the events `pre`: '', 'sh' or 'ex'."""
    k = ""
    for ev, f in events(pre, facts):
        n = ev.a[0]
        if n == "lock" and same_file(ev.a[2], file) and is_ok(f, ev.a[1]): k = ev.a[3].a[0]
        elif n == "unlock" and same_file(ev.a[2], file): k = ""
        elif n == "drop" and same_file(ev.a[1], file): k = ""
    return k


READS = {"from_reader", "read", "read_exact", "read_to_end", "read_to_string", "read_into", "read_one", "io_copy", "read_vectored"}
WRITES = {"to_writer", "write", "write_all", "write_fmt", "file_set_len", "callback", "write_vectored", "into_inner", "flush", "io_copy"}


def stream_args(ev):
    """Arguments of an event that involve an open file."""
    return [x for x in ev.a[2:] if isinstance(x, T) and opens_in(x)]


def runs_fs(T, rep, **kw):
    for r in fs_roots(T):
        run = T.run(r, "fs", **kw)
        rep.saw(run)
        yield r, run


def is_link_fact(facts, entry, val):
    """Do the facts settle whether a directory entry is a symbolic link?"""
    for f in facts.true:
        neg_ = f.op == "not"
        g = f.a[0] if neg_ else f
        if occurs(entry, g):
            if g.op == "app" and g.a[0] in ("entry_path_is_symlink",) and (not neg_) == val: return True
            if g.op == "app" and "is_symlink" in str(g.a[0]) and (not neg_) == val: return True
            if g.op == "app" and str(g.a[0]).endswith("is_file") and not neg_ and not val: return True
    return False


# ---------------------------------------------------------------- C01
def rule_C01(T, rep):
    for r, run in runs_fs(T, rep):
        bases = base_terms(T, r, run)
        seen = {}
        for ev, f, pre, sp in fin(run):
            n = ev.a[0]
            if n == "unmodelled":
                rep.violation(f"{r['name']}:unmodelled:{ev.a[2].a[0]}", f"{r['path']}: file system operation {ev.a[2].a[0]} ({sp}) is outside the rule")
            if n not in PATH_EVENTS: continue
            for i in PATH_EVENTS[n]:
                if 1 + i >= len(ev.a): continue
                p = ev.a[1 + i]
                if p.op == "app" and p.a[0] == "walkdir": p = p.a[1]
                w = safe(p, f, pre, bases)
                rep.count("paths")
                rep.ob(w is None, f"{r['name']}:{n}:{w}", f"{r['path']} ({sp}): {n} of {short(p)}: {w}", f"{r['name']}: {n} {short(p, 90)}")
        if is_ctor(T, r):
            for o, f in run.oks():
                v = vfld(o.val, "Ok", 0)
                a = next(a for a in T.F["adts"] if a["path"] == FSH)
                got = [fld(v, i, x["name"]) for i, x in enumerate(a["variants"][0]["fields"]) if "PathBuf" in x["ty"]]
                rep.ob(all(is_base(g, bases) for g in got) and got, f"{r['name']}:base", f"{r['path']}: the base directory of the opened hierarchy is not the one given: {[short(g) for g in got]}")
        if r["name"] == "uri":
            for o, f in run.oks():
                ps = [u for u in subterms(o.val) if u.op == "app" and u.a[0] == "join"]
                if not ps:
                    rep.violation("uri:none", f"{r['path']}: the location returned is not a path below the base directory: {short(o.val)}")
                for p in ps:
                    w = safe(p, f, o.st.trace, bases)
                    rep.ob(w is None, f"uri:{w}", f"{r['path']}: location of {short(p)}: {w}")
        if r.get("impl_trait", "") and r["name"] in ("erase_prefix", "erase"):
            removal_links(r, run, rep)
    rep.floor("paths", 15)
    # The generic layers reach files only through the store.
    for r in T.roots:
        if (r.get("impl_trait") or "") in ("zarr::HierarchyReader", "zarr::HierarchyWriter", "zarr::HierarchyLister") or (r.get("trait_default") or "").startswith("zarr::storage::"):
            try: run = T.run(r, "store")
            except AnalysisError: continue
            rep.saw(run)
            for ev, f, pre, sp in fin(run):
                if ev.a[0] in PATH_EVENTS or ev.a[0] in ("lock", "unmodelled"):
                    rep.violation(f"{r['name']}:direct:{ev.a[0]}", f"{r['path']} ({sp}): {ev.a[0]} bypasses the store")


def removal_links(r, run, rep):
    for ev, f, pre, sp in fin(run):
        n = ev.a[0]
        if n == "walk":
            names = set(x for t in ev.a[2:] for u in subterms(t) if u.op == "flags" for x in u.a)
            d = next((u.a[1] for t in ev.a[2:] for u in subterms(t) if u.op == "app" and u.a[0] == "walkdir"), ev.a[2])
            root_ok = "follow_root_links=false" in names or any(
                g.op == "not" and g.a[0].op in ("app", "res") and "symlink" in str(g.a[0].a[0]) and occurs(d, g) for g in f.true)
            rep.ob("follow_links=true" not in names and root_ok, f"{r['name']}:walk-links",
                   f"{r['path']} ({sp}): the walk that removes a prefix follows symbolic links")
        if n in ("open", "file_set_len", "remove_dir") or n in WRITES:
            for t in ev.a[2:]:
                if not isinstance(t, T): continue
                for u in subterms(t):
                    if u.op == "app" and u.a[0] == "entry_path" and n == "open":
                        rep.ob(is_link_fact(f, u.a[1], False), f"{r['name']}:open-link",
                               f"{r['path']} ({sp}): an entry below the prefix is opened without excluding symbolic links")


# ---------------------------------------------------------------- C02
def rule_C02(T, rep):
    for r, run in runs_fs(T, rep):
        key = r["name"]
        for ev, f, pre, sp in fin(run):
            n = ev.a[0]
            at_ = f"{r['path']} ({sp})"
            if n == "open" and "truncate" in ev.a[3].a:
                rep.ob(False, f"{key}:open-truncates", f"{at_}: opening truncates the file before its lock is held")
            if n in ("write_file", "fs_write", "copy", "rename", "hard_link"):
                rep.ob(False, f"{key}:{n}", f"{at_}: {n} changes a stored file without its lock")
            if n in ("read_file",) or (n in ("read_to_string", "fs_read") and not stream_args(ev)):
                rep.ob(False, f"{key}:{n}", f"{at_}: {n} reads a stored file without its lock")
            if n in READS | WRITES:
                for s in stream_args(ev):
                    if n == "callback" and s.op == "sym": continue
                    held = lock_held(s, pre, f)
                    wr = n in WRITES
                    if n in ("flush", "into_inner") and not any(e2.a[0] in WRITES for e2, _ in events(pre)): continue
                    rep.count("accesses")
                    rep.ob(held == "ex" or (held == "sh" and not wr), f"{key}:{n}:{held or 'none'}",
                           f"{at_}: {n} on {short(s, 80)} while holding {'a shared' if held == 'sh' else 'no'} lock on it",
                           f"{key}: {n} under {held}")
            if n == "remove_file":
                p = ev.a[2]
                ent = [u.a[1] for u in subterms(p) if u.op == "app" and u.a[0] == "entry_path"]
                if ent and is_link_fact(f, ent[0], True): continue
                held = ""
                for e2, f2 in events(pre, f):
                    if e2.a[0] == "open" and e2.a[2] is p: held = max(held, lock_held(vfld(e2.a[1], "Ok", 0), pre, f), key=["", "sh", "ex"].index)
                rep.count("accesses")
                rep.ob(held == "ex", f"{key}:remove:{held or 'none'}", f"{at_}: {short(p, 80)} is removed while holding {'a shared' if held == 'sh' else 'no'} lock on it",
                       f"{key}: remove_file under {held}")
            if n == "remove_dir_all":
                rep.ob(False, f"{key}:remove_dir_all", f"{at_}: remove_dir_all removes stored files without their locks")
        for o in run.rets():
            f = o.st.facts
            for ev, f2 in events(o.st.trace, f):
                if ev.a[0] == "lock":
                    if f2.decide(IS(ev.a[1], "Ok")) is not True and f2 is f:
                        rep.ob(f.decide(IS(o.val, "Ok")) is False, f"{key}:lock-error",
                               f"{r['path']}: a failure to take the lock is not returned as an error")
            # A reader handed out keeps its lock.
            if key == "get" and o.val.op == "adt" and opens_in(o.val):
                if f.decide(IS(o.val, "Ok")) is not True: continue
                x = vfld(o.val, "Ok", 0)
                if not [u for u in [x] if opens_in(u)]: continue
                held = lock_held(x, o.st.trace, f)
                rep.count("accesses")
                rep.ob(held != "", f"{key}:returned-unlocked", f"{r['path']}: the reader handed out holds no lock on its file", f"{key}: returned reader under {held}")
    rep.floor("accesses", 6)


# ---------------------------------------------------------------- C03
def rule_C03(T, rep):
    n_ = 0
    for r, run in runs_fs(T, rep):
        key = r["name"]
        bases = base_terms(T, r, run)
        for ev, f, pre, sp in fin(run):
            if ev.a[0] not in ("to_writer", "write", "write_all", "callback", "write_fmt", "io_copy"): continue
            for s in stream_args(ev):
                at_ = f"{r['path']} ({sp})"
                op = opens_in(s)[0]
                fl = set(op.a[4].a)
                if any(x.a[0] in ("to_writer", "write", "write_all", "callback") and any(same_file(y, s) for y in stream_args(x)) for x, _ in events(pre)): continue
                n_ += 1
                rep.count("write starts")
                rep.ob("write" in fl and "create" in fl and not any(x.startswith("maybe_") or x == "unknown" for x in fl), f"{key}:flags", f"{at_}: the file is opened with {sorted(fl)}, which does not create it when absent")
                rep.ob("append" not in fl, f"{key}:append", f"{at_}: the file is opened for appending")
                rep.ob("create_new" not in fl, f"{key}:create_new", f"{at_}: an existing value is not replaced")
                # discard under the lock, before the first byte
                st_ = [x for x, _ in events(pre)]
                cut = [i for i, x in enumerate(st_) if x.a[0] == "file_set_len" and same_file(x.a[2], s) and x.a[3] is ZERO and is_ok(f, x.a[1])]
                lock = [i for i, x in enumerate(st_) if x.a[0] == "lock" and same_file(x.a[2], s) and x.a[3].a[0] == "ex" and is_ok(f, x.a[1])]
                trunc = "truncate" in fl
                rep.ob(not trunc, f"{key}:open-truncates", f"{at_}: the previous content is discarded by opening, before the lock is held")
                rep.ob((cut and lock and lock[0] < cut[0]) or trunc, f"{key}:no-truncate", f"{at_}: the previous content is not discarded (set_len(0) under the exclusive lock) before the first byte is written",
                       f"{key}: set_len(0) after lock before {ev.a[0]}")
                rep.ob(not any(x.a[0] in ("seek", "file_seek") for x in st_), f"{key}:seek", f"{at_}: writing does not start at the beginning of the file")
                late = [x for x in st_ if x.a[0] == "file_set_len" and same_file(x.a[2], s) and x.a[3] is not ZERO]
                rep.ob(not late, f"{key}:length", f"{at_}: the file is given another length than 0 before it is written")
                # missing directories
                p = op.a[3]
                par = app("parent", p)
                okk = f.decide(IS(par, "Some")) is False
                for x in st_:
                    if x.a[0] in ("create_dir_all",) and is_ok(f, x.a[1]) and covers_parent(x.a[2], p, bases): okk = True
                    if x.a[0] in ("exists", "is_dir") and f.decide(x.a[1]) is True and covers_parent(x.a[2], p, bases): okk = True
                rep.ob(okk, f"{key}:parents", f"{at_}: missing parent directories are not created")
        # Nothing shortens the file or removes it after the value was written.
        for o, f in run.oks():
            w = False
            for ev, f2 in events(o.st.trace, f):
                if ev.a[0] in ("to_writer", "callback", "write_all") and stream_args(ev): w = True
                if w and ev.a[0] in ("file_set_len", "remove_file", "rename", "seek", "file_seek"):
                    rep.ob(False, f"{key}:after-write", f"{r['path']}: {ev.a[0]} after the value was written")
            if key == "set":
                cb = [ev for ev, _ in events(o.st.trace) if ev.a[0] == "callback" and stream_args(ev)]
                rep.ob(len(cb) == 1, "set:callback", f"{r['path']}: success without handing the file to the value writer exactly once")
                for ev in cb:
                    p = opens_in(stream_args(ev)[0])[0].a[3]
                    rep.ob(occurs(run.args[1], p), "set:key", f"{r['path']}: the file written does not depend on the key: {short(p)}")
    rep.floor("write starts", 2)
    # All operations on a key use one file.
    paths = {}
    for r, run in runs_fs(T, rep):
        if r["name"] in ("get", "exists", "set", "erase") and r.get("impl_trait", "") and "Store" in r["impl_trait"]:
            for ev, f, pre, sp in fin(run):
                if ev.a[0] in ("open", "is_file", "remove_file", "metadata") or (ev.a[0] == "exists" and r["name"] != "set"):
                    p = ev.a[2]
                    paths.setdefault(alpha(p), []).append(f"{r['name']} ({sp})")
    rep.ob(len(paths) <= 1, "one-file", "operations on the same key use different files: " + "; ".join(f"{short(k, 70)} in {v[0]}" for k, v in paths.items()))


def alpha(t):
    """A term with its loop counters renamed in order of appearance."""
    m = {}
    for u in subterms_ordered(t):
        if u.op == "k" and u not in m: m[u] = sym(f"k_{len(m)}", "usize")
    return subst(t, m)


def subterms_ordered(t):
    out, seen = [], set()

    def go(x):
        if isinstance(x, T):
            if x in seen: return
            seen.add(x)
            out.append(x)
            for y in x.a: go(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(t)
    return out


def covers_parent(d, p, bases):
    """Is directory d the parent directory of file p?"""
    if d.op == "vfld" and d.a[0].op == "app" and d.a[0].a[0] == "parent" and d.a[0].a[1] is p: return True
    if p.op == "app" and p.a[0] == "join" and len(p.a) == 3 and p.a[1] is d:
        s = strval(p.a[2])
        return s is not None and "/" not in s.strip("/")
    return False
