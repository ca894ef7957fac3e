"""Abstract semantics of the library functions the repository calls."""
import re
from terms import *
from engine import *

IT = "core::iter::traits::iterator::Iterator::"


def one(st, v):
    return [(st, v)]


def strval(t):
    return t.a[0] if t.op == "str" else None


# ================================================================ identity-like functions
@model(r".*::(as_ref|as_mut|as_slice|as_mut_slice|as_str|as_mut_str|as_bytes|as_path|as_os_str|borrow|borrow_mut|deref|deref_mut|by_ref|into_boxed_str|into_boxed_slice|as_display|as_mut_os_str)",
       r"alloc::boxed::Box::<T>::(new|pin|into_inner)", r"core::hint::(must_use|black_box)", r"alloc::rc::Rc::<T>::new",
       r"alloc::sync::Arc::<T>::new", r"core::convert::identity", r"alloc::boxed::Box::<T, A>::(leak|into_raw|from_raw)",
       r"core::ptr::.*::(as_ptr|cast)", r"alloc::vec::Vec::<T, A>::(into_boxed_slice|leak)")
def m_ident(e, st, a, c):
    nm = c.f.get("def", "")
    if nm.startswith(("core::option::Option", "core::result::Result", "ndarray::")): return NotImplemented
    if "path::Components" in nm or "thiserror" not in nm and nm.endswith("as_path") and "Components" in nm: return NotImplemented
    return one(st, a[0])


@model(r"std::path::Path::new", r"std::path::PathBuf::(into_os_string|as_path|into_boxed_path)", r"std::path::Path::(to_path_buf|as_os_str|to_string_lossy)",
       r"std::ffi::os_str::(OsStr|OsString)::(new|to_os_string|into_os_string|as_os_str|to_string_lossy)",
       r"alloc::slice::<impl \[T\]>::(to_vec|into_vec|to_owned)", r"alloc::borrow::ToOwned::to_owned", r"alloc::string::ToString::to_string",
       r"alloc::str::<impl str>::(to_owned|into_string|into_boxed_str)", r"<str as alloc::string::ToString>::to_string",
       r"alloc::string::String::(into_bytes|into_boxed_str|as_mut_vec)", r"core::str::<impl str>::(as_bytes|to_string)",
       r"smallvec::SmallVec::<A>::(from_vec|from_slice|into_vec|to_vec|from_buf)", r"alloc::borrow::Cow::<'_, B>::into_owned",
       r"alloc::boxed::box_assume_init_into_vec_unsafe", r"alloc::slice::<impl \[T\]>::into_vec", r"std::convert::identity")
def m_value(e, st, a, c):
    if not a: return one(st, app("uninit"))
    v = e.deref(st, a[0])
    if v.op == "boxmem": v = e.load(st, v)
    if "ToString" in c.f.get("def", "") and not strlike(c.argtys(), 0, c):
        return one(st, disp(e, st, a[0], (c.argtys() or [""])[0], c))
    return one(st, v)


@model(r"alloc::boxed::Box::<T>::new_uninit")
def m_uninit(e, st, a, c):
    e.nbox = getattr(e, "nbox", 0) + 1
    return one(st, mk("boxmem", e.nbox))


@model(r".*core::clone::Clone.*::clone(_from)?", r"core::clone::Clone::clone", r"core::iter::traits::iterator::Iterator::(cloned|copied)", r"core::option::Option::<&T>::(cloned|copied)", r"core::option::Option::<&mut T>::(cloned|copied)")
def m_clone(e, st, a, c):
    d = c.f.get("def", "")
    if d.startswith(IT): return one(st, into_iter(e, st, a[0], c))
    return one(st, e.dd(st, a[0]))


@model(r"core::convert::(Into::into|From::from)", r".*core::convert::From<.*>>::from", r".*core::convert::Into<.*>>::into", r"core::convert::num::<impl core::convert::From<.*")
def m_from(e, st, a, c):
    src = (c.argtys() or [""])[0].replace("&mut ", "").replace("&", "").replace("'{erased} ", "")
    dst = c.dty()
    seqish = lambda t: t.startswith(("alloc::string::String", "str", "std::path::Path", "alloc::vec::Vec", "[", "smallvec::SmallVec", "std::ffi::os_str", "alloc::boxed::Box<[", "alloc::boxed::Box<str", "alloc::borrow::Cow", "std::ffi::OsStr"))
    if src in INTS and dst in INTS: return one(st, settype(e.deref(st, a[0]), src))
    if src == "bool" and dst in INTS: return one(st, ite(e.deref(st, a[0]), ONE, ZERO))
    if src == "char" and dst in ("u32", "u64"): return one(st, e.cordt(e.deref(st, a[0])))
    if src == "u8" and dst == "char": return one(st, app("chr", e.deref(st, a[0])))
    if src == dst: return one(st, a[0])
    if seqish(src) and seqish(dst): return one(st, e.dd(st, a[0]))
    if dst.startswith("core::option::Option"): return one(st, some(a[0]))
    if dst.startswith(("std::io::error::Error", "alloc::boxed::Box<dyn core::error::Error", "std::io::Error")):
        return one(st, app("io_error", e.dd(st, a[0])))
    if dst.startswith("serde_json::value::Value"):
        return one(st, app("json", e.dd(st, a[0])))
    if "From" in c.f.get("def", "") and c.f.get("rcrate") in ("core", "alloc", "std") and c.f.get("body"): return NotImplemented
    if c.f.get("body"): return NotImplemented
    return one(st, app("from:" + dst, e.dd(st, a[0])))


@model(r"core::convert::(TryFrom::try_from|TryInto::try_into)", r".*core::convert::TryFrom<.*>>::try_from")
def m_tryfrom(e, st, a, c):
    import re as _re
    dst = _re.match(r"core::result::Result<([a-z0-9]+),", c.dty())
    src = (c.argtys() or [""])[0]
    if dst and dst.group(1) in INTS and src in INTS:
        v = e.deref(st, a[0])
        lo, hi = range_of_type(dst.group(1))
        if {src, dst.group(1)} <= {"u64", "usize"}: return one(st, ok(v))
        return fork(st, AND(le(I(lo), v), le(v, I(hi))), lambda s: ok(v), lambda s: err(app("TryFromIntError")))
    return NotImplemented


def fork(st, c, f, g):
    """Outcomes for a condition holding and not holding."""
    out = []
    s = st.copy()
    if s.assume(c): out.append((s, f(s)))
    s = st
    if s.assume(NOT_deep(c)): out.append((s, g(s)))
    return out


@model(r"core::default::Default::default", r".*core::default::Default>::default", r"alloc::string::String::new", r"alloc::vec::Vec::<T>::new", r"alloc::vec::Vec::<T(, A)?>::with_capacity(_in)?",
       r"smallvec::SmallVec::<A>::(new|with_capacity)", r"alloc::string::String::with_capacity", r"std::path::PathBuf::new", r"std::ffi::os_str::OsString::new")
def m_default(e, st, a, c):
    t = c.dty()
    if t.startswith(("alloc::vec::Vec", "smallvec::SmallVec")): return one(st, arr())
    if t.startswith(("alloc::string::String", "&str", "std::path::PathBuf", "std::ffi::os_str")): return one(st, S(""))
    if t in INTS: return one(st, ZERO)
    if t == "bool": return one(st, FALSE)
    if t.startswith("core::option::Option"): return one(st, NONE)
    if t == "()": return one(st, UNIT)
    if c.f.get("body"): return NotImplemented
    return one(st, app("default", t))


@model(r"core::mem::size_of", r"core::mem::size_of_val")
def m_sizeof(e, st, a, c):
    t = (c.targs() or ["?"])[0]
    sz = {"bool": 1, "char": 4, "f32": 4, "f64": 8, "half::binary16::f16": 2}
    if t in INTS: return one(st, I((UNSIGNED.get(t) or SIGNED.get(t)) // 8))
    if t in sz: return one(st, I(sz[t]))
    m = re.match(r"\[(.+)\]$", t)
    if m and c.f["def"].endswith("size_of_val"):
        m = m[1].split("; ")[0]
        es = sz.get(m) or ((UNSIGNED.get(m) or SIGNED.get(m)) // 8 if m in INTS else None)
        if es: return one(st, mul(length(e.deref(st, a[0])), I(es)))
    return one(st, settype(app("size_of", t), "usize"))


@model(r"core::mem::(replace)")
def m_replace(e, st, a, c):
    old = e.deref(st, a[0])
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, a[1])
    return one(st, old)


@model(r"core::mem::take")
def m_take(e, st, a, c):
    old = e.deref(st, a[0])
    cl, p = e.target(st, a[0])
    t = c.dty()
    nv = arr() if "Vec" in t else S("") if "String" in t else NONE if "Option" in t else ZERO if t in INTS else app("default", t)
    e.put(st, cl, p, nv)
    return one(st, old)


@model(r"core::mem::swap")
def m_swap(e, st, a, c):
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    for r, v in ((a[0], y), (a[1], x)):
        cl, p = e.target(st, r)
        e.put(st, cl, p, v)
    return one(st, UNIT)


@model(r"core::mem::(drop|forget)")
def m_drop(e, st, a, c):
    if c.f.get("def", "").endswith("forget"): return one(st, UNIT)
    return [(s, UNIT) for s in e.drop_value(st, a[0], (c.argtys() or [""])[0])]


FILEISH = ("fs::File", "BufWriter", "BufReader", "dyn std::io", "Encoder<", "Decoder<", "dyn core::io")


def drop_value(e, st, v, ty):
    """Effects of dropping a value."""
    if v.op == "undef": return [st]
    if v.op == "app" and v.a[0] == "encoder":
        import layers
        layers.codec_drop(e, st, v)
        return [st]
    if v.op == "adt":
        for r in e.impls.get(("core::ops::drop::Drop", "drop"), []):
            if (r.get("impl_self") or "").split("<")[0] == v.a[0]:
                cl = cell(950, "drop" + str(len(e.stack)))
                st = st.copy()
                st.mem[cl] = v
                key = r["key"]
                if key in e.stack: return [st]
                outs = []
                for o in e.run(key, [ref(cl)], st, 400 + len(e.stack)):
                    if o.tag == "ret":
                        o.st.mem.pop(cl, None)
                        outs.append(o.st)
                return outs
    if any(x in ty for x in FILEISH) or has_file(v):
        vv = e.dd(st, v)
        if has_stream(vv): e.event(st, "drop", vv)
    return [st]


def has_file(v):
    return v.op not in ("ref", "clos") and anywhere(v, lambda t: t.op == "res" and t.a[0] == "open" or t.op == "app" and str(t.a[0]) in ("BufWriter", "BufReader")) is not None


def has_stream(v):
    if v.op == "adt" and v.a[0] == RES and v.a[2] == "Err": return False
    if v.op == "adt" and not v.a[4:]: return False
    return True


# ================================================================ comparison
def inty(c, i=0):
    t = (c.argtys() or (c.targs() or [])[:1] * (i == 0) or [""])
    t = t[i] if i < len(t) else ""
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("mut "): t = t[4:]
        if t.startswith("'"): t = t.split(" ", 1)[1]
    return t


@model(r"core::cmp::PartialEq::(eq|ne)", r".*core::cmp::PartialEq.*::(eq|ne)", r"core::cmp::(Ord|PartialOrd)::(lt|le|gt|ge|min|max|cmp|partial_cmp|clamp)", r".*core::cmp::(Ord|PartialOrd).*::(lt|le|gt|ge|cmp|partial_cmp|min|max)", r"core::cmp::(min|max)", r"core::cmp::impls::<impl core::cmp::.*")
def m_cmp(e, st, a, c):
    nm = c.f.get("def", "").split("::")[-1]
    x, y = e.dd(st, a[0]), e.dd(st, a[1])
    ty = inty(c)
    if nm in ("eq", "ne"):
        b = EQ(x, y, ty in INTS)
        return one(st, b if nm == "eq" else NOT_deep(b))
    if ty in INTS or x.op in INT_TERMS or y.op in INT_TERMS:
        if nm in ("lt", "le", "gt", "ge"):
            return one(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[nm])
        if nm == "min": return one(st, imin(x, y))
        if nm == "max": return one(st, imax(x, y))
        if nm == "clamp":
            return one(st, imin(imax(x, y), e.dd(st, a[2])))
        ORD = "core::cmp::Ordering"
        w = (lambda t: some(t)) if nm == "partial_cmp" else (lambda t: t)
        out = []
        for cnd, i, n in ((lt(x, y), 0, "Less"), (EQ(x, y, True), 1, "Equal"), (lt(y, x), 2, "Greater")):
            s = st.copy()
            if s.assume(cnd): out.append((s, w(adt(ORD, i, n, ()))))
        return out
    return one(st, app("cmp_" + nm, x, y))


# ================================================================ arithmetic
@model(r"core::num::<impl ([ui]\w+)>::checked_(add|sub|mul|div|rem|div_ceil|next_multiple_of)")
def m_checked(e, st, a, c):
    nm = c.f["def"].split("checked_")[-1]
    ty = c.f["def"].split("<impl ")[1].split(">")[0]
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    lo, hi = range_of_type(ty)
    if nm in ("div", "rem", "div_ceil"):
        v = {"div": div, "rem": rem, "div_ceil": cdiv}[nm](x, y)
        settype(v, ty)
        return fork(st, EQ(y, ZERO, True), lambda s: NONE, lambda s: some(v))
    if nm not in ("add", "sub", "mul"): return NotImplemented
    v = {"add": add, "sub": sub, "mul": mul}[nm](x, y)
    return fork(st, AND(le(I(lo), v), le(v, I(hi))), lambda s: some(v), lambda s: NONE)


@model(r"core::num::<impl ([ui]\w+)>::(saturating|wrapping|overflowing|unchecked)_(add|sub|mul)")
def m_satur(e, st, a, c):
    kind, nm = c.f["def"].split("::")[-1].split("_")
    ty = c.f["def"].split("<impl ")[1].split(">")[0]
    x, y = e.deref(st, a[0]), e.deref(st, a[1])
    lo, hi = range_of_type(ty)
    v = {"add": add, "sub": sub, "mul": mul}[nm](x, y)
    if kind == "saturating":
        if nm == "sub" and ty in UNSIGNED: return one(st, imax(ZERO, v))
        if ty in UNSIGNED: return one(st, imin(I(hi), v))
        return one(st, imax(I(lo), imin(I(hi), v)))
    if e.fits(st, v, ty) or kind == "unchecked":
        return one(st, v if kind != "overflowing" else tup(v, FALSE))
    w = settype(app("w" + nm, ty, x, y), ty)
    if kind == "overflowing": return one(st, tup(w, NOT_deep(AND(le(I(lo), v), le(v, I(hi))))))
    return one(st, w)


@model(r"core::num::<impl ([ui]\w+)>::(div_ceil|next_multiple_of|abs_diff|pow|min|max|rem_euclid|div_euclid|is_power_of_two|trailing_zeros|leading_zeros|swap_bytes|to_[bl]e|from_[bl]e|count_ones|unsigned_abs)")
def m_num(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    ty = c.f["def"].split("<impl ")[1].split(">")[0]
    x = e.deref(st, a[0])
    if nm == "div_ceil" and ty in UNSIGNED:
        y = e.deref(st, a[1])
        if st.facts.decide(EQ(y, ZERO, True)) is not False:
            e.note_panic("div", c.key, "div_ceil by zero", NOT_deep(EQ(y, ZERO, True)), st.copy(), c.sp)
        return one(st, settype(cdiv(x, y), ty))
    if nm in ("rem_euclid", "div_euclid") and ty in UNSIGNED:
        return one(st, (rem if nm[0] == "r" else div)(x, e.deref(st, a[1])))
    if nm == "abs_diff":
        y = e.deref(st, a[1])
        return one(st, sub(imax(x, y), imin(x, y)))
    if nm == "pow" and len(a) > 1:
        y = e.deref(st, a[1])
        if isint(y) and y.a[0] <= 4:
            r = ONE
            for _ in range(y.a[0]): r = mul(r, x)
            return one(st, r)
    v = app(nm, ty, *[e.dd(st, z) for z in a])
    if nm in ("pow", "swap_bytes", "to_be", "to_le", "from_be", "from_le", "next_multiple_of") or nm.startswith("from_"): settype(v, ty)
    if nm in ("trailing_zeros", "leading_zeros", "count_ones"): settype(v, "u32")
    return one(st, v)


@model(r"core::ops::arith::(Add|Sub|Mul|Div|Rem)::(add|sub|mul|div|rem)", r".*core::ops::arith::(Add|Sub|Mul|Div|Rem).*>::(add|sub|mul|div|rem)")
def m_arith(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    ty = inty(c)
    x, y = e.dd(st, a[0]), e.dd(st, a[1])
    if ty not in INTS:
        if ty.startswith("alloc::string::String"): return one(st, cat(x, y))
        return NotImplemented
    lo, hi = range_of_type(ty)
    if nm in ("div", "rem"):
        cnd = NOT_deep(EQ(y, ZERO, True))
        chk(e, st, c, "div", cnd)
        return one(st, settype(div(x, y), ty) if nm == "div" else rem(x, y))
    v = {"add": add, "sub": sub, "mul": mul}[nm](x, y)
    chk(e, st, c, "overflow", AND(le(I(lo), v), le(v, I(hi))))
    return one(st, v)


@model(r"core::ops::arith::(Add|Sub|Mul)Assign::(add|sub|mul)_assign", r".*core::ops::arith::(Add|Sub|Mul)Assign.*>::(add|sub|mul)_assign")
def m_arithassign(e, st, a, c):
    nm = c.f["def"].split("::")[-1].split("_")[0]
    ty = inty(c)
    x, y = e.dd(st, a[0]), e.dd(st, a[1])
    if ty.startswith("alloc::string::String"): v = cat(x, y)
    elif ty in INTS:
        lo, hi = range_of_type(ty)
        v = {"add": add, "sub": sub, "mul": mul}[nm](x, y)
        chk(e, st, c, "overflow", AND(le(I(lo), v), le(v, I(hi))))
    else: return NotImplemented
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, v)
    return one(st, UNIT)


def chk(e, st, c, kind, cond):
    """A condition whose failure panics."""
    if st.facts.decide(cond) is True: return True
    e.note_panic(kind, c.key, (c.f.get("def") or "") + " " + show(cond)[:160], cond, st.copy(), c.sp)
    st.assume(cond)
    return True


# ================================================================ options and results (the rest is inlined)
@model(r"core::option::Option::<T>::(is_some|is_none)", r"core::result::Result::<T, E>::(is_ok|is_err)")
def m_isv(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    v = e.deref(st, a[0])
    b = IS(v, "Some" if nm in ("is_some", "is_none") else "Ok")
    return one(st, b if nm in ("is_some", "is_ok") else NOT_deep(b))


# ================================================================ strings
def trim(s, ch, start=True, end=True):
    x = strval(s)
    cs = ch.a[0] if ch.op in ("char", "str") else None
    if cs and len(cs) == 1:
        if x is not None:
            if start: x = x.lstrip(cs)
            if end: x = x.rstrip(cs)
            return S(x)
        if cs == "/" and is_name(s): return s
        if s.op == "cat":
            l = list(s.a)
            while start and l and l[0].op == "str":
                y = l[0].a[0].lstrip(cs)
                if y:
                    l[0] = S(y); start = False
                    break
                l.pop(0)
            while end and l and l[-1].op == "str":
                y = l[-1].a[0].rstrip(cs)
                if y:
                    l[-1] = S(y); end = False
                    break
                l.pop()
            if start and l and is_name(l[0]) and cs == "/": start = False
            if end and l and is_name(l[-1]) and cs == "/": end = False
            if not start and not end: return cat(*l)
            s2 = cat(*l)
            if s2 is not s: return trim(s2, ch, start, end)
    if s.op == "app" and s.a[0] == "trim" and s.a[2] is ch:
        o = s.a[3].a[0]
        start = start or "s" in o; end = end or "e" in o
        s = s.a[1]
    if not start and not end: return s
    return app("trim", s, ch, S(("s" if start else "") + ("e" if end else "")))


def is_name(t):
    """A file name: not empty and without a slash."""
    return t.op == "app" and t.a[0] == "name"


def sparts(s): return list(s.a) if s.op == "cat" else [s] if not (s.op == "str" and not s.a[0]) else []


def ends(s, p, front=False):
    """Does the string s end (start) with p?  True, False, or None if not known."""
    d = -1 if not front else 0
    xs, ys = sparts(s), sparts(p)
    while ys:
        if not xs: return False if any(y.op == "str" or is_name(y) for y in ys) else None
        x, y = xs[d], ys[d]
        if x is y:
            xs.pop(d); ys.pop(d)
        elif x.op == "str" and y.op == "str":
            a, b = x.a[0], y.a[0]
            n = min(len(a), len(b))
            if (a[:n] != b[:n]) if front else (a[len(a) - n:] != b[len(b) - n:]): return False
            cut = (lambda q: q[n:]) if front else (lambda q: q[:len(q) - n])
            for l, q in ((xs, a), (ys, b)):
                if len(q) == n: l.pop(d)
                else: l[d] = S(cut(q))
        elif is_name(x) and y.op == "str" and y.a[0][d] == "/": return False
        elif is_name(x) and is_name(y) and len(xs) > 1 and len(ys) > 1 and all(l[-2 if d else 1].op == "str" and l[-2 if d else 1].a[0][d if not d else -1] == "/" for l in (xs, ys)): return False
        else: return None
    return True


def substr(s, lo, hi):
    """Bytes lo..hi of a string, by whole parts where the bounds fall on them."""
    xs = sparts(s)
    nonneg = lambda p: all(c >= 0 for c in poly(p).values())
    cuts = []
    for d, n in ((-1, sub(length(s), hi)), (0, lo)):
        while xs and n is not ZERO:
            x = xs[d]
            l = length(x)
            r = sub(n, l)
            if nonneg(r):
                xs.pop(d)
                n = r
            elif x.op == "str" and isint(n) and n.a[0] > 0 and x.a[0].isascii():
                xs[d] = S(x.a[0][n.a[0]:] if d == 0 else x.a[0][:-n.a[0]])
                n = ZERO
            else: return app("substr", s, lo, hi)
        if n is not ZERO: return app("substr", s, lo, hi)
    return cat(*xs)


@model(r"core::str::<impl str>::(trim_start_matches|trim_end_matches|trim_matches)")
def m_trim(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s, p = e.dd(st, a[0]), e.dd(st, a[1])
    if p.op == "clos": return one(st, app(nm, s, p))
    if p.op == "str" and len(p.a[0]) == 1: p = CH(p.a[0])
    return one(st, trim(s, p, nm != "trim_end_matches", nm != "trim_start_matches"))


@model(r"core::str::<impl str>::(starts_with|ends_with|contains)")
def m_sw(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s, p = e.dd(st, a[0]), e.dd(st, a[1])
    if p.op == "char": p = S(p.a[0])
    if p.op == "clos": return one(st, app(nm, s, p))
    if s.op == "str" and p.op == "str":
        return one(st, B({"starts_with": s.a[0].startswith, "ends_with": s.a[0].endswith, "contains": lambda q: q in s.a[0]}[nm](p.a[0])))
    if nm != "contains" and anywhere(s, is_name):
        r = ends(s, p, nm == "starts_with")
        if r is not None: return one(st, B(r))
    if s.op == "cat" and p.op == "str":
        h = s.a[0] if nm == "starts_with" else s.a[-1] if nm == "ends_with" else None
        if h is not None and h.op == "str" and len(h.a[0]) >= len(p.a[0]):
            return one(st, B(h.a[0].startswith(p.a[0]) if nm == "starts_with" else h.a[0].endswith(p.a[0])))
    return one(st, app(nm, s, p))


@model(r"core::str::<impl str>::is_empty", r"alloc::string::String::is_empty")
def m_sempty(e, st, a, c): 
    s = e.dd(st, a[0])
    if s.op == "cat" and any(x.op == "str" and x.a[0] for x in s.a): return one(st, FALSE)
    return one(st, EQ(s, S("")))


@model(r"core::str::<impl str>::len", r"alloc::string::String::len", r"std::ffi::os_str::OsStr::len")
def m_slen(e, st, a, c): return one(st, length(e.dd(st, a[0])))


@model(r"alloc::string::String::push_str", r"alloc::string::String::push", r"std::ffi::os_str::OsString::push", r"core::fmt::Write::(write_str|write_char)", r".*core::fmt::Write>::(write_str|write_char)")
def m_push_str(e, st, a, c):
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, cat(e.dd(st, a[0]), e.dd(st, a[1])))
    return one(st, ok(UNIT) if "write_" in c.f["def"] else UNIT)


@model(r"alloc::string::String::insert(_str)?")
def m_insert_str(e, st, a, c):
    cl, p = e.target(st, a[0])
    i = e.deref(st, a[1])
    s, x = e.dd(st, a[0]), e.dd(st, a[2])
    if i is ZERO: v = cat(x, s)
    elif i is length(s): v = cat(s, x)
    else: v = app("insert_str", s, i, x)
    e.put(st, cl, p, v)
    return one(st, UNIT)


@model(r"alloc::string::String::(truncate|clear|pop|drain|retain)")
def m_strmut(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    old = e.dd(st, a[0])
    vals = [e.dd(st, x) for x in a]
    v = S("") if nm == "clear" else app("str_" + nm, *vals)
    if nm == "drain" and vals[1].op == "adt" and vals[1].a[0].endswith("RangeTo"):
        v = substr(old, vals[1].a[4], length(old))
    if nm == "truncate": v = substr(old, ZERO, vals[1])
    e.put(st, cl, p, v)
    return one(st, app("str_" + nm + "_r", *vals) if nm != "clear" else UNIT)


@model(r"core::str::<impl str>::(to_ascii_lowercase|to_lowercase|to_ascii_uppercase|to_uppercase)", r"alloc::str::<impl str>::(to_ascii_lowercase|to_lowercase|to_ascii_uppercase|to_uppercase|repeat|replace)")
def m_case(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = e.dd(st, a[0])
    if s.op == "str" and nm.startswith("to_"):
        return one(st, S(s.a[0].lower() if "lower" in nm else s.a[0].upper()))
    return one(st, app(nm.replace("ascii_", ""), *[e.dd(st, x) for x in a]))


@model(r"core::str::<impl str>::eq_ignore_ascii_case")
def m_eqic(e, st, a, c):
    x, y = e.dd(st, a[0]), e.dd(st, a[1])
    f = lambda s: S(s.a[0].lower()) if s.op == "str" else app("to_lowercase", s)
    return one(st, EQ(f(x), f(y)))


@model(r"core::str::<impl str>::(strip_prefix|strip_suffix)")
def m_strip(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s, p = e.dd(st, a[0]), e.dd(st, a[1])
    if p.op == "char": p = S(p.a[0])
    if s.op == "str" and p.op == "str":
        x, q = s.a[0], p.a[0]
        if nm == "strip_prefix": return one(st, some(S(x[len(q):])) if x.startswith(q) else NONE)
        return one(st, some(S(x[:len(x) - len(q)])) if x.endswith(q) else NONE)
    if s.op == "cat" and p.op == "str":
        h = s.a[0] if nm == "strip_prefix" else s.a[-1]
        if h.op == "str" and len(h.a[0]) >= len(p.a[0]):
            if nm == "strip_prefix":
                return one(st, some(cat(S(h.a[0][len(p.a[0]):]), *s.a[1:])) if h.a[0].startswith(p.a[0]) else NONE)
            return one(st, some(cat(*s.a[:-1], S(h.a[0][:len(h.a[0]) - len(p.a[0])]))) if h.a[0].endswith(p.a[0]) else NONE)
    if anywhere(s, is_name):
        r = ends(s, p, nm == "strip_prefix")
        if r is False: return one(st, NONE)
        if r:
            x = substr(s, length(p), length(s)) if nm == "strip_prefix" else substr(s, ZERO, sub(length(s), length(p)))
            return one(st, some(x))
    v = app(nm, s, p)
    return fork(st, app("starts_with" if nm == "strip_prefix" else "ends_with", s, p), lambda q: some(app("stripped_" + nm[6:], s, p)), lambda q: NONE)


@model(r"core::str::<impl str>::(chars|bytes|char_indices|split|rsplit|splitn|rsplitn|split_terminator|lines|split_whitespace)")
def m_strit(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    vals = [e.dd(st, x) for x in a]
    if nm == "chars" and vals[0].op == "str": s = arr(*[CH(x) for x in vals[0].a[0]])
    elif nm == "bytes" and vals[0].op == "str": s = arr(*[I(x) for x in vals[0].a[0].encode()])
    elif nm == "split" and all(v.op in ("str", "char") for v in vals) and vals[1].a[0]: s = arr(*[S(x) for x in vals[0].a[0].split(vals[1].a[0])])
    else: s = app(nm, *vals)
    if nm == "chars" and s.op == "app" and vals[0].op == "sym" and st.facts.decide(app("is_ascii", vals[0])) is True: st.facts.add(EQ(length(s), length(vals[0])))
    return one(st, itx(mk("x", "seq", s), ZERO, length(s)))


@model(r"core::str::<impl str>::(split_once|rsplit_once|find|rfind|get|split_at|parse|is_ascii|char_indices|is_char_boundary)", r"core::str::converts::(from_utf8)", r"alloc::string::String::from_utf8",
       r"core::char::methods::<impl char>::\w+", r"core::num::<impl .*>::from_str_radix", r"core::str::traits::FromStr::from_str")
def m_strapp(e, st, a, c):
    if c.f.get("body") and e.bodies[c.f["body"]]["local"]: return NotImplemented
    nm = c.f["def"].split("::")[-1]
    vals = [e.dd(st, x) for x in a]
    if nm == "parse" and vals:
        # May be the parser of a local type.
        ty = (c.targs() or ["?"])[-1]
        for r in e.impls.get(("core::str::traits::FromStr", "from_str"), []):
            if r.get("impl_self") == ty: return e.run(r["key"], [vals[0]], st, c.fid + 1)
        v = vals[0]
        if v.op == "app" and v.a[0] == "dec" and ty in ("usize", "u64"): return one(st, ok(v.a[1]))
        if v.op == "str" and ty in INTS:
            n = int(v.a[0]) if re.fullmatch(r"[+-]?[0-9]+" if ty[0] == "i" else r"[+]?[0-9]+", v.a[0]) else None
            lo, hi = range_of_type(ty)
            return one(st, ok(I(n)) if n is not None and lo <= n <= hi else err(app("parse_error", v)))
        return one(st, app("parse", ty, v))
    if nm == "encode_utf8":
        v = vals[0]
        if v.op != "char": return one(st, v)
        try: cl, p = e.target(st, a[1])
        except AnalysisError: return one(st, S(v.a[0]))
        b = v.a[0].encode()
        chk(e, st, c, "encode_utf8", le(I(len(b)), length(e.get(st, cl, p))))
        for i, x in enumerate(b): e.put(st, cl, p + (pi(I(i)),), I(x))
        return one(st, S(v.a[0]))
    if nm == "from_utf8":
        v = vals[0]
        n = length(v)
        if isint(n) and n.a[0] <= 64:
            bs = [at(v, I(i)) for i in range(n.a[0])]
            if all(isint(b) for b in bs):
                try: return one(st, ok(S(bytes(b.a[0] for b in bs).decode())))
                except UnicodeDecodeError: return one(st, err(app("utf8_error")))
    if nm == "is_ascii" and vals[0].op == "str": return one(st, B(vals[0].a[0].isascii()))
    if "methods" in c.f["def"] and vals[0].op == "char":
        ch = vals[0].a[0]
        t = {"is_ascii_digit": lambda: ch in "0123456789", "is_ascii": ch.isascii, "is_ascii_alphabetic": lambda: ch.isascii() and ch.isalpha()}
        if nm in t: return one(st, B(t[nm]()))
        if nm == "to_digit" and isint(vals[1]):
            try: return one(st, some(I(int(ch, vals[1].a[0]))))
            except ValueError: return one(st, NONE)
        if nm in ("to_ascii_lowercase",): return one(st, CH(ch.lower()))
    if nm in ("is_ascii_digit", "is_numeric", "is_ascii", "is_ascii_alphanumeric") and "methods" in c.f["def"] and of_decimal(vals[0]): return one(st, TRUE)
    v = app(nm, *[S(c.dty())] * (nm in ("from_str_radix",)), *vals)
    return one(st, v)


@model(r"core::num::<impl u8>::is_ascii(_digit|_alphabetic|_alphanumeric|_lowercase|_uppercase)?")
def m_u8(e, st, a, c):
    x = e.dd(st, a[0])
    if "is_ascii_digit" in c.f["def"] and of_decimal(x): return one(st, TRUE)
    r = {"is_ascii": [(0, 127)], "is_ascii_digit": [(48, 57)], "is_ascii_lowercase": [(97, 122)], "is_ascii_uppercase": [(65, 90)],
         "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)]}[c.f["def"].split("::")[-1]]
    v = FALSE
    for lo, hi in r: v = OR(v, AND(le(I(lo), x), le(x, I(hi))))
    return one(st, v)


def of_decimal(x):
    """Is x a character of a number in decimal?"""
    return x.op == "at" and x.a[0].op == "app" and x.a[0].a[0] in ("bytes", "chars", "as_bytes") and x.a[0].a[1].op == "app" and x.a[0].a[1].a[0] == "dec"


# ================================================================ formatting
STRLIKE = ("str", "alloc::string::String", "alloc::borrow::Cow", "std::path::Display", "core::fmt::Arguments")


def strlike(tys, i, c):
    t = tys[i] if i < len(tys) else ""
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("mut "): t = t[4:]
        if t.startswith("'"): t = t.split(" ", 1)[1]
    return t.startswith(STRLIKE)


def disp(e, st, v, ty, c, dbg=False):
    while ty.startswith("&"):
        ty = ty[1:]
        if ty.startswith("mut "): ty = ty[4:]
        if ty.startswith("'"): ty = ty.split(" ", 1)[1]
    x = e.dd(st, v)
    if dbg: return app("debug", x)
    if ty.startswith(STRLIKE): return x
    if ty == "char": return S(x.a[0]) if x.op == "char" else x
    if ty in INTS: return dec(x)
    for r in e.impls.get(("core::fmt::Display", "fmt"), []):
        if (r.get("impl_self") or "").split("<")[0] == ty.split("<")[0] and r["key"] not in e.stack:
            cl = cell(951, "fmt")
            s = st.copy()
            s.mem[cl] = S("")
            outs = [o for o in e.run(r["key"], [v, ref(cl)], s, 500 + len(e.stack)) if o.tag == "ret"]
            if len(outs) == 1 and outs[0].val.op == "adt" and outs[0].val.a[2] == "Ok": return outs[0].st.mem[cl]
            res = None
            break
    return app("disp", x)


def dec(x):
    if x.op == "int": return S(str(x.a[0]))
    return app("dec", x)


@model(r"core::fmt::rt::Argument::<'_>::new_(\w+)")
def m_arg(e, st, a, c):
    nm = c.f["def"].split("new_")[-1]
    ty = (c.argtys() or [""])[0]
    if nm == "display":
        t = (c.targs() or [ty])[-1]
        return one(st, disp(e, st, a[0], t if t and not t.startswith("'") else ty, c))
    return one(st, app("fmt_" + nm, e.dd(st, a[0])))


@model(r"core::fmt::Arguments::<'a>::new(_v1|_const|_v1_formatted)?", r"core::fmt::rt::<impl core::fmt::Arguments<'a>>::new\w*")
def m_args(e, st, a, c):
    t = e.dd(st, a[0])
    bs = None
    if t.op == "bytes": bs = t.a[0]
    elif t.op == "str": bs = tuple(t.a[0].encode())
    elif t.op == "arr" and all(x.op == "int" for x in t.a): bs = tuple(x.a[0] for x in t.a)
    args = e.dd(st, a[1]) if len(a) > 1 else arr()
    if bs is None: return one(st, app("fmt", t, args))
    out = []
    i = 0
    ai = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0: break
        if n < 0x80:
            out.append(S(bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(S(bytes(bs[i:i + l]).decode("utf8", "replace")))
            i += l
        elif n == 0xC0:
            out.append(at(args, I(ai)))
            ai += 1
        else:
            o = [n]
            k = ai
            if n & 1: o += bs[i:i + 4]; i += 4
            if n & 2: o += bs[i:i + 2]; i += 2
            if n & 4: o += bs[i:i + 2]; i += 2
            if n & 8:
                k = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(app("fmtopt", mk("bytes", tuple(o)), at(args, I(k))) if n & 7 else at(args, I(k)))
            ai = k + 1
    return one(st, cat(*out))


@model(r"core::fmt::Arguments::<'a>::(from_str|from_str_nonconst|as_str)", r"alloc::fmt::format", r"std::fmt::format")
def m_fmt(e, st, a, c):
    return one(st, e.dd(st, a[0]))


@model(r"core::fmt::Formatter::<'a>::(write_str|write_fmt|write_char|pad)", r"core::fmt::Write::write_fmt", r".*core::fmt::Write>::write_fmt")
def m_wfmt(e, st, a, c):
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, cat(e.dd(st, a[0]), e.dd(st, a[1])))
    return one(st, ok(UNIT))


# ================================================================ vectors and slices
VEC = r"(alloc::vec::Vec::<T(, A)?>|smallvec::SmallVec::<A>|core::slice::<impl \[T\]>|alloc::slice::<impl \[T\]>)"


@model(VEC + r"::len")
def v_len(e, st, a, c): return one(st, length(e.deref(st, a[0])))


@model(VEC + r"::is_empty")
def v_empty(e, st, a, c): return one(st, EQ(length(e.deref(st, a[0])), ZERO, True))


@model(VEC + r"::push")
def v_push(e, st, a, c):
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, scat(e.get(st, cl, p), arr(a[1])))
    return one(st, UNIT)


@model(VEC + r"::pop")
def v_pop(e, st, a, c):
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n = length(v)

    def has(s):
        e.put(s, cl, p, subseq(v, ZERO, sub(n, ONE)))
        return some(at(v, sub(n, ONE)))
    return fork(st, lt(ZERO, n), has, lambda s: NONE)


@model(VEC + r"::(extend_from_slice|append)", r"smallvec::SmallVec::<A>::(extend_from_slice|insert_many)")
def v_ext(e, st, a, c):
    cl, p = e.target(st, a[0])
    x = e.dd(st, a[1])
    e.put(st, cl, p, scat(e.get(st, cl, p), x))
    if c.f["def"].endswith("append"):
        c2, p2 = e.target(st, a[1])
        e.put(st, c2, p2, arr())
    return one(st, UNIT)


@model(VEC + r"::clear")
def v_clear(e, st, a, c):
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, arr())
    return one(st, UNIT)


@model(VEC + r"::truncate")
def v_trunc(e, st, a, c):
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    e.put(st, cl, p, subseq(v, ZERO, st.facts.simp(imin(length(v), e.deref(st, a[1])))))
    return one(st, UNIT)


@model(r"alloc::vec::from_elem", r"smallvec::SmallVec::<A>::from_elem", r"core::array::repeat")
def v_from_elem(e, st, a, c): return one(st, constseq(e.deref(st, a[1]), e.dd(st, a[0])))


@model(VEC + r"::(resize|resize_with)")
def v_resize(e, st, a, c):
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n = e.deref(st, a[1])
    if c.f["def"].endswith("resize_with"): x = app("default_elem")
    else: x = e.dd(st, a[2])
    i = fresh("i")
    old = length(v)
    e.put(st, cl, p, mkseq(n, i, ite(lt(i, old), at(v, i), x)))
    return one(st, UNIT)


@model(VEC + r"::iter")
def v_iter(e, st, a, c):
    v = e.deref(st, a[0])
    return one(st, itx(mk("x", "seq", v), ZERO, length(v)))


@model(VEC + r"::iter_mut")
def v_iter_mut(e, st, a, c):
    cl, p = e.target(st, a[0])
    return one(st, itx(mk("x", "mut", ref(cl, p)), ZERO, length(e.get(st, cl, p))))


@model(VEC + r"::(chunks|chunks_exact)(_mut)?")
def v_chunks(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n = e.deref(st, a[1])
    chk(e, st, c, "chunk size", NOT_deep(EQ(n, ZERO, True)))
    cnt = cdiv(length(v), n) if "exact" not in nm else div(length(v), n)
    core = mk("x", "chunks_mut", ref(cl, p), n) if nm.endswith("mut") else mk("x", "chunks", v, n)
    return one(st, itx(core, ZERO, settype(cnt, "usize")))


@model(VEC + r"::windows")
def v_windows(e, st, a, c):
    v, n = e.deref(st, a[0]), e.deref(st, a[1])
    return one(st, itx(mk("x", "windows", v, n), ZERO, imax(ZERO, add(sub(length(v), n), ONE))))


@model(VEC + r"::(first|last|get|first_mut|last_mut|get_mut)")
def v_get(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n = length(v)
    i = ZERO if nm.startswith("first") else sub(n, ONE) if nm.startswith("last") else e.deref(st, a[1])
    if i.op == "adt":
        lo, hi = rng(i, n)
        return fork(st, AND(le(lo, hi), le(hi, n)), lambda s: some(ref(cl, p + (mk("ps", lo, hi),)) if nm.endswith("mut") else subseq(v, lo, hi)), lambda s: NONE)
    return fork(st, lt(i, n), lambda s: some(ref(cl, p + (pi(i),)) if nm.endswith("mut") else at(v, i)), lambda s: NONE)


@model(VEC + r"::(split_first|split_last|split_first_mut|split_last_mut)")
def v_split_end(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n = length(v)
    i, lo, hi = (ZERO, ONE, n) if "first" in nm else (sub(n, ONE), ZERO, sub(n, ONE))
    if nm.endswith("mut"): y = lambda s: some(tup(ref(cl, p + (pi(i),)), ref(cl, p + (mk("ps", lo, hi),))))
    else: y = lambda s: some(tup(at(v, i), subseq(v, lo, hi)))
    return fork(st, lt(ZERO, n), y, lambda s: NONE)


@model(VEC + r"::(split_at|split_at_mut|split_at_checked|split_at_mut_checked)")
def v_split_at(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    n, m = length(v), e.deref(st, a[1])
    if "mut" in nm: y = tup(ref(cl, p + (mk("ps", ZERO, m),)), ref(cl, p + (mk("ps", m, n),)))
    else: y = tup(subseq(v, ZERO, m), subseq(v, m, n))
    if nm.endswith("checked"): return fork(st, le(m, n), lambda s: some(y), lambda s: NONE)
    chk(e, st, c, "split", le(m, n))
    return one(st, y)


@model(VEC + r"::contains")
def v_contains(e, st, a, c):
    v, x = e.dd(st, a[0]), e.dd(st, a[1])
    if v.op == "arr": return one(st, OR(*[EQ(y, x) for y in v.a]) if v.a else FALSE)
    i = fresh("i")
    n = length(v)
    return one(st, NOT_deep(forall(n, i, NOT_deep(EQ(at(v, i), x)))))


@model(VEC + r"::(sort|sort_unstable|dedup|reverse|sort_by|sort_by_key|retain|drain|insert|remove|swap|swap_remove|rotate_left|rotate_right|fill|copy_from_slice|clone_from_slice|retain_mut|dedup_by_key|split_off)")
def v_mutate(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    vals = [e.dd(st, x) for x in a[1:]]
    if nm in ("copy_from_slice", "clone_from_slice"):
        chk(e, st, c, "length", EQ(length(v), length(vals[0]), True))
        e.put(st, cl, p, vals[0])
        return one(st, UNIT)
    if nm == "fill":
        i = fresh("i")
        e.put(st, cl, p, mkseq(length(v), i, vals[0]))
        return one(st, UNIT)
    if nm == "reverse":
        i = fresh("i")
        n = length(v)
        e.put(st, cl, p, mkseq(n, i, at(v, sub(sub(n, ONE), i))))
        return one(st, UNIT)
    if nm in ("sort", "sort_unstable", "dedup") and v.op == "arr" and (len(v.a) < 2 or anywhere(v, is_name)):
        # In some order that puts equal elements next to each other.
        xs = sorted(v.a, key=lambda x: x.id) if nm != "dedup" else list(v.a)
        if nm == "dedup":
            ys = []
            for x in xs:
                same = st.facts.decide(EQ(ys[-1], x)) if ys else False
                if same is None: raise AnalysisError("dedup of elements not known to differ")
                if not same: ys.append(x)
            xs = ys
        e.put(st, cl, p, arr(*xs))
        return one(st, UNIT)
    if nm == "retain":
        return retain(e, st, a, c, cl, p, v)
    if nm == "drain" and vals[0].op == "adt":
        lo, hi = rng(vals[0], length(v))
        chk(e, st, c, "range", AND(le(lo, hi), le(hi, length(v))))
        e.put(st, cl, p, scat(subseq(v, ZERO, lo), subseq(v, hi, length(v))))
        d = subseq(v, lo, hi)
        return one(st, itx(mk("x", "seq", d), ZERO, length(d)))
    if nm == "insert" and vals[0] is ZERO:
        e.put(st, cl, p, scat(arr(vals[1]), v))
        return one(st, UNIT)
    if nm == "swap":
        x, y = vals
        chk(e, st, c, "index", AND(lt(x, length(v)), lt(y, length(v))))
        e.put(st, cl, p, upd(upd(v, x, at(v, y)), y, at(v, x)))
        return one(st, UNIT)
    if nm == "insert":
        chk(e, st, c, "index", le(vals[0], length(v)))
        e.put(st, cl, p, scat(subseq(v, ZERO, vals[0]), arr(vals[1]), subseq(v, vals[0], length(v))))
        return one(st, UNIT)
    if nm == "remove":
        chk(e, st, c, "index", lt(vals[0], length(v)))
        e.put(st, cl, p, scat(subseq(v, ZERO, vals[0]), subseq(v, add(vals[0], ONE), length(v))))
        return one(st, at(v, vals[0]))
    if nm in ("insert", "remove", "swap", "swap_remove"):
        e.note_panic("index", c.key, nm, FALSE, st.copy(), c.sp)
    e.put(st, cl, p, app(nm, v, *vals))
    r = at(v, vals[0]) if nm in ("remove", "swap_remove") else UNIT
    return one(st, r)


@model(r"core::ops::range::RangeInclusive::<Idx>::new")
def m_range_incl(e, st, a, c): return one(st, adt("core::ops::range::RangeInclusive", 0, "RangeInclusive", ("start", "end", "exhausted"), e.dd(st, a[0]), e.dd(st, a[1]), FALSE))


@model(r"core::ops::range::Range(Inclusive|From|To|ToInclusive)?::<Idx>::contains", r"core::ops::range::RangeBounds::contains")
def m_range_contains(e, st, a, c):
    r, x = e.deref(st, a[0]), e.dd(st, a[1])
    if r.op != "adt": return one(st, app("in_range", r, x))
    nm = r.a[0].split("::")[-1]
    f = [e.dd(st, y) for y in r.a[4:]]
    lo = f[0] if nm in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = {"Range": 1, "RangeInclusive": 1, "RangeTo": 0, "RangeToInclusive": 0}.get(nm)
    v = TRUE
    if lo is not None: v = AND(v, le(lo, x))
    if hi is not None: v = AND(v, le(x, f[hi]) if "Inclusive" in nm else lt(x, f[hi]))
    return one(st, v)


@model(VEC + r"::(concat|join)", r"alloc::slice::Join.*::join", r"alloc::slice::Concat.*::concat")
def v_join(e, st, a, c):
    v = e.dd(st, a[0])
    if len(a) == 1: return one(st, sjoin(v) if "String" in c.dty() else flat(v))
    return one(st, app("join_sep", v, e.dd(st, a[1])))


def rng(r, n):
    nm = r.a[0].split("::")[-1]
    f = r.a[4:]
    if nm == "Range": return f[0], f[1]
    if nm == "RangeTo": return ZERO, f[0]
    if nm == "RangeFrom": return f[0], n
    if nm == "RangeFull": return ZERO, n
    if nm == "RangeInclusive": return f[0], add(f[1], ONE)
    if nm == "RangeToInclusive": return ZERO, add(f[0], ONE)
    raise AnalysisError("range " + nm)


@model(r"core::ops::index::(Index|IndexMut)::(index|index_mut)", r".*core::ops::index::(Index|IndexMut)<.*>>::(index|index_mut)", r"core::array::<impl core::ops::index::.*", r"core::slice::index::<impl core::ops::index::.*", r"core::str::traits::<impl core::ops::index.*")
def m_index(e, st, a, c):
    cl, p = e.target(st, a[0])
    i = e.deref(st, a[1])
    ty = inty(c)
    v = e.get(st, cl, p)
    if ty.startswith(("str", "alloc::string::String")):
        lo, hi = rng(i, length(v))
        if v.op == "str" and isint(lo):
            b = v.a[0].encode()
            h = len(b) if hi is length(v) else hi.a[0] if isint(hi) else None
            if h is not None and lo.a[0] <= h <= len(b):
                try: return one(st, S(b[lo.a[0]:h].decode()))
                except UnicodeDecodeError: pass
        if isint(lo) and hi is length(v):
            # Cutting off a prefix known to be there.
            n = lo.a[0]
            if n == 0: return one(st, v)
            if v.op == "cat" and v.a[0].op == "str" and v.a[0].a[0].isascii() and len(v.a[0].a[0]) >= n: return one(st, cat(S(v.a[0].a[0][n:]), *v.a[1:]))
            for x in st.facts.true:
                if x.op == "app" and x.a[0] == "starts_with" and x.a[1] is v and x.a[2].op == "str" and len(x.a[2].a[0].encode()) == n: return one(st, app("stripped_prefix", v, x.a[2]))
        e.note_panic("str index", c.key, show(v)[:60], FALSE, st.copy(), c.sp)
        if v.op == "str" and isint(lo) and isint(hi): return one(st, S(v.a[0][lo.a[0]:hi.a[0]]))
        return one(st, substr(v, lo, hi))
    if "serde_json" in ty: return one(st, app("json_index", v, i))
    if i.op == "adt":
        n = length(v)
        lo, hi = rng(i, n)
        chk(e, st, c, "range", AND(le(lo, hi), le(hi, n)))
        if lo is ZERO and hi is n: return one(st, ref(cl, p))
        return one(st, ref(cl, p + (mk("ps", lo, hi),)))
    if i.op in INT_TERMS or i in TY or "usize" in (c.argtys() or ["", ""])[1]:
        chk(e, st, c, "index", lt(i, length(v)))
        return one(st, ref(cl, p + (pi(i),)))
    return NotImplemented


# ================================================================ iterators
def itx(core, pos, end): return mk("it", "x", core, pos, end)


def count(core):
    k = core.a[0]
    if k == "seq": return length(core.a[1])
    return None


def into_iter(e, st, v, c=None):
    v0 = v
    if v.op == "ref":
        t = e.deref(st, v)
        if t.op == "it": return mk("it", "ref", v)
        if t.op == "adt" and t.a[0].endswith("ops::range::Range"): return mk("it", "ref", v)
        ty = (c.argtys() or [""])[0] if c else ""
        if ty.startswith("&mut") and t.op != "adt":
            return itx(mk("x", "mut", v), ZERO, length(t))
        v = t
    if v.op == "it": return v
    if v.op == "adt":
        n = v.a[0].split("::")[-1]
        if n == "Range":
            return v
        if n == "RangeInclusive": return as_it(e, st, v)
        if v.a[0] == OPT:
            s = arr(v.a[4]) if v.a[2] == "Some" else arr()
            return itx(mk("x", "seq", s), ZERO, length(s))
        return mk("it", "user", v)
    if v.op == "app" and v.a[0] == "walkdir":
        r = e.result(st, "walk", *v.a[1:])
        s = app("walk_entries", r)
        return itx(mk("x", "seq", s), ZERO, length(s))
    if v.op == "app" and v.a[0] in ("components",):
        return itx(mk("x", "seq", v), ZERO, length(v))
    if v.op == "clos": return v
    if c and "serde_json::map" in ((c.argtys() or [""])[0]):
        s = app("entries", v)
        return itx(mk("x", "seq", s), ZERO, length(s))
    if v.op == "vfld" and v.a[0].op == "res" and v.a[0].a[0] == "read_dir":
        s = app("dir_entries", v)
        if e.dir_n is not None: s = arr(*(at(s, I(i)) for i in range(e.dir_n)))
        return itx(mk("x", "seq", s), ZERO, length(s))
    return itx(mk("x", "seq", v), ZERO, length(v))


@model(r"core::iter::traits::collect::IntoIterator::into_iter", r".*core::iter::traits::collect::IntoIterator.*>::into_iter")
def m_into_iter(e, st, a, c):
    v = a[0]
    if v.op == "adt" and v.a[0].split("::")[0] == "zarr": return one(st, v)
    ty = (c.argtys() or [""])[0]
    return one(st, into_iter(e, st, v, c))


def as_it(e, st, v):
    """Normalise a value used as an iterator."""
    if v.op == "adt" and v.a[0].endswith("ops::range::Range"):
        a, b = v.a[4], v.a[5]
        n = sub(b, a)
        if not st.facts.prove(n): n = imax(ZERO, n)
        settype(n, "usize")
        return itx(mk("x", "range", a), ZERO, n)
    if v.op == "adt" and v.a[0].endswith("ops::range::RangeInclusive"):
        n = add(sub(v.a[5], v.a[4]), ONE)
        if not st.facts.prove(n): n = imax(ZERO, n)
        settype(n, "usize")
        return itx(mk("x", "range", v.a[4]), ZERO, n)
    if v.op == "adt" and v.a[0].startswith("zarr::"): return mk("it", "user", v)
    if v.op == "ref": return mk("it", "ref", v)
    if v.op != "it": return into_iter(e, st, v)
    return v


def elem(e, st, core, i, fid):
    """Outcomes of producing element i."""
    k = core.a[0]
    if k == "seq":
        h = e.seq_facts.get(core.a[1].a[0]) if core.a[1].op == "app" else None
        if h: h(e, st, core.a[1], i)
        return [Out("ret", st, at(core.a[1], i))]
    if k == "mut":
        c, p = e.target(st, core.a[1])
        return [Out("ret", st, ref(c, p + (pi(i),)))]
    if k == "range": return [Out("ret", st, add(core.a[1], i))]
    if k == "chunks":
        s, n = core.a[1], core.a[2]
        return [Out("ret", st, subseq(s, mul(i, n), imin(mul(add(i, ONE), n), length(s))))]
    if k == "chunks_mut":
        c, p = e.target(st, core.a[1])
        n = core.a[2]
        return [Out("ret", st, ref(c, p + (mk("ps", mul(i, n), imin(mul(add(i, ONE), n), length(e.get(st, c, p)))),)))]
    if k == "windows":
        return [Out("ret", st, subseq(core.a[1], i, add(i, core.a[2])))]
    if k == "off": return elem(e, st, core.a[1], add(core.a[2], i), fid)
    if k == "rev": return elem(e, st, core.a[1], sub(sub(core.a[2], ONE), i), fid)
    if k == "step": return elem(e, st, core.a[1], mul(i, core.a[2]), fid)
    if k == "enum":
        r = []
        for o in elem(e, st, core.a[1], i, fid):
            if o.tag == "ret": o.val = tup(i, o.val)
            r.append(o)
        return r
    if k == "zip":
        r = []
        for o in elem(e, st, core.a[1], i, fid):
            if o.tag != "ret":
                r.append(o)
                continue
            for o2 in elem(e, o.st, core.a[2], i, fid):
                if o2.tag == "ret": o2.val = tup(o.val, o2.val)
                r.append(o2)
        return r
    if k == "map":
        r = []
        for o in elem(e, st, core.a[1], i, fid):
            if o.tag != "ret":
                r.append(o)
                continue
            r += e.call_value(o.st, core.a[2], [o.val], fid)
        return r
    if k == "chain":
        n = core.a[3]
        r = []
        s = st.copy()
        if s.assume(lt(i, n)): r += elem(e, s, core.a[1], i, fid)
        if st.assume(NOT_deep(lt(i, n))): r += elem(e, st, core.a[2], sub(i, n), fid)
        return r
    raise AnalysisError("iterator " + k)


def nx(e, st, it, fid, site):
    """Outcomes of next(): Out('ret', state, (iterator, option)) or panics."""
    it = as_it(e, st, it)
    k = it.a[0]
    if k == "x":
        core, pos, end = it.a[1:]
        out = []
        s = st.copy()
        if s.assume(lt(pos, end)):
            for o in elem(e, s, core, pos, fid):
                if o.tag == "ret": o.val = (itx(core, add(pos, ONE), end), some(o.val))
                out.append(o)
        if st.assume(NOT_deep(lt(pos, end))): out.append(Out("ret", st, (it, NONE)))
        return out
    if k == "ref":
        c, p = e.target(st, it.a[1])
        out = []
        for o in nx(e, st, e.get(st, c, p), fid, site):
            if o.tag == "ret":
                e.put(o.st, c, p, o.val[0])
                o.val = (it, o.val[1])
            out.append(o)
        return out
    if k == "user":
        nm = it.a[1].a[0]
        for r in e.impls.get((IT[:-2], "next"), []):
            if (r.get("impl_self") or "").split("<")[0] == nm:
                c = cell(fid + 1, "user")
                st.mem[c] = it.a[1]
                out = []
                for o in e.run(r["key"], [ref(c)], st, fid + 2):
                    if o.tag == "ret":
                        o.val = (mk("it", "user", o.st.mem.pop(c)), o.val)
                        if o.val[1].op != "adt":
                            s1 = o.st.copy()
                            if s1.assume(IS(o.val[1], "Some")): out.append(Out("ret", s1, (o.val[0], some(vfld(o.val[1], "Some", 0)))))
                            if o.st.assume(NOT_deep(IS(o.val[1], "Some"))): out.append(Out("ret", o.st, (o.val[0], NONE)))
                            continue
                    out.append(o)
                return out
        raise AnalysisError("no iterator implementation for " + nm)
    if k == "filter":
        return nx_filter(e, st, it, fid, site)
    if k == "map":
        out = []
        for o in nx(e, st, it.a[1], fid, site):
            if o.tag != "ret":
                out.append(o)
                continue
            i2, v = o.val
            if v is NONE:
                o.val = (mk("it", "map", i2, it.a[2]), NONE)
                out.append(o)
                continue
            for o2 in e.call_value(o.st, it.a[2], [v.a[4]], fid):
                if o2.tag == "ret": o2.val = (mk("it", "map", i2, it.a[2]), some(o2.val))
                out.append(o2)
        return out
    if k == "zip":
        out = []
        for o in nx(e, st, it.a[1], fid, site):
            if o.tag != "ret" or o.val[1] is NONE:
                if o.tag == "ret": o.val = (mk("it", "zip", o.val[0], it.a[2]), NONE)
                out.append(o)
                continue
            i1, v1 = o.val
            for o2 in nx(e, o.st, it.a[2], fid, site):
                if o2.tag == "ret":
                    i2, v2 = o2.val
                    o2.val = (mk("it", "zip", i1, i2), NONE if v2 is NONE else some(tup(v1.a[4], v2.a[4])))
                out.append(o2)
        return out
    if k == "enum":
        out = []
        for o in nx(e, st, it.a[1], fid, site):
            if o.tag == "ret":
                i2, v = o.val
                o.val = (mk("it", "enum", i2, add(it.a[2], ONE)), NONE if v is NONE else some(tup(it.a[2], v.a[4])))
            out.append(o)
        return out
    if k == "flatmap":
        raise AnalysisError("flat_map")
    raise AnalysisError("iterator " + str(k))


def nx_filter(e, st, it, fid, site):
    """filter, filter_map and take_while: skip to the next accepted element."""
    _, inner, f, mode = it.a
    mode = mode.a[0]
    c = cell(fid + 1, "flt" + site[-8:])
    st.mem[c] = inner

    def step(s):
        out = []
        for o in nx(e, s, s.mem[c], fid + 2, site + "f"):
            if o.tag != "ret":
                out.append(o)
                continue
            i2, v = o.val
            o.st.mem[c] = i2
            if v is NONE:
                out.append(Out("brk", o.st, NONE))
                continue
            x = v.a[4]
            for o2 in e.call_value(o.st, f, [x], fid + 2):
                if o2.tag != "ret":
                    out.append(o2)
                    continue
                if mode == "map":
                    for s3, y in opt_cases(o2.st, o2.val, "Some"):
                        out.append(Out("back", s3) if y is None else Out("brk", s3, some(y)))
                else:
                    s3 = o2.st.copy()
                    b = e.deref(s3, o2.val)
                    if s3.assume(b): out.append(Out("brk", s3, some(x)))
                    if o2.st.assume(NOT_deep(b)): out.append(Out("back", o2.st))
        return out
    res = []
    for o in e.do_loop(st, site + "filter", step):
        if o.tag == "brk":
            i2 = o.st.mem.pop(c)
            res.append(Out("ret", o.st, (mk("it", "filter", i2, f, S(mode)), o.val)))
        else: res.append(o)
    return res


def opt_cases(st, v, good):
    """(state, payload or None) by whether v is the good variant."""
    if v.op == "adt":
        if v.a[2] == good: return [(st, v.a[4] if v.a[4:] else UNIT)]
        return [(st, None)]
    out = []
    s = st.copy()
    if s.assume(IS(v, good)): out.append((s, vfld(v, good, 0)))
    if st.assume(NOT_deep(IS(v, good))): out.append((st, None))
    return out


def loop_iter(e, st, it, c, body, nm=""):
    """Run body(state, element) -> outcomes for each element; 'done' at the end."""
    fid = c.fid + 1
    cl = cell(fid, "it" + nm)
    it = as_it(e, st, it)
    st.mem[cl] = it
    site = f"{c.key}@{nm}{sum(1 for x in e.stack)}:{e_site(c)}"

    def step(s):
        out = []
        for o in nx(e, s, s.mem[cl], fid + 2, site):
            if o.tag != "ret":
                out.append(o)
                continue
            i2, v = o.val
            o.st.mem[cl] = i2
            if v is NONE: out.append(Out("done", o.st))
            else: out += body(o.st, v.a[4] if v.op == "adt" else vfld(v, "Some", 0))
        return out
    outs = e.do_loop(st, site, step)
    for o in outs:
        o.st.mem.pop(cl, None)
        for x in [x for x in o.st.mem if x.op == "cell" and 900 > x.a[0] > fid + 1]: del o.st.mem[x]
    return outs


def e_site(c):
    # Ordinal of the call among the calls of the body, so that line numbers do not matter.
    t = c.t
    b = c.e.bodies.get(c.key)
    if b:
        for i, blk in enumerate(b["blocks"]):
            if blk["t"] is t: return str(i)
    return "v"


@model(IT + r"next", r".*core::iter::traits::iterator::Iterator>::next", r"core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next(e, st, a, c):
    if c.f["def"].endswith("next_back"): return it_next_back(e, st, a, c)
    cl, p = e.target(st, a[0])
    it = e.get(st, cl, p)
    if it.op not in ("it", "adt"): it = into_iter(e, st, it)
    outs = []
    isrange = it.op == "adt" and it.a[0].endswith("::Range")
    if isrange:
        s, en = it.a[4], it.a[5]

        def adv(z):
            e.put(z, cl, p, adt(*it.a[:4], add(s, ONE), en))
            return some(s)
        return fork(st, lt(s, en), adv, lambda z: NONE)
    for o in nx(e, st, it, c.fid + 2, f"{c.key}:{e_site(c)}"):
        if o.tag == "ret":
            i2, v = o.val
            if i2.op == "it" and i2.a[0] == "user": i2 = i2.a[1]
            e.put(o.st, cl, p, i2)
            o.val = v
        outs.append(o)
    return outs


def it_next_back(e, st, a, c):
    cl, p = e.target(st, a[0])
    it = as_it(e, st, e.get(st, cl, p))
    if it.op == "it" and it.a[0] == "x":
        core, pos, end = it.a[1:]
        out = []
        s = st.copy()
        if s.assume(lt(pos, end)):
            for o in elem(e, s, core, sub(end, ONE), c.fid + 2):
                if o.tag == "ret":
                    e.put(o.st, cl, p, itx(core, pos, sub(end, ONE)))
                    o.val = some(o.val)
                out.append(o)
        if st.assume(NOT_deep(lt(pos, end))): out.append(Out("ret", st, NONE))
        return out
    return NotImplemented


def norm(it):
    """(core, n) with positions starting at zero."""
    core, pos, end = it.a[1:]
    if pos is ZERO: return core, end
    return mk("x", "off", core, pos), sub(end, pos)


@model(IT + r"(map|zip|enumerate|rev|filter|filter_map|take_while|map_while|skip|take|chain|peekable|fuse|cloned|copied|by_ref|inspect|step_by|skip_while|flat_map|flatten)", r".*Iterator>::(map|zip|enumerate|rev|filter|chain|take|skip)")
def it_adapt(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    it = as_it(e, st, a[0]) if nm != "by_ref" else a[0]
    x = it.op == "it" and it.a[0] == "x"
    if nm in ("cloned", "copied", "fuse", "by_ref"): return one(st, it)
    if nm == "map":
        if x:
            core, n = norm(it)
            return one(st, itx(mk("x", "map", core, a[1]), ZERO, n))
        return one(st, mk("it", "map", it, a[1]))
    if nm == "zip":
        o = into_iter(e, st, a[1], None)
        o = as_it(e, st, o)
        if x and o.op == "it" and o.a[0] == "x":
            c1, n1 = norm(it); c2, n2 = norm(o)
            return one(st, itx(mk("x", "zip", c1, c2), ZERO, st.facts.simp(imin(n1, n2))))
        return one(st, mk("it", "zip", it, o))
    if nm == "enumerate":
        if x:
            core, n = norm(it)
            return one(st, itx(mk("x", "enum", core), ZERO, n))
        return one(st, mk("it", "enum", it, ZERO))
    if nm == "rev" and x:
        core, n = norm(it)
        return one(st, itx(mk("x", "rev", core, n), ZERO, n))
    if nm == "chain" and x:
        o = as_it(e, st, into_iter(e, st, a[1], None))
        if o.op == "it" and o.a[0] == "x":
            c1, n1 = norm(it); c2, n2 = norm(o)
            return one(st, itx(mk("x", "chain", c1, c2, n1), ZERO, add(n1, n2)))
    if nm == "take" and x:
        core, pos, end = it.a[1:]
        n = add(pos, e.deref(st, a[1]))
        if st.facts.decide(le(n, end)) is True: return one(st, itx(core, pos, n))
        return one(st, itx(core, pos, imin(end, n)))
    if nm == "skip" and x:
        core, pos, end = it.a[1:]
        n = add(pos, e.deref(st, a[1]))
        if st.facts.decide(le(n, end)) is True: return one(st, itx(core, n, end))
        return one(st, itx(core, imin(end, n), end))
    if nm == "step_by" and x:
        core, n = norm(it)
        k = e.deref(st, a[1])
        k0 = core
        while k0.a[0] in ("off", "rev", "enum"): k0 = k0.a[1]
        if k0.a[0] in ("range", "seq", "mut", "chunks", "chunks_mut"):
            chk(e, st, c, "step", lt(ZERO, k))
            return one(st, itx(mk("x", "step", core, k), ZERO, cdiv(n, k)))
    if nm in ("filter", "filter_map"):
        return one(st, mk("it", "filter", it, a[1], S("keep" if nm == "filter" else "map")))
    raise AnalysisError("iterator adaptor " + nm)


@model(IT + r"(all|any|find|position|for_each|fold|try_fold|try_for_each|product|sum|collect|count|last|max|min|find_map|nth|eq|ne|unzip|partition)", r".*Iterator>::(all|any|find|position|for_each|fold|try_fold|product|sum|collect|count|find_map|nth|last|try_for_each)")
def it_consume(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    it = a[0]
    fid = c.fid
    if nm in ("eq", "ne"):
        return it_eq(e, st, a, c, nm)
    if nm in ("all", "any", "find", "position", "for_each", "find_map", "try_for_each"):
        f = a[1]

        def body(s, x):
            out = []
            for o in e.call_value(s, f, [x], fid + 4):
                if o.tag != "ret":
                    out.append(o)
                    continue
                v = e.deref(o.st, o.val)
                if nm == "for_each": out.append(Out("back", o.st))
                elif nm == "find_map":
                    for s3, y in opt_cases(o.st, v, "Some"):
                        out.append(Out("back", s3) if y is None else Out("brk", s3, some(y)))
                elif nm == "try_for_each":
                    good = "Some" if c.dty().startswith(OPT) else "Ok"
                    for s3, y in opt_cases(o.st, v, good):
                        out.append(Out("back", s3) if y is not None else Out("brk", s3, v))
                else:
                    stop = NOT_deep(v) if nm == "all" else v
                    s3 = o.st.copy()
                    if s3.assume(stop):
                        k = None
                        out.append(Out("brk", s3, FALSE if nm == "all" else TRUE if nm == "any" else some(x) if nm == "find" else some(s3.loops[-1])))
                    if o.st.assume(NOT_deep(stop)): out.append(Out("back", o.st))
            return out
        # A reference iterator is advanced in place.
        outs = loop_iter(e, st, iter_arg(e, st, it), c, body, nm)
        end = {"all": TRUE, "any": FALSE, "find": NONE, "position": NONE, "for_each": UNIT, "find_map": NONE}.get(nm)
        if nm == "try_for_each": end = some(UNIT) if c.dty().startswith(OPT) else ok(UNIT)
        return fin(outs, lambda s: end)
    if nm == "count":
        r = count_filter(e, st, it, c)
        if r is not None: return one(st, r)
    if nm in ("fold", "try_fold", "product", "sum", "count", "last", "max", "min"):
        acc = cell(c.fid + 1, "acc" + nm)
        init = {"fold": lambda: a[1], "try_fold": lambda: a[1], "product": lambda: ONE, "sum": lambda: ZERO, "count": lambda: ZERO}.get(nm, lambda: NONE)()
        st.mem[acc] = init
        dty = c.dty()

        def body(s, x):
            cur = s.mem[acc]
            if nm in ("fold", "try_fold"):
                out = []
                for o in e.call_value(s, a[2], [cur, x], fid + 4):
                    if o.tag != "ret":
                        out.append(o)
                    elif nm == "fold":
                        o.st.mem[acc] = o.val
                        out.append(Out("back", o.st))
                    else:
                        good = "Some" if dty.startswith(OPT) else "Ok"
                        for s3, y in opt_cases(o.st, o.val, good):
                            if y is None: out.append(Out("brk", s3, o.val if o.val.op == "adt" or good == "Ok" else NONE))
                            else:
                                s3.mem[acc] = y
                                out.append(Out("back", s3))
                return out
            x = e.dd(s, x)
            if nm == "count": v = add(cur, ONE)
            elif nm in ("product", "sum"):
                v = mul(cur, x) if nm == "product" else add(cur, x)
                if dty in INTS:
                    lo, hi = range_of_type(dty)
                    chk(e, s, c, "overflow in " + nm, AND(le(I(lo), v), le(v, I(hi))))
            elif nm == "last": v = some(x)
            else:
                v = some(x) if cur is NONE else None
                if cur.op == "adt" and cur.a[2] == "Some":
                    v = some((imax if nm == "max" else imin)(cur.a[4], x))
                elif v is None: raise AnalysisError("max/min of a symbolic accumulator")
            s.mem[acc] = v
            return [Out("back", s)]
        typ = dty if dty in INTS else None
        outs = loop_iter(e, st, iter_arg(e, st, it), c, body, nm)
        wrap = (lambda v: some(v) if dty.startswith(OPT) else ok(v)) if nm == "try_fold" else (lambda v: v)
        r = fin(outs, lambda s: wrap(s.mem[acc]))
        for o in r: o.st.mem.pop(acc, None)
        return r
    if nm == "collect": return collect(e, st, a, c)
    raise AnalysisError("iterator consumer " + nm)


def count_filter(e, st, it, c):
    """The number of elements a pure condition keeps, as a sum of ones and zeros."""
    if it.op != "it" or it.a[0] != "filter" or it.a[3].a[0] != "keep": return None
    x = as_it(e, st, it.a[1])
    if x.op != "it" or x.a[0] != "x": return None
    core, n = norm(x)
    k = fresh("i")
    s = st.copy()
    if not (s.assume(ge0(k)) and s.assume(lt(k, n))): return ZERO
    mp = dict((p, list(q)) for p, q in e.maypanic.items())
    outs = elem(e, s, core, k, c.fid + 3)
    if len(outs) == 1 and outs[0].tag == "ret" and outs[0].st.trace == st.trace:
        o = outs[0]
        cl = cell(c.fid + 5, "cf")
        o.st.mem[cl] = o.val
        r = e.call_value(o.st, it.a[2], [ref(cl)], c.fid + 6)
        if len(r) == 1 and r[0].tag == "ret" and r[0].st.trace == st.trace:
            v = e.dd(r[0].st, r[0].val)
            if not anywhere(v, lambda u: u.op == "cell"):
                return settype(sumof(mkseq(n, k, ite(v, ONE, ZERO))), "usize")
    e.maypanic = mp
    return None


def iter_arg(e, st, it):
    if it.op == "ref":
        t = e.deref(st, it)
        return mk("it", "ref", it)
    return it


def it_eq(e, st, a, c, nm):
    x = as_it(e, st, a[0]); y = as_it(e, st, into_iter(e, st, a[1]))
    if all(i.op == "it" and i.a[0] == "x" for i in (x, y)):
        c1, n1 = norm(x); c2, n2 = norm(y)
        k = fresh("i")
        s = st.copy()
        s.assume(ge0(k))
        u = elem(e, s, c1, k, c.fid + 3); v = elem(e, s, c2, k, c.fid + 3)
        if len(u) == 1 and len(v) == 1:
            b = AND(EQ(n1, n2, True), forall(n1, k, EQ(e.dd(s, u[0].val), e.dd(s, v[0].val))))
            return one(st, b if nm == "eq" else NOT_deep(b))
    raise AnalysisError("Iterator::eq")


def fin(outs, endf):
    r = []
    for o in outs:
        if o.tag == "done": r.append(Out("ret", o.st, endf(o.st)))
        elif o.tag == "brk": r.append(Out("ret", o.st, o.val))
        else: r.append(o)
    return r


def pure_elem(e, st, it, c):
    """The sequence of an exact iterator whose elements have a single, pure outcome."""
    it = as_it(e, st, it)
    if not (it.op == "it" and it.a[0] == "x"): return None
    core, n = norm(it)
    if core.a[0] == "seq": return core.a[1] if n is length(core.a[1]) else subseq(core.a[1], ZERO, n)
    if isint(n) and n.a[0] <= 64 and core.a[0] == "map" and any(u.op == "arr" and u.a and all(conc(y) for y in u.a) for u in subterms(core)):
        # Known elements, each taken in turn.
        vs, mp, x = [], dict((x, list(y)) for x, y in e.maypanic.items()), st
        for i in range(n.a[0]):
            outs = elem(e, x.copy(), core, I(i), c.fid + 3)
            if len(outs) != 1 or outs[0].tag != "ret" or outs[0].st.trace != st.trace: break
            vs.append(e.dd(outs[0].st, outs[0].val))
        else:
            if all(conc(v) for v in vs): return arr(*vs)
        e.maypanic = mp
    k = fresh("i")
    s = st.copy()
    if not (s.assume(ge0(k)) and s.assume(lt(k, n))): return arr()
    mp = dict((x, list(y)) for x, y in e.maypanic.items())
    before = set(s.facts.true)
    outs = elem(e, s, core, k, c.fid + 3)
    if len(outs) != 1 or outs[0].tag != "ret" or outs[0].st.trace != st.trace:
        e.maypanic = mp
        return None
    o = outs[0]
    live = {x: v for x, v in o.st.mem.items() if not (x.op == "cell" and x.a[0] > c.fid + 1)}
    base = {x: v for x, v in st.mem.items() if not (x.op == "cell" and x.a[0] > c.fid + 1)}
    if live != base:
        e.maypanic = mp
        return None
    v = e.dd(o.st, o.val)
    newf = [f for f in o.st.facts.true if f not in before and occurs(k, f)]
    r = mkseq(n, k, v)
    if newf: st.facts._add(forall(n, k, AND(*newf)))
    return r


def collect(e, st, a, c):
    dty = c.dty()
    kind = "vec"
    if dty.startswith("alloc::string::String"): kind = "str"
    if dty.startswith(RES) or dty.startswith(OPT): kind = "try"
    if kind != "try":
        s = pure_elem(e, st, a[0], c)
        if s is not None:
            if kind == "str": return one(st, sjoin(s))
            if "Map<" in dty or "Set<" in dty: return one(st, app("collect:" + dty.split("<")[0], s))
            return one(st, s)
    it0 = as_it(e, st, a[0])
    k0 = it0
    while k0.a[0] == "map": k0 = as_it(e, st, k0.a[1])
    if kind == "vec" and k0.a[0] == "filter" and "Map<" not in dty and "Set<" not in dty:
        # The first accepted element, and the others as one unknown sequence.
        snap = e.snap()
        outs = nx(e, st.copy(), it0, c.fid + 2, f"{c.key}@cf:{e_site(c)}")
        if all(o.tag == "ret" and len(o.st.trace) == len(st.trace) for o in outs):
            for o in outs:
                i2, v = o.val
                o.val = arr() if v is NONE else scat(arr(e.dd(o.st, v.a[4])), app("rest", i2))
            return outs
        e.restore(snap)
    acc = cell(c.fid + 1, "acc")
    st.mem[acc] = S("") if kind == "str" else arr()
    good = "Some" if dty.startswith(OPT) else "Ok"

    def body(s, x):
        out = []
        if kind == "try":
            for s3, y in opt_cases(s, e.deref(s, x), good):
                if y is None: out.append(Out("brk", s3, x))
                else:
                    s3.mem[acc] = scat(s3.mem[acc], arr(y))
                    out.append(Out("back", s3))
            return out
        x = e.dd(s, x)
        s.mem[acc] = cat(s.mem[acc], x) if kind == "str" else scat(s.mem[acc], arr(x))
        return [Out("back", s)]
    outs = loop_iter(e, st, a[0], c, body, "collect")
    r = fin(outs, lambda s: (ok if good == "Ok" else some)(s.mem[acc]) if kind == "try" else s.mem[acc])
    for o in r: o.st.mem.pop(acc, None)
    return r


@model(r"core::iter::traits::collect::Extend::extend", r".*core::iter::traits::collect::Extend<.*>>::extend")
def m_extend(e, st, a, c):
    cl, p = e.target(st, a[0])
    src = into_iter(e, st, a[1], c if False else None)
    s = pure_elem(e, st, src, c) if as_it(e, st, src).op == "it" else None
    isstr = inty(c).startswith("alloc::string::String")
    if "serde_json::map::Map" in inty(c).split("<")[0] or inty(c).lstrip("&mut ").startswith("serde_json::map::Map"):
        if "serde_json::map::Map" in inty(c, 1):
            e.put(st, cl, p, app("map_extend", e.get(st, cl, p), e.dd(st, a[1])))
            return one(st, UNIT)

        def ins(s, x):
            x = e.dd(s, x)
            e.put(s, cl, p, app("map_insert", e.get(s, cl, p), fld(x, 0), fld(x, 1)))
            return [Out("back", s)]
        return fin(loop_iter(e, st, src, c, ins, "extend"), lambda s: UNIT)
    if s is not None:
        e.put(st, cl, p, cat(e.get(st, cl, p), sjoin(s)) if isstr else scat(e.get(st, cl, p), s))
        return one(st, UNIT)

    def body(s, x):
        x = e.dd(s, x)
        v = e.get(s, cl, p)
        e.put(s, cl, p, cat(v, x) if isstr else scat(v, arr(x)))
        return [Out("back", s)]
    return fin(loop_iter(e, st, src, c, body, "extend"), lambda s: UNIT)


@model(r"core::iter::traits::collect::FromIterator::from_iter", r".*core::iter::traits::collect::FromIterator<.*>>::from_iter")
def m_from_iter(e, st, a, c): return collect(e, st, [into_iter(e, st, a[0])], c)


def retain(e, st, a, c, cl, p, v):
    acc = cell(c.fid + 1, "ret")
    st.mem[acc] = arr()

    def body(s, x):
        out = []
        for o in e.call_value(s, a[1], [x], c.fid + 4):
            if o.tag != "ret":
                out.append(o)
                continue
            b = e.deref(o.st, o.val)
            s3 = o.st.copy()
            if s3.assume(b):
                s3.mem[acc] = scat(s3.mem[acc], arr(x))
                out.append(Out("back", s3))
            if o.st.assume(NOT_deep(b)): out.append(Out("back", o.st))
        return out
    outs = loop_iter(e, st, itx(mk("x", "seq", v), ZERO, length(v)), c, body, "retain")
    r = fin(outs, lambda s: UNIT)
    for o in r:
        if o.tag == "ret": e.put(o.st, cl, p, o.st.mem.pop(acc))
    return r


@model(r"core::iter::traits::exact_size::ExactSizeIterator::len", IT + r"size_hint")
def it_len(e, st, a, c):
    it = as_it(e, st, e.deref(st, a[0]))
    if it.op == "it" and it.a[0] == "x":
        n = sub(it.a[3], it.a[2])
        return one(st, n if not c.f["def"].endswith("size_hint") else tup(n, some(n)))
    return NotImplemented


@model(r"core::iter::sources::(once|empty|repeat|repeat_n)::\w+", r"core::iter::sources::(from_fn|successors)::\w+")
def it_src(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    if nm == "once": s = arr(a[0])
    elif nm == "empty": s = arr()
    elif nm == "repeat_n": s = constseq(e.deref(st, a[1]), e.dd(st, a[0]))
    elif nm == "repeat":
        return one(st, itx(mk("x", "seq", mk("seq", I(2 ** 64), a[0].mb + 1, a[0])), ZERO, I(2 ** 64)))
    else: raise AnalysisError("iterator source " + nm)
    return one(st, itx(mk("x", "seq", s), ZERO, length(s)))


@model(r"itertools::Itertools::multi_cartesian_product")
def it_mcp(e, st, a, c):
    """The cartesian product of a sequence of iterators, kept symbolic."""
    s = pure_elem(e, st, a[0], c)
    if s is None: return NotImplemented
    s = map_seq(st, s)
    p = app("cartesian", s)
    return one(st, itx(mk("x", "seq", p), ZERO, length(p)))


def map_seq(st, s):
    """Sequence of iterators as a sequence of (start, end) ranges when they are ranges."""
    return s


@model(r"itertools::Itertools::(join|collect_vec|sorted|dedup|unique)")
def it_itertools(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = pure_elem(e, st, e.deref(st, a[0]), c)
    if s is None: return NotImplemented
    if nm == "collect_vec": return one(st, s)
    if nm == "join":
        # Elements are displayed.
        sep = e.dd(st, a[1])
        x = fresh("i")
        el = at(s, x)
        body = dec(el) if (el in TY or el.op in INT_TERMS) else el
        return one(st, app("join_sep", mkseq(length(s), x, body), sep))
    return one(st, app(nm, s))


# ================================================================ n-dimensional arrays
ND = r"ndarray::[\w:]*<impl ndarray::ArrayBase<.*>>"


@model(r"ndarray::shape_builder::ShapeBuilder::(f|into_shape|set_f)")
def nd_builder(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = e.dd(st, a[0])
    if nm == "set_f": return one(st, ite(e.dd(st, a[1]), app("nd_layout", S("F"), s), app("nd_layout", S("C"), s)))
    return one(st, app("nd_layout", S("F" if nm == "f" else "C"), s))


def nd_layouts(s):
    """Alternatives of a shape argument: condition, order, extents."""
    if s.op == "ite":
        return [(AND(s.a[0], q), o, x) for q, o, x in nd_layouts(s.a[1])] + [(AND(NOT_deep(s.a[0]), q), o, x) for q, o, x in nd_layouts(s.a[2])]
    if s.op == "app" and s.a[0] == "nd_layout": return [(TRUE, s.a[1], s.a[2])]
    return [(TRUE, S("C"), s)]


@model(ND + r"::(from_elem|zeros|default)")
def nd_from_elem(e, st, a, c):
    s = e.dd(st, a[0])
    if len(a) < 2: return NotImplemented
    out = []
    for q, o, x in nd_layouts(s):
        t = st.copy()
        if t.assume(q): out.append(Out("ret", t, app("nd_elem", x, e.dd(t, a[1]))))
    return out


@model(ND + r"::(from_shape_vec|from_shape)")
def nd_from_vec(e, st, a, c):
    s, v = e.dd(st, a[0]), e.dd(st, a[1])
    out = []
    for q, o, x in nd_layouts(s):
        t = st.copy()
        if not t.assume(q): continue
        good = EQ(length(v), prod(x), True)
        b = t.copy()
        if t.assume(good): out.append(Out("ret", t, ok(app("nd_vec", o, x, v))))
        if b.assume(NOT_deep(good)): out.append(Out("ret", b, err(app("shape_error"))))
    return out


@model(ND + r"::(ndim|shape|len|is_empty|raw_dim|dim)")
def nd_ext(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = nd_shape(e.dd(st, a[0]))
    if nm == "ndim": return one(st, length(s))
    if nm == "len": return one(st, prod(s))
    if nm == "is_empty": return one(st, EQ(prod(s), ZERO, True))
    if nm != "shape": return NotImplemented
    return one(st, s)


@model(r"ndarray::slice::SliceInfo::<T, D>::new")
def nd_info(e, st, a, c):
    return one(st, ok(e.dd(st, a[0])))


@model(r"<ndarray::slice::SliceInfo<.*> as core::convert::AsRef<.*>>::as_ref")
def nd_info_ref(e, st, a, c):
    return one(st, e.dd(st, a[0]))


@model(ND + r"::(view|view_mut|to_owned|into_owned|t|reversed_axes|slice|slice_mut|slice_move)")
def nd_view(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    if nm == "view_mut":
        cl, p = e.target(st, a[0])
        return one(st, ref(cl, p))
    if nm in ("view", "to_owned", "into_owned"): return one(st, e.dd(st, a[0]))
    if nm in ("t", "reversed_axes"):
        v = e.dd(st, a[0])
        return one(st, v.a[1] if v.op == "app" and v.a[0] == "nd_t" else app("nd_t", v))
    info = e.dd(st, a[1])
    v = e.dd(st, a[0])
    s = nd_shape(v)
    x = fresh("i")
    el = at(info, x)
    if not (el.op == "adt" and el.a[2] == "Slice" and el.a[6] is ONE): return NotImplemented
    lo, hi = el.a[4], el.a[5]
    if hi.op == "adt": hi = hi.a[5 - 1] if hi.a[2] == "Some" else at(s, x)
    else: return NotImplemented
    n = length(info)
    chk(e, st, c, "slice dimensions", EQ(n, length(s), True))
    chk(e, st, c, "slice range", forall(n, x, AND(le(ZERO, lo), le(lo, hi), le(hi, at(s, x)))))
    starts, shape = mkseq(n, x, lo), mkseq(n, x, sub(hi, lo))
    if nm == "slice_mut":
        cl, p = e.target(st, a[0])
        return one(st, ref(cl, p + (mk("pn", starts, shape),)))
    return one(st, nd_slice(v, starts, shape))


@model(ND + r"::(assign|fill)")
def nd_put(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    old = e.get(st, cl, p)
    s = nd_shape(old)
    v = e.dd(st, a[1])
    if nm == "fill": v = app("nd_elem", s, v)
    else:
        t = nd_shape(v)
        x = fresh("i")
        chk(e, st, c, "assigned shape", AND(EQ(length(s), length(t), True), forall(length(s), x, EQ(at(s, x), at(t, x), True))))
    e.put(st, cl, p, v)
    return one(st, UNIT)


@model(ND + r"::(as_slice|as_slice_memory_order|to_slice)")
def nd_as_slice(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    v = e.dd(st, a[0])
    if nm == "as_slice_memory_order": return fork(st, app("nd_contiguous", v), lambda s: some(app("nd_raw", v)), lambda s: NONE)
    return fork(st, app("nd_standard", v), lambda s: some(app("nd_flat", v)), lambda s: NONE)


@model(ND + r"::(iter|into_iter)", r".*IntoIterator for &'a ndarray::ArrayBase<.*>>::into_iter")
def nd_iter(e, st, a, c):
    v = e.dd(st, a[0])
    f = app("nd_flat", v)
    return one(st, itx(mk("x", "seq", f), ZERO, length(f)))


@model(ND + r"::(into_raw_vec|into_raw_vec_and_offset)")
def nd_raw(e, st, a, c):
    v = app("nd_raw", e.dd(st, a[0]))
    return one(st, v if c.f["def"].endswith("vec") else tup(v, app("nd_offset", v)))

# ================================================================ paths
def is_rel(e, st, p):
    return st.facts.decide(app("has_root", p)) is False


def join(st, a, b):
    """Path::join."""
    bs = strval(b)
    if bs == "": return a if strval(a) is None and False else cat(a, S("/")) if not (a.op == "str") else S(a.a[0].rstrip("/") + "/")
    if bs is not None:
        if bs.startswith("/"): return b
        return app("join", a, b)
    return app("join", a, b)


@model(r"std::path::Path::join")
def p_join(e, st, a, c): return one(st, app("join", e.dd(st, a[0]), e.dd(st, a[1])))


@model(r"std::path::PathBuf::push")
def p_push(e, st, a, c):
    cl, p = e.target(st, a[0])
    e.put(st, cl, p, app("join", e.dd(st, a[0]), e.dd(st, a[1])))
    return one(st, UNIT)


@model(r"std::path::PathBuf::pop")
def p_pop(e, st, a, c):
    cl, p = e.target(st, a[0])
    v = e.dd(st, a[0])
    e.put(st, cl, p, app("popped", v))
    return one(st, app("has_parent", v))


@model(r"std::path::Path::components")
def p_comp(e, st, a, c):
    v = e.dd(st, a[0])
    s = app("components", v)
    return one(st, itx(mk("x", "seq", s), ZERO, length(s)))


@model(r"std::path::Path::iter")
def p_iter(e, st, a, c):
    s = app("path_iter", e.dd(st, a[0]))
    return one(st, itx(mk("x", "seq", s), ZERO, length(s)))


@model(r"std::path::Components::<'a>::as_path")
def p_as_path(e, st, a, c):
    it = e.deref(st, a[0])
    if it.op == "it" and it.a[0] == "x":
        core, pos, end = it.a[1:]
        if core.a[0] == "seq" and core.a[1].op == "app" and core.a[1].a[0] == "components" and end is length(core.a[1]):
            p = core.a[1].a[1]
            return one(st, p if pos is ZERO else app("path_from", p, pos))
    return one(st, app("as_path", e.dd(st, it)))


def path_str(e, st, p):
    return p


@model(r"std::path::Path::(has_root|is_absolute|is_relative)")
def p_root(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    p = e.dd(st, a[0])
    s = strval(p)
    b = B(s.startswith("/")) if s is not None else app("has_root", p)
    return one(st, NOT_deep(b) if nm == "is_relative" else b)


@model(r"std::path::Path::(starts_with|ends_with)")
def p_sw(e, st, a, c): return one(st, app("path_" + c.f["def"].split("::")[-1], e.dd(st, a[0]), e.dd(st, a[1])))


@model(r"std::path::Path::(parent|extension|file_name|file_stem|to_str)", r"std::ffi::os_str::OsStr::to_str")
def p_opt(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    p = e.dd(st, a[0])
    if nm == "to_str":
        if oslike(p): return one(st, app("to_str", p))
        return one(st, some(p))
    if nm == "extension":
        # Of `a.b` made by appending: an extension we know (the file name is there: see DESIGN.md).
        if strval(known_ext(p)): return one(st, some(known_ext(p)))
        return fork(st, IS(app("extension", p), "Some"), lambda s: some(vfld(app("extension", p), "Some", 0)), lambda s: NONE)
    return one(st, app(nm, p))


@model(r"std::ffi::os_str::OsString::into_string")
def p_into_string(e, st, a, c):
    p = e.dd(st, a[0])
    if oslike(p): return one(st, app("into_string", p))
    return one(st, ok(p))


def oslike(p):
    """Does the string come from the operating system, so that it need not be Unicode?"""
    return anywhere(p, lambda t: t.op == "app" and t.a[0] in ("entry_path", "entry_name", "base_path") or t.op == "fld" and t.a[2] == "base_path" or t.op == "sym" and str(t.a[1]).find("Path") >= 0) is not None


@model(r"std::path::Path::(with_extension|with_file_name|strip_prefix|canonicalize|read_link|display)", r"std::path::PathBuf::(set_extension|set_file_name)")
def p_misc(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    vals = [e.dd(st, x) for x in a]
    if nm in ("canonicalize", "read_link"):
        return one(st, e.result(st, nm, *vals))
    if nm == "display": return one(st, vals[0])
    if nm in ("set_extension", "set_file_name"):
        cl, p = e.target(st, a[0])
        e.put(st, cl, p, with_ext(e, st, vals[0], vals[1]) if nm == "set_extension" else app("with_file_name", *vals))
        return one(st, app("has_file_name", vals[0]))
    if nm == "with_extension": return one(st, with_ext(e, st, vals[0], vals[1]))
    return one(st, app(nm, *vals))


def with_ext(e, st, p, x):
    """set_extension(p, extension(p) + y) appends y to the file name; on a path without extension it
    appends `.x`."""
    ex = app("extension", p)
    if p.op == "app" and p.a[0] == "add_ext" and x.op in ("cat", "str") and strval(known_ext(p)):
        k, parts = strval(known_ext(p)), (x.a if x.op == "cat" else (x,))
        if parts[0].op == "str" and parts[0].a[0].startswith(k): return add_ext(p, S(parts[0].a[0][len(k):]), *parts[1:])
    has = st.facts.decide(IS(ex, "Some"))
    if has is True and x.op == "cat" and x.a[0] is vfld(ex, "Some", 0): return add_ext(p, *x.a[1:])
    if has is False and strval(x): return add_ext(p, S("."), x)
    if has is False and x.op == "cat" and x.a[0].op == "str" and x.a[0].a[0]: return add_ext(p, S("."), x)
    return app("with_extension", p, x)


def add_ext(p, *parts):
    """The path with the text appended to its file name (a path without one is left alone)."""
    if p.op == "app" and p.a[0] == "add_ext": return add_ext(p.a[1], p.a[2], *parts)
    c = cat(*parts)
    return p if strval(c) == "" else app("add_ext", p, c)


def known_ext(p):
    """The extension of add_ext(p, ...) when the text appended ends in a constant `.x`."""
    if not (p.op == "app" and p.a[0] == "add_ext"): return NONE
    last = p.a[2].a[-1] if p.a[2].op == "cat" else p.a[2]
    t = strval(last)
    if t is None or "." not in t or "/" in t: return NONE
    return S(t[t.rindex(".") + 1:])


# ================================================================ files
def flags(*f): return mk("flags", *sorted(f))


@model(r"std::fs::File::open")
def f_open(e, st, a, c): return one(st, e.result(st, "open", e.dd(st, a[0]), flags("read")))


@model(r"std::fs::File::(create|create_new)")
def f_create(e, st, a, c):
    fl = ("write", "create", "truncate") if c.f["def"].endswith("create") else ("write", "create_new", "read")
    return one(st, e.result(st, "open", e.dd(st, a[0]), flags(*fl)))


@model(r"std::fs::OpenOptions::new", r"std::fs::File::options")
def f_oo(e, st, a, c): return one(st, app("oo", flags()))


@model(r"std::fs::OpenOptions::(read|write|append|truncate|create|create_new)")
def f_oo_set(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    cl, p = e.target(st, a[0])
    o = e.get(st, cl, p)
    b = e.deref(st, a[1])
    fl = set(o.a[1].a) if o.op == "app" and o.a[0] == "oo" else {"unknown"}
    if b is TRUE: fl.add(nm)
    elif b is FALSE: fl.discard(nm)
    else: fl.add(nm); fl.add("maybe_" + nm)
    e.put(st, cl, p, app("oo", flags(*fl)))
    return one(st, a[0])


@model(r"std::fs::OpenOptions::open")
def f_oo_open(e, st, a, c):
    o = e.deref(st, a[0])
    fl = o.a[1] if o.op == "app" and o.a[0] == "oo" else flags("unknown")
    return one(st, e.result(st, "open", e.dd(st, a[1]), fl))


@model(r"std::fs::File::(lock|lock_shared|try_lock|try_lock_shared|unlock)", r"fs2::FileExt::(lock_shared|lock_exclusive|try_lock_shared|try_lock_exclusive|unlock)", r"<std::fs::File as fs2::FileExt>::(lock_shared|lock_exclusive|try_lock_shared|try_lock_exclusive|unlock)")
def f_lock(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    f = e.dd(st, a[0])
    if nm == "unlock": return one(st, e.result(st, "unlock", f))
    kind = "sh" if "shared" in nm else "ex"
    return one(st, e.result(st, "try_lock" if nm.startswith("try") else "lock", f, S(kind)))


@model(r"std::fs::File::(set_len|sync_all|sync_data|metadata|try_clone|set_permissions|set_modified|set_times)")
def f_meth(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    return one(st, e.result(st, "file_" + nm, *[e.dd(st, x) for x in a]))


@model(r"std::fs::(create_dir_all|create_dir|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|write|read|read_to_string|metadata|symlink_metadata|read_dir|canonicalize|set_permissions|exists|read_link|soft_link)", r"std::os::unix::fs::symlink")
def f_fn(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    return one(st, e.result(st, "stat" if nm in ("metadata", "symlink_metadata") and False else nm, *[e.dd(st, x) for x in a]))


@model(r"std::path::Path::(exists|is_file|is_dir|is_symlink|try_exists|metadata|symlink_metadata|read_dir)")
def f_stat(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    p = e.dd(st, a[0])
    return one(st, e.result(st, nm, p))


@model(r"std::fs::(DirEntry|Metadata|FileType)::(path|file_name|file_type|metadata|is_dir|is_file|is_symlink|len)", r"walkdir::dent::DirEntry::(path|file_type|path_is_symlink|file_name|into_path|depth|metadata)")
def f_entry(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    x = e.dd(st, a[0])
    ctx = c.f["def"]
    if "DirEntry" in ctx:
        if nm in ("path", "into_path"): return one(st, app("entry_path", x))
        if nm == "file_name": return one(st, app("entry_name", x))
        if nm in ("file_type", "metadata") and "std::fs" in ctx: return one(st, e.result(st, "entry_" + nm, x))
        return one(st, app("entry_" + nm, x))
    if nm == "len": return one(st, settype(app("md_len", x), "u64"))
    if nm == "file_type": return one(st, app("md_type", x))
    if "Metadata" in ctx: x = app("md_type", x)
    return one(st, app(nm, x))


@model(r"walkdir::WalkDir::new")
def w_new(e, st, a, c): return one(st, app("walkdir", e.dd(st, a[0]), flags()))


@model(r"walkdir::WalkDir::(\w+)")
def w_opt(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    w = e.deref(st, a[0])
    if nm == "into_iter": return NotImplemented
    v = e.dd(st, a[1]) if len(a) > 1 else UNIT
    return one(st, app("walkdir", w.a[1], flags(*[x for x in w.a[2].a if not x.startswith(nm + "=")], nm + "=" + show(v))))


# ================================================================ streams
@model(r"(?:std|core|alloc)::io::buffered::bufreader::BufReader::<R>::(new|with_capacity)")
def s_bufreader(e, st, a, c): return one(st, app("BufReader", e.dd(st, a[-1]) if a[-1].op != "ref" else a[-1]))


@model(r"(?:std|core|alloc)::io::buffered::bufwriter::BufWriter::<W>::(new|with_capacity)")
def s_bufwriter(e, st, a, c): return one(st, app("BufWriter", e.dd(st, a[-1]) if a[-1].op != "ref" else a[-1]))


@model(r".*BufWriter::<W>::(get_ref|get_mut|into_inner|buffer)", r".*BufReader::<R>::(get_ref|get_mut|into_inner)")
def s_inner(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    v = e.deref(st, a[0])
    i = v.a[1] if v.op == "app" and v.a[0] in ("BufWriter", "BufReader") else app("inner", v)
    if nm == "into_inner" and "BufWriter" in c.f["def"]:
        return one(st, e.result(st, "into_inner", e.dd(st, v)))
    return one(st, i)


def stream_of(e, st, r):
    return e.dd(st, r)


@model(r"(?:std|core|alloc)::io::read::Read::(read_exact|read|read_to_end|read_to_string|read_vectored|read_buf|read_buf_exact)", r"(?:std|core|alloc)::io::Read::(read_exact|read|read_to_end|read_to_string)", r".*(?:std|core|alloc)::io::(read::)?Read>::(read_exact|read|read_to_end|read_to_string)")
def s_read(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = stream_of(e, st, a[0])
    if s.op == "app" and s.a[0] == "limited": pass
    cl, p = e.target(st, a[1])
    buf = e.get(st, cl, p)
    n = length(buf)
    if s.op == "bytes" or s.op in ("arr", "seq", "subseq"): return slice_read(e, st, a, c, nm, s)
    if nm == "read_exact":
        r = e.result(st, "read_exact", s, n, S("u8"), place_term(cl, p))
        e.put(st, cl, p, sized(app("stream_bytes", r), n))
        return one(st, r)
    r = e.result(st, nm, s, n)
    settype(vfld(r, "Ok", 0), "usize")
    if nm == "read":
        st.assume(NOT_deep(AND(IS(r, "Ok"), NOT_deep(le(vfld(r, "Ok", 0), n)))))
        e.put(st, cl, p, sized(app("stream_some", r, buf), n))
    else:
        e.put(st, cl, p, app("scat_stream", buf, r))
    return one(st, r)


def slice_read(e, st, a, c, nm, s):
    return [Out("ret", st, e.result(st, nm, s, length(e.deref(st, a[1]))))]


def place_term(c, p): return mk("place", c, tuple(p))


def sized(t, n):
    """A sequence with a known length."""
    return mk("subseq", t, ZERO, n)


@model(r"(?:std|core|alloc)::io::read::Read::(by_ref|bytes|chain|take)", r"(?:std|core|alloc)::io::Read::(by_ref|bytes|chain|take)")
def s_adapt(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    if nm == "by_ref": return one(st, a[0])
    return one(st, app("stream_" + nm, *[e.dd(st, x) for x in a]))


@model(r"(?:std|core|alloc)::io::write::Write::(write_all|write|flush|write_fmt|write_vectored|by_ref)", r"(?:std|core|alloc)::io::Write::(write_all|write|flush)", r".*(?:std|core|alloc)::io::(write::)?Write>::(write_all|write|flush|write_fmt)", r"(?:std|core|alloc)::io::impls::<impl (?:std|core|alloc)::io::write::Write for .*>::(write_all|write|flush)")
def s_write(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    if nm == "by_ref": return one(st, a[0])
    if c.f.get("body") and e.bodies[c.f["body"]]["local"]: return NotImplemented
    s = stream_of(e, st, a[0])
    vals = [e.dd(st, x) for x in a[1:]]
    ty = inty(c)
    if ty.startswith("alloc::vec::Vec<u8"):
        # Writing to a vector appends and cannot fail.
        cl, p = e.target(st, a[0])
        if nm in ("write_all", "write"): e.put(st, cl, p, scat(e.get(st, cl, p), vals[0]))
        return one(st, ok(UNIT if nm != "write" else length(vals[0])))
    if nm == "write_all" and vals and vals[0].op == "vfld" and vals[0].a[0].op == "app" and vals[0].a[0].a[0] in ("to_vec", "to_string", "to_vec_pretty", "to_string_pretty"):
        # A document serialised first and written afterwards.
        return one(st, e.result(st, "to_writer", s, vals[0].a[0].a[1]))
    r = e.result(st, nm, s, *vals)
    if nm == "write":
        settype(vfld(r, "Ok", 0), "usize")
    return one(st, r)


@model(r"byteorder::io::(ReadBytesExt::read_\w+)")
def s_bo_read(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    order = [x for x in c.targs() if "Endian" in x]
    s = stream_of(e, st, a[0])
    ty = nm.replace("read_", "").replace("_into", "")
    if nm.endswith("_into"):
        cl, p = e.target(st, a[1])
        n = length(e.get(st, cl, p))
        r = e.result(st, "read_into", s, n, S(ty), S(order[0].split("::")[-1] if order else "none"), place_term(cl, p))
        e.put(st, cl, p, sized(app("stream_elems", r), n))
        return one(st, r)
    r = e.result(st, "read_one", s, S(ty), S(order[0].split("::")[-1] if order else "none"))
    return one(st, r)


@model(r"byteorder::ByteOrder::(write|read)_(\w+)", r"<byteorder::(Big|Little)Endian as byteorder::ByteOrder>::(write|read)_\w+")
def s_bo(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    slf = " ".join(c.targs()) + " " + (c.f.get("rdef") or "")
    order = "BigEndian" if "BigEndian" in slf else "LittleEndian" if "LittleEndian" in slf else "?"
    kind, ty = nm.split("_")[0], nm.split("_")[1]
    if kind == "write" and nm.endswith("_into"):
        src = e.dd(st, a[0])
        cl, p = e.target(st, a[1])
        sz = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16}[ty[1:]]
        n = length(e.get(st, cl, p))
        chk(e, st, c, "length", EQ(n, mul(I(sz), length(src)), True))
        e.put(st, cl, p, sized(app("encoded", S(ty), S(order), src), n))
        return one(st, UNIT)
    if kind == "read" and nm.endswith("_into"):
        src = e.dd(st, a[0])
        cl, p = e.target(st, a[1])
        n = length(e.get(st, cl, p))
        e.put(st, cl, p, sized(app("decoded", S(ty), S(order), src), n))
        return one(st, UNIT)
    vals = [e.dd(st, x) for x in a]
    if kind == "write":
        cl, p = e.target(st, a[0])
        e.put(st, cl, p, sized(app("encoded1", S(ty), S(order), vals[1]), length(e.get(st, cl, p))))
        return one(st, UNIT)
    return one(st, app("decoded1", S(ty), S(order), *vals))


@model(r"(?:core::num|core::f\d+|core::num::f\d+|std::f\d+)::<impl (\w+)>::(to|from)_(le|be|ne)_bytes", r"half::(?:binary16::)?f16::(to|from)_(le|be|ne)_bytes")
def s_bytes_of(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    m = re.search(r"impl (\w+)>", c.f["def"])
    ty = m.group(1) if m else "half::binary16::f16"
    order = {"le": "LittleEndian", "be": "BigEndian", "ne": "NativeEndian"}[nm.split("_")[1]]
    v = e.dd(st, a[0])
    n = I(int(re.sub(r"\D", "", ty.split("::")[-1])) // 8)
    if nm.startswith("to_"):
        t = sized(app("encoded1", S(ty), S(order), v), n)
    else:
        t = app("decoded1", S(ty), S(order), v)
        settype(t, ty)
    return one(st, t)


@model(r"half::(?:binary16::)?f16::(from_bits|to_bits)", r"(?:core::num|core::f\d+|core::num::f\d+|std::f\d+)::<impl f\d+>::(from_bits|to_bits)")
def s_bits(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    m = re.search(r"impl (\w+)>", c.f["def"])
    v = e.dd(st, a[0])
    n = (m.group(1) if m else "f16")[1:]
    if v.op == "app" and v.a[0] == "bits" and v.a[2].a[0] != nm: return one(st, v.a[3])
    return one(st, app("bits", I(int(n)), S(nm), v))


@model(r"byteorder::io::(WriteBytesExt::write_\w+)")
def s_bo_write(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    order = [x for x in c.targs() if "Endian" in x]
    ty = nm.replace("write_", "")
    s = stream_of(e, st, a[0])
    ordr = order[0].split("::")[-1] if order else "none"
    return one(st, e.result(st, "write_all", s, app("encoded1", S(ty), S(ordr), e.dd(st, a[1]))))


@model(r"(?:std|core|alloc)::io::copy::copy", r"(?:std|core|alloc)::io::copy")
def s_copy(e, st, a, c): return one(st, e.result(st, "io_copy", *[e.dd(st, x) for x in a]))


# ================================================================ JSON
@model(r"serde_json::de::(from_reader|from_str|from_slice)")
def j_from(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    v = e.dd(st, a[0])
    ty = result_ty(c.dty())
    if nm == "from_reader": return one(st, e.result(st, "from_reader", v, S(ty)))
    return one(st, app(nm, S(ty), v))


def result_ty(t):
    if t.startswith("core::result::Result<"):
        t = t[len("core::result::Result<"):]
        d = 0
        for i, ch in enumerate(t):
            if ch in "<([": d += 1
            elif ch in ">)]": d -= 1
            elif ch == "," and d == 0: return t[:i]
    return t


@model(r"serde_json::ser::(to_writer|to_writer_pretty)")
def j_to(e, st, a, c): return one(st, e.result(st, "to_writer", e.dd(st, a[0]), e.dd(st, a[1])))


@model(r"serde_json::ser::(to_vec|to_string|to_vec_pretty|to_string_pretty)", r"serde_json::value::(to_value|from_value)")
def j_conv(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    v = e.dd(st, a[0])
    if nm == "from_value": return one(st, app("from_value", S(result_ty(c.dty())), v))
    return one(st, app(nm, v))


@model(r"serde_core::de::impls::<impl serde_core::de::Deserialize<'de> for (bool|[iu]\d+|[iu]size|f32|f64)>::deserialize")
def j_prim(e, st, a, c):
    # A primitive read from a value in memory is what from_value gives.
    d = c.f["args"][-1] if c.f.get("args") else ""
    if not str(d).endswith("serde_json::value::Value"): return NotImplemented
    return one(st, app("from_value", S(result_ty(c.dty())), e.dd(st, a[0])))


@model(r"(?:std|core|alloc)::io::error::Error::\w+", r"(?:std|core|alloc)::io::error::<impl (?:std|core|alloc)::io::error::Error>::\w+", r".*(?:std|core|alloc)::io::error::Error as core::convert::From<.*>>::from")
def m_ioerr(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    if nm in ("kind",): return one(st, app("io_error_kind", e.dd(st, a[0])))
    return one(st, app("io_error", *[e.dd(st, x) for x in a]))


# ================================================================ panics
@model(r"core::panicking::.*", r"core::option::(unwrap_failed|expect_failed)", r"core::result::unwrap_failed", r"std::rt::.*panic.*", r"core::slice::index::slice_.*fail.*", r"std::panicking::.*")
def m_panic(e, st, a, c):
    return [Out("panic", st, (c.f.get("def"), c.key, c.sp, tuple(e.dd(st, x) for x in a)))]


# ================================================================ serde_json maps
MAP = r"serde_json::map::Map::<.*>"


@model(MAP + r"::(new|with_capacity)")
def j_mnew(e, st, a, c): return one(st, app("map", arr()))


@model(MAP + r"::insert")
def j_minsert(e, st, a, c):
    cl, p = e.target(st, a[0])
    m = e.get(st, cl, p)
    k, v = e.dd(st, a[1]), e.dd(st, a[2])
    e.put(st, cl, p, app("map_insert", m, k, v))
    return one(st, map_get(m, k))


@model(MAP + r"::remove")
def j_mremove(e, st, a, c):
    cl, p = e.target(st, a[0])
    m = e.get(st, cl, p)
    k = e.dd(st, a[1])
    e.put(st, cl, p, app("map_remove", m, k))
    return one(st, map_get(m, k))


@model(MAP + r"::(get|contains_key)")
def j_mget(e, st, a, c):
    m, k = e.dd(st, a[0]), e.dd(st, a[1])
    g = map_get(m, k)
    return one(st, g if c.f["def"].endswith("get") else IS(g, "Some"))


@model(MAP + r"::get_mut")
def j_mgetmut(e, st, a, c):
    cl, p = e.target(st, a[0])
    m = e.get(st, cl, p)
    k = e.dd(st, a[1])
    g = map_get(m, k)
    out = []
    for s, y in opt_cases(st, g, "Some"):
        out.append((s, NONE if y is None else some(ref(cl, p + (mk("pmap", k),)))))
    return out


@model(MAP + r"::(is_empty|len)")
def j_mlen(e, st, a, c):
    m = e.dd(st, a[0])
    n = length(app("entries", m))
    return one(st, n if c.f["def"].endswith("len") else EQ(n, ZERO, True))


@model(MAP + r"::(iter|into_iter|keys|values)")
def j_miter(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    s = app("entries", e.dd(st, a[0]))
    if nm in ("keys", "values"):
        x = fresh("i")
        s = mkseq(length(s), x, fld(at(s, x), 0 if nm == "keys" else 1))
    return one(st, itx(mk("x", "seq", s), ZERO, length(s)))


@model(r"serde_json::value::Value::(as_object|as_object_mut|as_str|as_u64|as_i64|as_array|is_object|is_null|is_string|as_bool|as_f64)")
def j_val(e, st, a, c):
    nm = c.f["def"].split("::")[-1]
    var = {"as_object": ("Object", 5), "as_object_mut": ("Object", 5), "is_object": ("Object", 5), "as_array": ("Array", 4), "as_str": ("String", 3), "as_bool": ("Bool", 1), "is_null": ("Null", 0), "is_string": ("String", 3)}.get(nm)
    if not var: return NotImplemented
    cl, p = e.target(st, a[0])
    v = e.get(st, cl, p)
    if nm.startswith("is_"): return one(st, IS(v, var[0]))
    out = []
    for s, y in opt_cases(st, v, var[0]):
        out.append((s, NONE if y is None else some(ref(cl, p + (pv(var[1], var[0]), pf(0, "0"))) if nm.endswith("_mut") else y)))
    return out


@model(r"serde_json::map::.*::(entry|or_insert|or_insert_with|or_default|and_modify)")
def j_entry(e, st, a, c):
    return NotImplemented
