"""Value of a summary term for given values of its inputs. Only used to look for a witness when two
terms that should be equal are not syntactically equal after normalisation."""
import posixpath
from terms import *


class Unknown(Exception):
    pass


class V(tuple):
    """An enum or struct value: (variant, fields)."""
    def __new__(cls, vn, *fields): return tuple.__new__(cls, (vn, tuple(fields)))


def Some(x): return V("Some", x)


NONE = V("None")


def ev(t, env, loops=()):
    memo = {}

    def go(t, bound=()):
        key = (t, bound)
        if key in memo: return memo[key]
        r = go1(t, bound)
        memo[key] = r
        return r

    def field(v, i, n):
        if isinstance(v, dict):
            if n in v: return v[n]
            raise Unknown("field " + str(n))
        if isinstance(v, V): return v[1][i]
        if isinstance(v, (tuple, list)): return v[i]
        raise Unknown("field of " + str(type(v)))

    def go1(t, bd):
        if t in env: return env[t]
        o, a = t.op, t.a
        if o in ("int", "bool", "str", "char"): return a[0]
        if o == "bytes": return list(a[0])
        if o == "poly":
            r = 0
            for m, c in a[0]:
                x = c
                for y in m: x *= go(y, bd)
                r += x
            return r
        if o == "ge0": return go(a[0], bd) >= 0
        if o == "eq0": return go(a[0], bd) == 0
        if o == "eq": return go(a[0], bd) == go(a[1], bd)
        if o == "not": return not go(a[0], bd)
        if o == "and":
            bad = None
            for x in a:
                try:
                    if not go(x, bd): return False
                except Unknown as u: bad = u
            if bad is not None: raise bad
            return True
        if o == "ite": return go(a[1], bd) if go(a[0], bd) else go(a[2], bd)
        if o == "div":
            y = go(a[1], bd)
            if y == 0: raise Unknown("division by zero")
            return go(a[0], bd) // y
        if o == "cdiv":
            y = go(a[1], bd)
            if y == 0: raise Unknown("division by zero")
            return -((-go(a[0], bd)) // y)
        if o == "rem":
            y = go(a[1], bd)
            if y == 0: raise Unknown("division by zero")
            return go(a[0], bd) % y
        if o == "min": return min(go(x, bd) for x in a)
        if o == "max": return max(go(x, bd) for x in a)
        if o == "bv":
            for h, v in reversed(bd):
                if h == a[0]: return v
            raise Unknown("unbound")
        if o == "seq": return [go(a[2], bd + ((a[1], i),)) for i in range(go(a[0], bd))]
        if o == "forall": return all(go(a[2], bd + ((a[1], i),)) for i in range(go(a[0], bd)))
        if o == "arr": return [go(x, bd) for x in a]
        if o == "tup": return tuple(go(x, bd) for x in a)
        if o == "adt": return V(a[2], *[go(x, bd) for x in a[4:]])
        if o == "at":
            s, i = go(a[0], bd), go(a[1], bd)
            if not 0 <= i < len(s): raise Unknown("index")
            return s[i]
        if o == "len":
            s = go(a[0], bd)
            return len(s.encode()) if isinstance(s, str) else len(s)
        if o == "upd":
            s = list(go(a[0], bd)); s[go(a[1], bd)] = go(a[2], bd)
            return s
        if o == "subseq":
            s, x, y = go(a[0], bd), go(a[1], bd), go(a[2], bd)
            return s[x:y]
        if o == "scat": return [x for p in a for x in go(p, bd)]
        if o == "flat": return [x for p in go(a[0], bd) for x in p]
        if o == "cat": return "".join(go(p, bd) for p in a)
        if o == "sjoin": return "".join(go(a[0], bd))
        if o == "prod":
            r = 1
            for x in go(a[0], bd): r *= x
            return r
        if o == "sum": return sum(go(a[0], bd))
        if o == "fld": return field(go(a[0], bd), a[1], a[2])
        if o == "vfld":
            v = go(a[0], bd)
            if isinstance(v, V) and v[0] == a[1]: return v[1][a[2]]
            raise Unknown("variant field")
        if o == "is":
            v = go(a[0], bd)
            if isinstance(v, V): return v[0] == a[1]
            raise Unknown("variant of " + show(a[0])[:60])
        if o == "rec": raise Unknown("rec")
        if o == "phi": return phi(t, bd)
        if o == "app": return appl(t, bd)
        raise Unknown(o + ": " + show(t)[:60])

    def phi(t, bd):
        raise Unknown("phi")

    def appl(t, bd):
        f = t.a[0]
        xs = t.a[1:]
        if f == "dec": return str(go(xs[0], bd))
        if f == "trim":
            s, cs, how = go(xs[0], bd), go(xs[1], bd), (xs[2].a[0] if isinstance(xs[2], T) else xs[2])
            if not isinstance(cs, str) or len(cs) != 1: raise Unknown("trim")
            if "s" in how: s = s.lstrip(cs)
            if "e" in how: s = s.rstrip(cs)
            return s
        if f in ("starts_with", "ends_with"):
            s, p = go(xs[0], bd), go(xs[1], bd)
            return s.startswith(p) if f == "starts_with" else s.endswith(p)
        if f == "stripped_prefix":
            s, p = go(xs[0], bd), go(xs[1], bd)
            return s[len(p):] if s.startswith(p) else s
        if f == "stripped_suffix":
            s, p = go(xs[0], bd), go(xs[1], bd)
            return s[:len(s) - len(p)] if s.endswith(p) else s
        if f == "join_sep" : return go(xs[1], bd).join(go(xs[0], bd))
        if f == "join":
            s = go(xs[0], bd)
            for y in xs[1:]: s = rjoin(s, go(y, bd))
            return s
        if f == "extension":
            n = fname(go(xs[0], bd))
            if n is None or "." not in n[1:]: return NONE
            return Some(n[n.rindex(".") + 1:])
        if f == "add_ext":
            p, e = go(xs[0], bd), go(xs[1], bd)
            return p if fname(p) is None else p.rstrip("/") + e
        if f == "with_extension":
            p, e = go(xs[0], bd), go(xs[1], bd)
            n = fname(p)
            if n is None: return p
            stem = n[:n.rindex(".")] if "." in n[1:] else n
            q = p.rstrip("/")
            q = q[:len(q) - len(n)]
            return q + stem + ("." + e if e else "")
        if f in ("path", "to_path_buf", "as_path", "path_from", "disp", "to_str", "into_string"): return go(xs[0], bd)
        if f == "to_lowercase": return go(xs[0], bd).lower()
        if f == "size_of": raise Unknown(f)
        raise Unknown("app " + str(f))
    return go(t)


def rjoin(a, b):
    if b.startswith("/"): return b
    if not a or a.endswith("/"): return a + b
    return a + "/" + b


def fname(p):
    cs = [c for i, c in enumerate(p.split("/")) if c and not (c == "." and i)]
    if not cs or cs[-1] == "..": return None
    return cs[-1]


def differ(t, oracle, envs):
    """(status, witness): 'equal' when t has the oracle's value on all environments, 'differs' with
    the first on which it has not, 'unknown' when it cannot be evaluated."""
    n = 0
    for env, want in ((e, oracle(e)) for e in envs):
        try: got = ev(t, env)
        except Unknown as x: return "unknown", str(x)
        except (IndexError, TypeError, AttributeError, ValueError) as x: return "unknown", repr(x)
        if got != want: return "differs", (env, want, got)
        n += 1
    return "equal", n
