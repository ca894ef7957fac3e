"""Facts of the current tree, analysis of entry points, and reporting."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.setrecursionlimit(60000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZARR_REPO", "/repo")
DRIVER = VERIF + "/driver/target/debug/zarr-mir-facts"

from terms import *
from engine import *
import models
import layers


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    src = [VERIF + "/driver/src/" + f for f in os.listdir(VERIF + "/driver/src")] + [VERIF + "/driver/Cargo.toml"]
    if os.path.exists(DRIVER) and all(os.path.getmtime(f) <= os.path.getmtime(DRIVER) for f in src): return
    r = sh(["cargo", "+nightly", "build", "--offline"], cwd=VERIF + "/driver")
    if r.returncode != 0 or not os.path.exists(DRIVER):
        print(r.stdout[-3000:])
        print("The MIR driver does not build.")
        sys.exit(2)


class BuildError(Exception):
    pass


_facts = {}
_tmp = None


def facts(features=None, elem=None):
    """MIR facts of /repo's working tree in a feature configuration. With an element type: the facts of the
    functions that are generic in the element, instantiated with it (None: all of the crate, with i32)."""
    global _tmp
    if (features, elem) in _facts: return _facts[(features, elem)]
    dev = os.environ.get("ZARR_FACTS")
    if dev and features is None:
        if elem is None:
            _facts[(None, None)] = json.load(open(dev))
        else:
            _load_elems(features, dev)
        return _facts[(features, elem)]
    build_driver()
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="zarr-facts-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    env = dict(os.environ)
    root = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    env["LD_LIBRARY_PATH"] = root + "/lib"
    out = tempfile.mkdtemp(dir=_tmp)
    env["FACTS_OUT"] = out + "/facts.json"
    env["FACTS_NONCE"] = out
    env["FACTS_ELEMS"] = "1"
    env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    env["CARGO_TARGET_DIR"] = _tmp + "/target"
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
    if features is not None: cmd += ["--no-default-features"] + (["--features", features] if features else [])
    r = sh(cmd, cwd=REPO, env=env)
    if r.returncode != 0 or not os.path.exists(env["FACTS_OUT"]):
        raise BuildError(r.stdout[-4000:])
    _facts[(features, None)] = json.load(open(env["FACTS_OUT"]))
    _load_elems(features, env["FACTS_OUT"])
    return _facts[(features, elem)]


def _load_elems(features, base):
    d = os.path.dirname(base)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(base) + "."):
            _facts[(features, f[len(os.path.basename(base)) + 1:])] = json.load(open(d + "/" + f))
    _facts[(features, "i32")] = _facts.get((features, None)) or json.load(open(base))


def elem_types(features=None):
    """The element types for which chunks can be read and written."""
    facts(features)
    if not any(k[0] == features and k[1] not in (None, "i32") for k in _facts): facts(features, "f64")
    return sorted(k[1] for k in _facts if k[0] == features and k[1] is not None)


LAYERS = {
    "fs": lambda: [],
    "store": lambda: [layers.STORE_LAYER, layers.CODEC_LAYER],
    "nd": lambda: [layers.named(("read_chunk", "read_chunk_into", "write_chunk"), "c_")] + layers.COORDS_LAYER,
    "codec": lambda: [layers.CODEC_LAYER],
    "none": lambda: [],
}


def root_args(F, r):
    b = F["bodies"][r["key"]]
    args = []
    for i in range(1, b["argc"] + 1):
        l = b["locals"][i]
        nm = "self" if i == 1 and l.get("name") == "self" else f"arg{i}"
        t = sym(nm, l["ty"])
        settype(t, l["ty"].lstrip("&"))
        args.append(t)
    return args


def field_of(F, adt, base, name=None, ty=None):
    """Field of a struct by name, or else by its type."""
    a = next((x for x in F["adts"] if x["path"].endswith("::" + adt)), None)
    if a is None: raise AnalysisError("type not found: " + adt)
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f["name"] == name: return fld(base, i, f["name"])
    for i, f in enumerate(a["variants"][0]["fields"]):
        if ty and ty in f["ty"]: return fld(base, i, f["name"])
    raise AnalysisError(f"field {name} of {adt} not found")


def chunk_shape_of(F, meta): return field_of(F, "ChunkGridMetadata", field_of(F, "ArrayMetadata", meta, "chunk_grid", "ChunkGridMetadata"), "chunk_shape", "SmallVec")


def assume_wf(F, body, args, st):
    """Array metadata given to the operation is well formed (C14 decides that loaded metadata is)."""
    for i, a in enumerate(args):
        if body["locals"][i + 1]["ty"].replace("&mut ", "").lstrip("&") == "zarr::ArrayMetadata":
            shape, cs = field_of(F, "ArrayMetadata", a, "shape"), chunk_shape_of(F, a)
            x = fresh()
            st.assume(EQ(length(cs), length(shape), True))
            st.assume(forall(length(cs), x, NOT(EQ(at(cs, x), ZERO, True))))


class Run:
    """The outcomes of one entry point at one layer of abstraction."""

    def __init__(self, F, r, layer, budget=150000, prep=None, opts=()):
        self.root = r
        # Bodies that differ between roots under the same name are kept under name@@root.
        own = {k.split("@@")[0]: F["bodies"][k] for k in r.get("bodies", []) if "@@" in k}
        if own: F = dict(F, bodies={**F["bodies"], **own})
        self.e = Engine(F, budget=budget)
        self.e.stops = LAYERS[layer]() if isinstance(layer, str) else list(layer)
        self.e.opts = set(opts)
        self.e.unroll = "nounroll" not in opts
        self.args = root_args(F, r)
        st = St()
        if prep:
            a2 = prep(self.e, st, self.args)
            if a2 is not None: self.args = a2
        if "wf" in opts: assume_wf(F, F["bodies"][r["key"]], self.args, st)
        self.outs = self.e.run(r["key"], self.args, st, 1)

    @property
    def name(self): return self.root["path"]

    def rets(self): return [o for o in self.outs if o.tag == "ret"]
    def panics(self): return [o for o in self.outs if o.tag == "panic"]

    def oks(self):
        """Outcomes that may be successful, with the facts under which they are."""
        for o in self.rets():
            f = o.st.facts.copy()
            if f.add(IS(o.val, "Ok")): yield o, f

    def errs(self):
        for o in self.rets():
            f = o.st.facts.copy()
            if f.add(NOT_deep(IS(o.val, "Ok"))): yield o, f


class Tree:
    def __init__(self, F):
        self.F = F
        self.roots = F["roots"]
        self.memo = {}

    def run(self, r, layer, **kw):
        k = (r["key"], layer, tuple(kw.get("opts", ())))
        if k not in self.memo: self.memo[k] = Run(self.F, r, layer, **kw)
        return self.memo[k]

    def pick(self, **want):
        out = []
        for r in self.roots:
            okk = True
            for k, v in want.items():
                x = r.get(k)
                if callable(v): okk = okk and v(x)
                elif x != v: okk = False
            if okk: out.append(r)
        return out

    def one(self, rep, **want):
        l = self.pick(**want)
        if not l:
            rep.violation("missing:" + str(sorted(want.items())), "entry point not found: " + str(want))
            return None
        return l[0]


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.discharged = 0
        self.functions = set()
        self.notes = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, run):
        self.functions |= run.e.visited
        self.count("outcomes", len(run.outs))
        self.count("entry points")

    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def ob(self, okk, key, msg, sample=None):
        """One obligation: discharged, or a violation."""
        self.count("obligations")
        if okk:
            self.discharged += 1
            if sample and len(self.samples) < 12: self.samples.append(sample if isinstance(sample, str) else show(sample)[:300])
        else:
            self.violation(key, msg() if callable(msg) else msg)
        return okk

    def floor(self, what, n):
        """Fewer instances than the rule was written for means that the rule no longer sees them."""
        if self.counts.get(what, 0) < n:
            self.violation("floor:" + what, f"only {self.counts.get(what, 0)} {what} found where at least {n} are expected")


def events(trace, facts=None):
    """All events of a trace, those of loop iterations included, with the facts of the iteration."""
    for ev in trace:
        if ev.a[0] == "loop":
            for al in ev.a[-1]:
                f = None
                if facts is not None:
                    f = facts.copy()
                    for x in al.a[0]: f._add(x)
                for y in events(al.a[1], f): yield y
        else: yield ev, facts


def short(t, n=160):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"


def a_product(what, c):
    """The overflow of the number of elements of a box or chunk, a product over its dimensions."""
    if what == "overflow in product": return True
    return "overflow Mul" in what and any(u.op == "prod" for u in subterms(c))
