"""F30: exhaustive exploration of the Python binding.

Runs in the Python of the extension.  Every class is a scenario: ways to construct it, calls that
change it, calls that ask it.  All histories of changes up to a depth are walked; the last change
and the questions are put in every form of every argument.  The same calls go to the C++ classes
through F30_oracle; answers, refusals and the state after refusals have to be the same.  Besides,
every argument of every call is replaced by every member of a menu of invalid values.
"""
import ctypes, itertools, json, math, mmap, os, signal, struct, sys, time, traceback
import numpy

CFG = json.load(open(sys.argv[1]))
sys.path.insert(0, CFG["lib"])
import fisx
assert os.path.realpath(fisx.__file__).startswith(os.path.realpath(CFG["lib"])), fisx.__file__
THOROUGH = CFG["tier"] == "thorough"
DATA = CFG["data"]
SCRATCH = CFG["scratch"]
REPLAY = CFG.get("replay")

# ---------------------------------------------------------------- the C++ side
_so = ctypes.CDLL(CFG["oracle"])
_so.fx_call.restype = ctypes.c_void_p
_so.fx_call.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_long)]

class Refused(Exception):
    pass

def enc(v):
    if isinstance(v, bool) or isinstance(v, int):
        return b"i%d;" % v
    if isinstance(v, float):
        return b"d" + (v.hex().encode() if math.isfinite(v) else repr(v).encode()) + b";"
    if isinstance(v, str):
        v = v.encode("utf-8")
    if isinstance(v, bytes):
        return b"s%d:" % len(v) + v
    if isinstance(v, (list, tuple)):
        return b"L%d:" % len(v) + b"".join(enc(x) for x in v)
    if isinstance(v, dict):
        return b"M%d:" % len(v) + b"".join(enc(k) + enc(x) for k, x in v.items())
    raise TypeError(v)

def dec(b, p):
    t = b[p:p + 1]
    p += 1
    if t in b"id":
        e = b.index(b";", p)
        s = b[p:e].decode()
        if t == b"i":
            return int(s), e + 1
        return (float(s) if "n" in s else float.fromhex(s)), e + 1
    e = b.index(b":", p)
    n = int(b[p:e])
    p = e + 1
    if t == b"s":
        return b[p:p + n].decode("utf-8"), p + n
    if t == b"L":
        o = []
        for _ in range(n):
            v, p = dec(b, p)
            o.append(v)
        return o, p
    o = {}
    for _ in range(n):
        k, p = dec(b, p)
        o[k], p = dec(b, p)
    return o, p

def cpp(op, *args):
    n = ctypes.c_long()
    r = _so.fx_call(enc([op] + list(args)), ctypes.byref(n))
    out = ctypes.string_at(r, n.value)
    if out[:1] == b"!":
        raise Refused(out[1:].decode(errors="replace"))
    if out[:1] == b"?":
        raise KeyError(op)
    return dec(out, 0)[0]

# ---------------------------------------------------------------- comparison
def badtype(v):
    if v is None or isinstance(v, (str, int, float)):
        return None
    if isinstance(v, (list, tuple)):
        for x in v:
            b = badtype(x)
            if b:
                return b
        return None
    if isinstance(v, dict):
        for k, x in v.items():
            b = badtype(k) or badtype(x)
            if b:
                return b
        return None
    return type(v).__name__

def same(a, b):
    """a from Python, b from C++"""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(a, bool) or isinstance(a, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= 1e-10 * max(abs(a), abs(b))
    return False

# ---------------------------------------------------------------- arguments
class Pair(object):
    """an object of the binding and its C++ counterpart"""
    def __init__(self, py, h):
        self.py, self.h = py, h

NO = object()

class P(object):
    def __init__(self, name, kind, value, default=NO):
        self.name, self.kind, self.value, self.default = name, kind, value, default

def texts(v):
    return [v, v.encode("utf-8"), numpy.str_(v)]

def forms(kind, v):
    """[(label, argument)]: the first one is the plain form"""
    if kind == "text":
        return [("str", v), ("bytes", v.encode()), ("numpy.str_", numpy.str_(v))]
    if kind == "stext":          # text of files and such: no numpy scalars
        return [("str", v), ("bytes", v.encode())]
    if kind == "real":
        o = [("float", v), ("numpy.float64", numpy.float64(v))]
        if v == int(v):
            o += [("int", int(v)), ("numpy.int64", numpy.int64(v))]
        return o
    if kind == "integer":
        return [("int", v), ("numpy.int64", numpy.int64(v)), ("numpy.int32", numpy.int32(v))]
    if kind == "flag":
        return [("int", v), ("bool", bool(v))]
    if kind in ("reals", "energies"):
        o = [("list", list(v)), ("tuple", tuple(v)), ("array", numpy.array(v, numpy.float64)),
             ("list of numpy", [numpy.float64(x) for x in v]),
             ("reversed view", numpy.array(v[::-1], numpy.float64)[::-1])]
        if all(x == int(x) for x in v):
            o += [("list of int", [int(x) for x in v]), ("int array", numpy.array([int(x) for x in v], numpy.int64))]
        if kind == "energies" and len(v) == 1:
            o += [("scalar " + l, x) for l, x in forms("real", v[0])]
        return o
    if kind == "ints":
        o = [("list", list(v)), ("tuple", tuple(v)), ("array", numpy.array(v, numpy.int64))]
        if len(v) == 1:
            o += [("scalar int", v[0]), ("scalar numpy", numpy.int64(v[0]))]
        return o
    if kind == "names":
        return [("list of str", list(v)), ("list of bytes", [x.encode() for x in v]), ("tuple of str", tuple(v)),
                ("tuple of bytes", tuple(x.encode() for x in v)),
                ("mixed", [x.encode() if i % 2 else x for i, x in enumerate(v)]),
                ("mixed the other way", [x if i % 2 else x.encode() for i, x in enumerate(v)])]
    if kind == "nameOrNames":
        o = forms("names", v)
        if len(v) == 1:
            o += [("single " + l, x) for l, x in forms("stext", v[0])]
        return o
    if kind == "amounts":
        return [("str keys", dict(v)), ("bytes keys", dict((k.encode(), x) for k, x in v.items())),
                ("mixed keys", dict((k.encode() if i % 2 else k, x) for i, (k, x) in enumerate(v.items()))),
                ("numpy values", dict((k, numpy.float64(x)) for k, x in v.items()))]
    if kind == "points":
        return [("dict", dict(v)), ("int keys", dict((int(k) if k == int(k) else k, x) for k, x in v.items()))]
    if kind == "obj":
        return [("instance", v.py)]
    if kind == "layers":
        o = [("instances", [fisx.Layer(*x) for x in v]), ("tuple of instances", tuple(fisx.Layer(*x) for x in v)),
             ("lists", [list(x) for x in v]), ("tuples", tuple(tuple(x) for x in v)),
             ("bytes names", [[x[0].encode()] + list(x[1:]) for x in v])]
        if all(x[3] == 1.0 for x in v):
            o += [("three items", [list(x[:3]) for x in v]), ("three items bytes", [(x[0].encode(), x[1], x[2]) for x in v])]
        return o
    if kind == "tables":
        inst = []
        for e, t, name, comment in v:
            x = fisx.TransmissionTable()
            x.setTransmissionTableFromLists(e, t, name, comment)
            inst.append(x)
        return [("lists", [[list(e), list(t), n, c] for e, t, n, c in v]), ("instances", inst),
                ("tuple of instances", tuple(inst)),
                ("arrays", [(numpy.array(e), numpy.array(t), n.encode(), c.encode()) for e, t, n, c in v]),
                ("dicts", [[dict(zip(e, t)), n, c] for e, t, n, c in v]),
                ("dicts bytes", [(dict(zip(e, t)), n.encode(), c.encode()) for e, t, n, c in v])]
    raise KeyError(kind)

def canon(p):
    v = p.value
    if p.kind == "obj":
        return v.h
    if p.kind == "layers":
        return [cpp("Layer.new", *[float(y) if i else y for i, y in enumerate(x)]) for x in v]
    if p.kind == "tables":
        o = []
        for e, t, name, comment in v:
            h = cpp("Table.new")
            cpp("Table.setLists", h, [float(x) for x in e], [float(x) for x in t], name, comment)
            o.append(h)
        return o
    if p.kind == "real":
        return float(v)
    if p.kind in ("reals", "energies"):
        return [float(x) for x in v]
    if p.kind in ("amounts",):
        return dict((k, float(x)) for k, x in v.items())
    if p.kind == "points":
        return dict((float(k), float(x)) for k, x in v.items())
    return v

class Call(object):
    """one method with one set of values.  op: operation of the oracle, given the handle of the
    subject and the canonical values (changed by how(values) if given); scalar: operation for the
    scalar form of the first 'energies' argument, which then gets a number"""
    def __init__(self, method, params=(), op=None, how=None, scalar=None, post=None, lacks=(), coupled=()):
        self.method, self.params, self.op, self.how, self.scalar, self.post = method, list(params), op, how, scalar, post
        self.lacks = lacks      # forms that the method does not offer (a list of labels)
        self.coupled = coupled  # arguments that are all scalars or all lists
    def __str__(self):
        return "%s(%s)" % (self.method, ", ".join("%s=%s" % (p.name, show(p.value)) for p in self.params))

def show(v):
    if isinstance(v, Pair):
        return type(v.py).__name__
    s = repr(v)
    return s if len(s) < 90 else s[:87] + "..."

def variants(call, everything=True):
    """[(label, args, kwargs, isScalar)] for every way to put the call"""
    ps = call.params
    plain = [forms(p.kind, p.value)[0] for p in ps]
    out = []
    def add(label, picks, style, omit):
        args, kw = [], {}
        if len(set(picks[i][0].startswith("scalar") for i in range(len(ps)) if ps[i].name in call.coupled)) > 1:
            return
        n = len(ps)
        scalar = False
        for i in range(n):
            if i in omit:
                continue
            if ps[i].kind == "energies" and picks[i][0].startswith("scalar"):
                scalar = True
            if style == "kw" or any(j in omit for j in range(i)):
                kw[ps[i].name] = picks[i][1]
            else:
                args.append(picks[i][1])
        out.append((label, args, kw, scalar))
    if not everything:
        add("plain", plain, "pos", ())
        return out
    per = [[f for f in forms(p.kind, p.value) if (p.name, f[0]) not in call.lacks and f[0] not in call.lacks] for p in ps]
    size = 1
    for f in per:
        size *= len(f)
    if size <= 64 or (THOROUGH and size <= 512):
        combos = list(itertools.product(*per))
    else:     # every pair of forms of every two arguments
        seen, combos = set(), []
        base = [f[0] for f in per]
        for i in range(len(per)):
            for j in range(i + 1, len(per)):
                for a in range(len(per[i])):
                    for b in range(len(per[j])):
                        c = list(base)
                        c[i], c[j] = per[i][a], per[j][b]
                        k = tuple(x[0] for x in c)
                        if k not in seen:
                            seen.add(k)
                            combos.append(c)
    for c in combos:
        add("/".join(x[0] for x in c), c, "pos", ())
    if ps:
        for i in range(len(ps)):
            for f in per[i]:
                c = list(plain)
                c[i] = f
                add("keywords " + ps[i].name + ":" + f[0], c, "kw", ())
        om = [i for i, p in enumerate(ps) if p.default is not NO and p.default == p.value]
        for r in range(1, len(om) + 1):
            for sub in itertools.combinations(om, r):
                add("default " + ",".join(ps[i].name for i in sub), plain, "pos", sub)
    return out

# ---------------------------------------------------------------- reporting
class Out(object):
    def __init__(self, fd):
        self.fd = fd
        self.n = dict(executions=0, transitions=0, comparisons=0)
        self.states = set()
        self.kinds = {}
        self.samples = []
    def bad(self, key, detail, trace):
        k = self.kinds.get(key, 0)
        self.kinds[key] = k + 1
        if k < 2:
            os.write(self.fd, (json.dumps({"v": key, "detail": detail[:1500], "trace": trace[:3000]}) + "\n").encode())
    def flush(self):
        os.write(self.fd, (json.dumps({"n": self.n, "states": sorted(self.states), "kinds": self.kinds,
                                       "samples": self.samples[:3]}) + "\n").encode())

class Step(object):
    """where the job is, readable after a crash"""
    def __init__(self):
        self.m = mmap.mmap(-1, 8192)
        self.count = 0
    def at(self, text):
        b = text.encode(errors="replace")[:8000]
        self.m[0:12] = struct.pack("qi", self.count, len(b))
        self.m[12:12 + len(b)] = b
        self.count += 1
    def read(self):
        c, n = struct.unpack("qi", self.m[0:12])
        return c, self.m[12:12 + n].decode(errors="replace")

def ask(pair, call, args, kw):
    f = getattr(pair.py, call.method) if pair is not None else getattr(fisx, call.method)
    return f(*args, **kw)

def oracle(pair, call, scalar):
    vals = [canon(p) for p in call.params]
    op = call.op
    if scalar and call.scalar:
        op = call.scalar
        for i, p in enumerate(call.params):
            if p.kind == "energies":
                vals[i] = vals[i][0]
    if call.how:
        vals = call.how(vals)
    return cpp(op, *(([pair.h] if pair is not None and pair.h is not None else []) + vals))

class Job(object):
    def __init__(self, out, step, skip):
        self.o, self.step, self.skip = out, step, skip
        self.trace = []
    def one(self, scen, pair, call, form, changes):
        """put a call; true if it was accepted"""
        label, args, kw, scalar = form
        where = "%s.%s" % (scen, call.method)
        here = "%s [%s]" % (call, label)
        c = self.step.count
        self.step.at("\n".join(self.trace + [here]) + "\0" + where + " " + label)
        if c in self.skip:
            return None
        self.o.n["transitions"] += 1
        try:
            want, refused = oracle(pair, call, scalar), None
        except Refused as e:
            want, refused = None, str(e)
        if call.post and refused is None:
            want = call.post(want)
        try:
            got, err = ask(pair, call, args, kw), None
        except Exception as e:
            got, err = None, e
        self.o.n["comparisons"] += 1
        tr = "\n".join(self.trace + [here])
        if err is not None and refused is None:
            self.o.bad("%s refused a form" % where if label != "plain" else "%s refused" % where, "%s raised %s: %s, the C++ call is accepted"
                       % (here, type(err).__name__, err), tr)
            return None
        if err is None and refused is not None:
            self.o.bad("%s not refused" % where, "%s returned %s, the C++ call throws: %s" % (here, show(got), refused), tr)
            return None
        if err is not None:
            return False
        if not changes:
            b = badtype(got)
            if b:
                self.o.bad("%s returns %s" % (where, b), "%s returned %s" % (here, show(got)), tr)
            elif not same(got, want):
                self.o.bad("%s differs" % where, "%s returned %s, the C++ call %s (form %s)" % (here, show(got), show(want), label), tr)
        return True

    def questions(self, scen, pair, calls, everything):
        for q in calls:
            for f in variants(q, everything):
                self.one(scen, pair, q, f, False)

    def history(self, sc, ctor, picks, lastForm, everything):
        """construct, apply the changes (the last one in the given form), ask"""
        self.trace = [str(ctor)]
        self.o.n["executions"] += 1
        pair = sc.make(self, ctor)
        if pair is None:
            return
        for i, ch in enumerate(picks):
            fs = variants(ch, i + 1 == len(picks))
            f = fs[lastForm] if i + 1 == len(picks) else fs[0]
            ok = self.one(sc.name, pair, ch, f, True)
            self.trace.append("%s [%s]%s" % (ch, f[0], "" if ok else " refused"))
            if ok is None:
                return
        self.o.states.add(hash((sc.name,) + tuple(self.trace)) & 0xffffffffffff)
        if len(self.o.samples) < 3:
            self.o.samples.append("; ".join(self.trace))
        self.questions(sc.name, pair, sc.queries(pair), everything)

    # ---- arguments that make no sense
    def senseless(self, sc, ctor, call, i, bad, isChange, pair=None):
        label, value = bad
        if pair is None:
            self.trace = [str(ctor)]
            pair = sc.make(self, ctor)
        self.o.n["executions"] += 1
        if pair is None:
            return
        plain = variants(call, False)[0][1]
        args = list(plain)
        if i < len(args):
            args[i] = value
            what = "%s with %s = %s" % (call, call.params[i].name, label)
        elif i == len(args):
            args.append(value)
            what = "%s with an extra argument" % call
        else:
            args = args[:-1]
            what = "%s without its last argument" % call
        where = "%s.%s" % (sc.name, call.method)
        c = self.step.count
        self.step.at("\n".join(self.trace + [what]) + "\0" + where + " " + (call.params[i].name if i < len(plain) else "arity") + " = " + label)
        if c in self.skip:
            return
        self.o.n["transitions"] += 1
        try:
            ask(pair, call, args, {})
            return                          # accepted: not judged here
        except Exception:
            pass
        self.trace.append(what + " refused")
        if isChange:
            self.questions(sc.name, pair, sc.queries(pair), False)

    def senselessConstruction(self, sc, ctor, i, bad):
        label, value = bad
        self.trace = []
        self.o.n["executions"] += 1
        args = list(variants(ctor, False)[0][1])
        args[i] = value
        what = "%s with %s = %s" % (ctor, ctor.params[i].name, label)
        c = self.step.count
        self.step.at(what + "\0" + sc.name + "() " + ctor.params[i].name + " = " + label)
        if c in self.skip:
            return
        self.o.n["transitions"] += 1
        try:
            getattr(fisx, ctor.method)(*args)
        except Exception:
            pass

class Opaque(object):
    pass

def badValues():
    return [("None", None), ("object", Opaque()), ("empty text", ""), ("text", "nonsense"), ("bytes", b"\xff\xfe"), ("empty list", []),
            ("list of None", [None]), ("list of text", ["a", "b"]), ("nested list", [[1.0], [2.0]]), ("dict", {"x": None}),
            ("dict of lists", {"K": [1.0]}), ("negative", -1), ("huge", 10 ** 30), ("nan", float("nan")), ("infinite", float("inf")),
            ("complex", 1j), ("function", len), ("another class", fisx.Math()), ("a class", fisx.Layer), ("2d array", numpy.ones((2, 2))),
            ("0d array", numpy.array(1.0)), ("array of text", numpy.array(["a"])), ("generator", (x for x in [1.0]))]

# ---------------------------------------------------------------- scenarios
LIBS = {}
def setup():
    for name, py, c in (("default", lambda: fisx.Elements(DATA), ("Elements.new1", DATA)),
                        ("pymca", lambda: fisx.Elements(DATA, pymca=1), ("Elements.pymca", DATA))):
        LIBS[name] = Pair(py(), cpp(*c))

class Scenario(object):
    def __init__(self, name, ctors, changes, queries, depth=2, copies=None, bads=True):
        self.name, self.ctors, self.changes, self.queries, self.depth, self.bads = name, ctors, changes, queries, depth, bads
        self.copies = copies
    def make(self, job, ctor):
        if self.copies:
            return self.copies(ctor)
        try:
            h = oracle(None, ctor, False)
        except Refused as e:
            h = None
        v = variants(ctor, False)[0]
        try:
            py = getattr(fisx, ctor.method)(*v[1])
        except Exception as e:
            py = None
        if (h is None) != (py is None):
            job.o.bad("%s() %s" % (self.name, "refused" if py is None else "not refused"), str(ctor), str(ctor))
            return None
        return None if h is None else Pair(py, h)

def table():
    S = []
    D = LIBS["default"]
    # --- Math
    qs = [Call("fisxVersion", [], "fisxVersion")]
    S.append(Scenario("fisx", [None], [], lambda p: qs, 0, lambda c: None, False))
    mq = []
    for x in (0.25, 1.0, 7.5, -0.5, 0.0, 50.0):
        mq += [Call(m, [P("x", "real", x)], "Math." + m) for m in ("E1", "erf", "erfc")]
        mq += [Call("En", [P("n", "integer", n), P("x", "real", x)], "Math.En") for n in (0, 1, 2, 5)]
    mq += [Call("deBoerD", [P("x", "real", x)], "Math.deBoerD") for x in (0.5, 3.0)]
    for m in (10.0, 0.5, -1.0):
        mq += [Call("deBoerL0", [P("mu1", "real", m), P("mu2", "real", 20.0), P("muj", "real", 5.5), P("density", "real", d, 0.0),
                                 P("thickness", "real", t, 0.0)], "Math.deBoerL0") for d, t in ((0.0, 0.0), (2.0, 0.01))]
        mq += [Call("deBoerX", [P("p", "real", m), P("q", "real", 3.0), P("d1", "real", 0.5), P("d2", "real", 0.25), P("mu_1_j", "real", 12.0),
                                P("mu_2_j", "real", 8.5), P("mu_b_d_t", "real", b, 0.0)], "Math.deBoerX") for b in (0.0, 0.75)]
    S.append(Scenario("Math", [Call("Math", [], "fisxVersion", how=lambda v: v)], [], lambda p: mq, 0, lambda c: Pair(fisx.Math(), None)))
    # --- Beam
    def sb(e, w):
        p = [P("energies", "energies", e)]
        if w is not None:
            p.append(P("weights", "energies", w))
        return Call("setBeam", p, "Beam.setBeam", how=lambda v: [v[0], v[1] if len(v) > 1 else [1.0] * len(v[0])])
    bch = [sb(e, w) for e in ([10.0], [12.5, 3.0], [5.0, 4.0, 20.0]) for w in (None, [1.0], [0.5] if len(e) < 2 else [1.0, 3.0, 2.0][:len(e)])]
    bch += [sb([3.0, 4.0], [1.0, 2.0, 3.0]), sb([3.0, 4.0, 5.0], [1.0, 2.0]), sb([3.0, 4.0], [-1.0, 2.0]), sb([3.0, 4.0], [0.0, 2.0]), sb([3.0, 4.0], [0.0, 0.0])]
    bq = [Call("getBeamAsDoubleVectors", [], "Beam.getBeam")]
    S.append(Scenario("Beam", [Call("Beam", [], "Beam.new")], bch, lambda p: bq, 2))
    # --- Material
    def mc(n, d=1.0, t=1.0, c=""):
        return Call("Material", [P("materialName", "text", n), P("density", "real", d, 1.0), P("thickness", "real", t, 1.0), P("comment", "text", c, "")], "Material.new")
    mct = [mc("steel"), mc("Goethite", 4.3, 0.001, "iron ore"), mc(""), mc("x", -1.0), mc("\u00e9toile", 2.0, 1.0, "caf\u00e9")]
    mch = [Call("setName", [P("name", "text", n)], "Material.setName") for n in ("brass", "", "\u00b5")]
    mch += [Call("setComposition", [P("composition", "amounts", c)], "Material.setComposition")
            for c in ({"Fe": 1.0}, {"Fe": 2.0, "Cr": 3.0, "Ni": 1.0}, {"H2O": 1.0, "NaCl": 0.5}, {"Fe": -1.0}, {}, {"Fe": 0.0})]
    mch += [Call("setCompositionFromLists", [P("elementList", "names", [x for x, _ in c]), P("massFractions", "reals", [y for _, y in c])],
                 "Material.setCompositionFromLists")
            for c in ([("Fe", 1.0)], [("Cr", 1.0), ("Fe", 3.0), ("Cr", 2.0)], [("Fe", -1.0), ("Cr", 2.0)])]
    mch += [Call("setCompositionFromLists", [P("elementList", "names", ["Fe", "Cr"]), P("massFractions", "reals", [1.0])], "Material.setCompositionFromLists")]
    mqs = [Call("getName", [], "Material.getName"), Call("getComposition", [], "Material.getComposition")]
    S.append(Scenario("Material", mct, mch, lambda p: mqs, 2))
    # --- TransmissionTable
    tch = [Call("setName", [P("name", "text", n)], "Table.setName") for n in ("filter", "\u00b5")]
    tch += [Call("setComment", [P("comment", "text", n)], "Table.setComment") for n in ("made of air", "")]
    for e, t in (([1.0, 2.0], [0.5, 0.25]), ([0.5, 2.0, 2.0, 7.0], [0.0, 1.0, 0.5, 0.75]), ([2.0, 1.0], [0.5, 0.5]), ([-1.0, 1.0], [0.5, 0.5]), ([1.0, 2.0], [0.5]), ([], [])):
        for n, c in (("", ""), ("foil", "thin")):
            tch.append(Call("setTransmissionTableFromLists", [P("energy", "reals", e), P("transmission", "reals", t), P("name", "text", n, ""),
                                                              P("comment", "text", c, "")], "Table.setLists"))
            if len(set(e)) == len(t):
                tch.append(Call("setTransmissionTable", [P("transmissionTable", "points", dict(zip(e, t))), P("name", "text", n, ""),
                                                         P("comment", "text", c, "")], "Table.setMap"))
    tqs = [Call("getName", [], "Table.getName"), Call("getComment", [], "Table.getComment"), Call("getTransmissionTable", [], "Table.getTable")]
    tqs += [Call("getTransmission", [P("energy", "energies", e)], "Table.many", scalar="Table.single") for e in ([1.0], [1.5], [0.25], [9.0], [1.5, 0.25, 2.0], [])]
    S.append(Scenario("TransmissionTable", [Call("TransmissionTable", [], "Table.new")], tch, lambda p: tqs, 2))
    # --- Shell
    sct = [Call("Shell", [P("name", "text", n)], "Shell.new") for n in ("K", "L2", "M5", "N1", "", "L9")]
    def lab(p, l, v):
        return [P("transitions", "names", l), P("values", "reals", v)]
    def sets(m, op, first=()):
        return [Call(m, list(first) + [P("transitions" if not first else "labels", "names", l), P("values", "reals", v)], op) for l, v in (
            (["KL2", "KL3"], [1.0, 2.0]), (["L2M4"], [3.0]), (["KL3", "KL3"], [1.0, 1.0]), (["KL2"], [1.0, 2.0]), (["L2L3M1", "L2M4M5"], [0.25, 0.5]),
            (["KL1L1", "KL2L3", "KL1M2"], [0.5, 0.25, 0.25]), ([], []), (["M5N7", "TOTAL"], [1.0, 4.0]), (["KL2", "KM3", "TOTAL"], [1.0, 1.0, 4.0]), (["zz"], [1.0]))]
    consts = [{"omega": 0.5}, {"omega": 0.25, "f23": 0.125}, {"omegaL2": 0.3}, {"f12": 0.1}, {"nonsense": 1.0}, {}]
    sch = sets("setRadiativeTransitions", "Shell.setRad") + sets("setNonradiativeTransitions", "Shell.setNonrad")
    sch += [Call("setShellConstants", [P("shellConstants", "amounts", c)], "Shell.setConst") for c in consts]
    sqs = [Call(m, [], "Shell." + o) for m, o in (("getAugerRatios", "getAuger"), ("getCosterKronigRatios", "getCK"), ("getFluorescenceRatios", "getFluo"),
           ("getRadiativeTransitions", "getRad"), ("getNonradiativeTransitions", "getNonrad"), ("getShellConstants", "getConst"))]
    sqs += [Call("getDirectVacancyTransferRatios", [P("subshell", "text", s)], "Shell.getDirect") for s in ("L3", "M5", "", "x")]
    S.append(Scenario("Shell", sct, sch, lambda p: sqs, 2))
    # --- Element
    ect = [Call("Element", [P("name", "text", n), P("z", "integer", z, 0)], "Element.new") for n, z in (("Fe", 26), ("Pb", 82), ("Xx", 0), ("", 3))]
    sh = lambda s: P("shell", "text", s)
    ech = [Call("setName", [P("name", "text", "Co")], "Element.setName"), Call("setName", [P("name", "text", "")], "Element.setName"),
           Call("setAtomicNumber", [P("z", "integer", 27)], "Element.setZ"), Call("setAtomicNumber", [P("z", "integer", 0)], "Element.setZ")]
    ech += [Call("setBindingEnergies", [P("energies", "amounts", b)], "Element.setBinding") for b in (
            {"K": 7.0, "L1": 0.85, "L2": 0.75, "L3": 0.7}, {"K": 7.25, "L3": 0.5, "M1": 0.1}, {"K": -1.0}, {})]
    E5 = [1.0, 5.0, 7.0, 7.0, 20.0]
    def mu(e, f=1.0):
        n = len(e)
        return [P("energies", "reals", e), P("photo", "reals", [f * x for x in [100.0, 20.0, 10.0, 80.0, 4.0][:n]]), P("coherent", "reals", [2.0, 1.0, 0.8, 0.8, 0.2][:n]),
                P("compton", "reals", [0.1, 0.12, 0.13, 0.13, 0.15][:n]), P("pair", "reals", [0.0] * n)]
    ech += [Call("setMassAttenuationCoefficients", mu(E5), "Element.setMu"), Call("setMassAttenuationCoefficients", mu([1.0, 30.0], 2.0), "Element.setMu"),
            Call("setMassAttenuationCoefficients", mu(E5)[:4] + [P("pair", "reals", [0.0])], "Element.setMu")]
    for s in ("K", "L3", "Q"):
        ech += sets("setRadiativeTransitions", "Element.setRad", [sh(s)])[:3] + sets("setNonradiativeTransitions", "Element.setNonrad", [sh(s)])[4:7]
        ech += [Call("setShellConstants", [sh(s), P("valuesDict", "amounts", c)], "Element.setConst") for c in consts[:2]]
    eqs = [Call("getAtomicNumber", [], "Element.getZ"), Call("getBindingEnergies", [], "Element.getBinding"),
           Call("getMassAttenuationCoefficients", [], "Element.getMu")]
    eqs += [Call("getMassAttenuationCoefficients", [P("energy", "energies", e)], "Element.getMuMany") for e in ([3.0], [7.0, 2.0], [100.0])]
    eqs += [Call(m, [sh(s)], "Element." + o) for s in ("K", "L3", "M5", "Q") for m, o in (
        ("getRadiativeTransitions", "getRad"), ("getNonradiativeTransitions", "getNonrad"), ("getShellConstants", "getConst"))]
    eqs += [Call("getXRayLinesFromVacancyDistribution", [P("vacancyDict", "amounts", v)], "Element.getLines") for v in ({"K": 1.0}, {"K": 1.0, "L3": 0.5}, {}, {"Q": 1.0})]
    S.append(Scenario("Element", ect, ech, lambda p: eqs, 2 if THOROUGH else 1))
    # --- EPDL97
    pct = [Call("EPDL97", [P("name", "stext", d)], "EPDL97.new") for d in (DATA, SCRATCH + "/nowhere")]
    pch = [Call("setDataDirectory", [P("name", "stext", d)], "EPDL97.setDir") for d in (DATA, SCRATCH + "/nowhere")]
    zz = lambda z: P("z", "integer", z)
    pch += [Call("setBindingEnergies", [zz(z), P("energies", "amounts", b)], "EPDL97.setBinding") for z in (26, 0, -3, 500)
            for b in ({"K": 7.0, "L3": 0.7}, {})]
    pqs = []
    for z in (1, 26, 82, 100, 0, -1, 101, 150):
        pqs += [Call("getBindingEnergies", [zz(z)], "EPDL97.getBinding")]
    for z in (26, 82, 0):
        pqs += [Call("getMassAttenuationCoefficients", [zz(z)], "EPDL97.getMu"), Call("getMassAttenuationCoefficients", [zz(z), P("energy", "energies", [7.0])], "EPDL97.getMuMany"),
                Call("getMassAttenuationCoefficients", [zz(z), P("energy", "energies", [3.5, 20.0])], "EPDL97.getMuMany"),
                Call("getPhotoelectricWeights", [zz(z), P("energy", "energies", [20.0])], "EPDL97.getWeights"),
                Call("getPhotoelectricWeights", [zz(z), P("energy", "energies", [20.0, 0.5, 90.0])], "EPDL97.getWeights")]
    S.append(Scenario("EPDL97", pct, pch, lambda p: pqs, 1))
    # --- readers
    ini = SCRATCH + "/\u00e9.ini"
    open(ini, "wb").write(b"[first]\na = 1, 2\nb = text \xc3\xa9\n[second.part]\nc = 3\n\n[empty]\n")
    ict = [Call("SimpleIni", [P("name", "stext", n)], "Ini.new") for n in (ini, SCRATCH + "/nowhere.ini", CFG["repo"] + "/README.rst")]
    iqs = [Call("getKeys", [], "Ini.getKeys")] + [Call("readKey", [P("key", "text", k)], "Ini.readKey") for k in ("first", "second.part", "empty", "none", "")]
    S.append(Scenario("SimpleIni", ict, [], lambda p: iqs, 0))
    spec = SCRATCH + "/a.spec"
    open(spec, "w").write("#F a\n\n#S 1 first\n#N 2\n#L one two  three\n1 2\n3 4\n\n#S 2 second\n#N 1\n#L only\n5\n\n")
    fct = [Call("SimpleSpecfile", [P("name", "stext", n)], "Spec.new") for n in (spec, SCRATCH + "/nowhere.spec", DATA + "/EADL97_KShellConstants.dat")]
    fqs = [Call("getNumberOfScans", [], "Spec.n")] + [Call(m, [P("scanIndex", "integer", i)], "Spec." + o) for i in (0, 1, 2, -1, 99)
           for m, o in (("getScanLabels", "labels"), ("getScanData", "data"))]
    S.append(Scenario("SimpleSpecfile", fct, [], lambda p: fqs, 0))
    # --- Layer
    def L(cls, op, n, d, t, f):
        return Call(cls, [P("materialName", "text", n), P("density", "real", d, 1.0), P("thickness", "real", t, 1.0), P("funny", "real", f, 1.0)], op)
    lct = [L("Layer", "Layer.new", *x) for x in (("Fe", 7.8, 0.001, 1.0), ("H2O", 1.0, 1.0, 1.0), ("SiO2", 2.0, 0.01, 0.5), ("nonsense", 1.0, 1.0, 1.0), ("Fe", 0.0, 1.0, 1.0),
                                                   ("Fe", -1.0, -1.0, 1.0), ("", 1.0, 1.0, 1.0))]
    mat = fisx.Material("mixture", 2.0, 0.01)
    mat.setComposition({"Fe": 1.0, "Cr": 3.0})
    hm = cpp("Material.new", "mixture", 2.0, 0.01, "")
    cpp("Material.setComposition", hm, {"Fe": 1.0, "Cr": 3.0})
    MIX = Pair(mat, hm)
    EMPTY = Pair(fisx.Material("nothing"), cpp("Material.new", "nothing", 1.0, 1.0, ""))
    lch = [Call("setMaterial", [P("material", "obj", m)], "Layer.setMaterial") for m in (MIX, EMPTY)]
    lib = P("elementsLib", "obj", D)
    def transm(cls):
        return [Call("getTransmission", [P("energies", "energies", e), lib, P("angle", "real", a, 90.0)], cls + ".getTransmission")
                for e, a in (([10.0], 90.0), ([10.0], 45.0), ([8.0, 20.0, 5.0], 90.0), ([10.0, 12.0], 30.5))]
    lqs = [Call("getComposition", [lib], "Layer.getComposition")] + transm("Layer")
    lqs += [Call("getPeakFamilies", [P("energy", "real", e), lib], "Layer.getFamilies", post=lambda r: sorted(r, key=lambda x: x[1])) for e in (1.0, 10.0, 0.01)]
    S.append(Scenario("Layer", lct, lch, lambda p: lqs, 2))
    # --- Detector
    dct = [L("Detector", "Detector.new", *x) for x in (("Si", 2.33, 0.05, 1.0), ("Ge", 5.3, 0.5, 0.75), ("nonsense", 1.0, 1.0, 1.0), ("", 1.0, 1.0, 1.0))]
    dch = [Call(m, [P(a, "real", x)], "Detector." + m) for m, a in (("setActiveArea", "area"), ("setDiameter", "value"), ("setDistance", "value")) for x in (0.5, 2.0, 0.0, -1.0)]
    dch += [Call("setMaximumNumberOfEscapePeaks", [P("n", "integer", n)], "Detector.setN") for n in (2, 0, -1)]
    dqs = [Call(m, [], "Detector." + o) for m, o in (("getActiveArea", "getActiveArea"), ("getDiameter", "getDiameter"), ("getDistance", "getDistance"),
           ("getEscapePeakEnergyThreshold", "getET"), ("getEscapePeakIntensityThreshold", "getIT"), ("getEscapePeakNThreshold", "getNT"), ("getEscapePeakAlphaIn", "getAlpha"),
           ("getThickness", "getThickness"), ("getDensity", "getDensity"))]
    dqs += [Call("getComposition", [lib], "Detector.getComposition")] + transm("Detector")
    dqs += [Call("getEscape", [P("energy", "real", e), lib, P("label", "text", l, ""), P("update", "flag", u, 1)], "Detector.getEscape")
            for e, l, u in ((10.0, "", 1), (15.0, "a", 1), (20.0, "a", 0), (20.0, "a", 1), (3.0, "b", 0), (20.0, "", 0))]
    S.append(Scenario("Detector", dct, dch, lambda p: dqs, 2))
    # --- XRF
    cfg = SCRATCH + "/xrf.cfg"
    open(cfg, "w").write("""[fit]
energy = 20.0, 12.0
energyweight = 1.0, 0.5
energyflag = 1, 1
energyscatter = 1, 1
[attenuators]
Matrix = 1, Fe, 7.8, 0.001, 45.0, 45.0
Detector = 1, Si, 2.33, 0.05, 1.0
BeamFilter0 = 1, Al, 2.7, 0.001, 1.0
[concentrations]
distance = 3.0
area = 0.5
[multilayer]
Layer0 = 0, -, 0.0, 0.0
[materials]
[peaks]
Fe = K
""")
    xct = [Call("XRF", [], "XRF.new"), Call("XRF", [P("configurationFile", "stext", cfg)], "XRF.newFile"),
           Call("XRF", [P("configurationFile", "stext", SCRATCH + "/nowhere.cfg")], "XRF.newFile")]
    def setBeam(e, w=None, c=None, d=None):
        p = [P("energies", "energies" if w is None and c is None and (d is None or len(d) == 1) else "reals", e)]
        def how(v):
            n = len(v[0])
            return [v[0], v[1] if w is not None else [1.0] * n, v[-1 if d is None else -2] if c is not None else [1] * n, v[-1] if d is not None else [0.0] * n]
        if w is not None:
            p.append(P("weights", "energies", w))
        if c is not None:
            p.append(P("characteristic", "ints" if len(c) > 1 else "ints", c))
        if d is not None:
            p.append(P("divergency", "energies" if len(d) == 1 else "reals", d))
        return Call("setBeam", p, "XRF.setBeam", how=how)
    xch = [setBeam([20.0]), setBeam([20.0, 11.0]), setBeam([20.0, 11.0], [1.0, 3.0]), setBeam([20.0, 11.0], [2.0]), setBeam([20.0, 11.0, 30.0], [1.0, 3.0, 2.0], [1, 0, 1]),
           setBeam([20.0, 11.0], [1.0, 3.0], [0, 1], [0.0, 0.1]), setBeam([20.0, 11.0], [1.0, 3.0, 4.0]), setBeam([-5.0, 3.0])]
    stack = [[("Fe", 7.8, 0.001, 1.0)], [("SiO2", 2.0, 0.0005, 1.0), ("Fe", 7.8, 0.001, 1.0)], [("CrNi", 7.0, 0.0002, 0.5), ("H2O", 1.0, 0.01, 1.0)], []]
    bad = [("nonsense", 1.0, 1.0, 1.0)]
    xch += [Call("setSample", [P("layerList", "layers", s), P("referenceLayer", "integer", r, 0)], "XRF.setSample") for s, r in ((stack[0], 0), (stack[1], 1), (stack[2], 0), (bad, 0), (stack[1], -1))]
    xch += [Call("setBeamFilters", [P("layerList", "layers", s)], "XRF.setBeamFilters") for s in ([("Al", 2.7, 0.001, 1.0)], stack[2], [])]
    xch += [Call("setAttenuators", [P("layerList", "layers", s)], "XRF.setAttenuators") for s in ([("Al", 2.7, 0.001, 1.0)], stack[2], [])]
    tb = [[([0.0, 100.0], [0.5, 0.5], "half", "comment")], [([5.0, 15.0, 30.0], [0.2, 0.6, 1.0], "a", ""), ([1.0, 50.0], [0.9, 0.8], "\u00e9", "")], []]
    for m in ("setUserBeamFilters", "setUserAttenuators"):
        xch += [Call(m, [P("pyTransmissionTableList", "tables", t)], "XRF." + m) for t in tb]
    det = Pair(fisx.Detector("Si", 2.33, 0.05), cpp("Detector.new", "Si", 2.33, 0.05, 1.0))
    det2 = Pair(fisx.Detector("Ge", 5.3, 0.002, 0.5), cpp("Detector.new", "Ge", 5.3, 0.002, 0.5))
    det2.py.setDiameter(0.8); cpp("Detector.setDiameter", det2.h, 0.8)
    det2.py.setDistance(3.0); cpp("Detector.setDistance", det2.h, 3.0)
    xch += [Call("setDetector", [P("detector", "obj", d)], "XRF.setDetector") for d in (det, det2)]
    xch += [Call("setGeometry", [P("alphaIn", "real", a), P("alphaOut", "real", b), P("scatteringAngle", "real", s, -90.0)], "XRF.setGeometry",
                 how=lambda v: v[:2] + [v[2] if v[2] >= 0 else v[0] + v[1]]) for a, b, s in ((30.0, 60.0, -90.0), (45.0, 20.5, 80.0), (0.0, 45.0, -90.0))]
    xch += [Call("readConfigurationFromFile", [P("fileName", "stext", f)], "XRF.read") for f in (cfg, SCRATCH + "/nowhere.cfg")]
    base = cpp("Beam.new")
    other = Pair(fisx.Beam(), cpp("Beam.new"))
    other.py.setBeam([25.0, 9.0], [1.0, 2.0]); cpp("Beam.setBeam", other.h, [25.0, 9.0], [1.0, 2.0])
    LAY = [Pair(fisx.Layer(*x), cpp("Layer.new", *x)) for x in (("SiO2", 2.0, 0.01, 1.0), ("nonsense", 1.0, 1.0, 1.0))]
    mixed = Pair(fisx.Layer("mixture", 2.0, 0.01, 1.0), cpp("Layer.new", "mixture", 2.0, 0.01, 1.0))
    mixed.py.setMaterial(mat); cpp("Layer.setMaterial", mixed.h, hm)
    LAY.append(mixed)
    el = P("elementsLibrary", "obj", D)
    def rest(sec, geo, mass, lim, beam):
        r = [P("secondary", "integer", sec, 0), P("useGeometricEfficiency", "flag", geo, 1), P("useMassFractions", "flag", mass, 0),
             P("secondaryCalculationLimit", "real", lim, 0.0)]
        if beam:
            r.append(P("overwritingBeam", "obj", beam))
        return r
    xqs = []
    for req in (["Fe K"], ["Fe", "Cr K 0", "Si K 1"], ["Xx K"], [], ["Fe K", "Fe L3"]):
        for r in ((0, 1, 0, 0.0, None), (2, 0, 1, 0.0, other), (1, 1, 1, 0.5, None)):
            if r[0] and req != ["Fe", "Cr K 0", "Si K 1"]:
                continue
            xqs.append(Call("getMultilayerFluorescence", [P("elementFamilyLayer", "names", req), el] + rest(*r), "XRF.multi",
                            how=(lambda v: v + [base]) if r[4] is None else None))
    fl = lambda v: [v[0], v[1], v[2], v[3]] + v[4:8] + ([v[8]] if len(v) > 8 else [base])
    for names, lay, fam in ((["Fe"], [0], ["K"]), (["Fe"], [-1], ["L"]), (["Fe"], [0], [""]), (["Cr", "Fe"], [0], ["K", "L"]), (["Cr", "Fe"], [1, 0], ["K", "K"]), (["Xx"], [0], ["K"])):
        for r in ((0, 1, 0, 0.0, None), (2, 0, 1, 0.0, other)):
            if r[0] and names != ["Fe"]:
                continue
            xqs.append(Call("getFluorescence", [P("elementNames", "nameOrNames", names), el, P("sampleLayer", "ints", lay, [0]),
                                                P("lineFamily", "nameOrNames", fam, ["K"])] + rest(*r), "XRF.fluo", how=fl))
    xqs += [Call("getGeometricEfficiency", [P("layerIndex", "integer", i, 0)], "XRF.efficiency") for i in (0, 1, 7, -1)]
    li = lambda l: P("layerInstance", "obj", l)
    for l in LAY:
        xqs += [Call("getLayerComposition", [li(l), el], "XRF.getLayerComposition"),
                Call("getLayerPeakFamilies", [li(l), P("energy", "real", 10.0), el], "XRF.getLayerFamilies", post=lambda r: sorted(r, key=lambda x: x[1]))]
        for e in ([10.0], [5.0, 20.0]):
            xqs += [Call("getLayerMassAttenuationCoefficients", [li(l), P("energies", "energies", e), el], "XRF.getLayerMuMany", scalar="XRF.getLayerMu")]
            xqs += [Call("getLayerTransmission", [li(l), P("energies", "energies", e), el, P("angle", "real", a, 90.0)], "XRF.getLayerTMany", scalar="XRF.getLayerT") for a in (90.0, 30.0)]
    prepared = {}
    def prepare(ctor):
        """the second constructor stands for a calculator that is ready to use"""
        p = Scenario.make(S_xrf0, JOB[0], ctor)
        return p
    S_xrf0 = Scenario("XRF", xct, xch, None)
    def ready(ctor):
        p = Scenario.make(S_xrf0, JOB[0], ctor)
        if p is not None and not ctor.params:
            for c in READY:
                v = variants(c, False)[0]
                ask(p, c, v[1], v[2])
                oracle(p, c, False)
        return p
    READY = [setBeam([20.0, 12.0], [1.0, 2.0]), xch[9], Call("setDetector", [P("detector", "obj", det2)], "XRF.setDetector"), xch[-5]]
    S.append(Scenario("XRF", xct, xch, lambda p: xqs, 1, None))
    S.append(Scenario("XRF ready", [xct[0]], xch, lambda p: xqs, 2 if THOROUGH else 1, ready))
    # --- Elements
    nm = lambda s, a="elementName": P(a, "text", s)
    cc = Call("Elements", [P("directoryName", "stext", DATA)], "Elements.new1")
    def shared(ctor):
        return LIBS["default"]              # the process is a fork of its own
    hch = [Call("addMaterial", [P("material", "obj", m), P("errorOnReplace", "flag", f, 1)], "Elements.addMaterial") for m in (MIX, EMPTY) for f in (1, 0)]
    hch += [Call("removeMaterials", [], "Elements.removeMaterials")]
    fl = CFG["repo"] + "/fisx_data/"
    hch += [Call("setShellConstantsFile", [P("mainShellName", "text", s), P("fileName", "stext", f)], "Elements.setConstFile") for s, f in (
            ("K", DATA + "/KShellConstants.dat"), ("L", DATA + "/nowhere.dat"), ("Q", DATA + "/KShellConstants.dat"))]
    hch += [Call("setShellRadiativeTransitionsFile", [P("mainShellName", "text", s), P("fileName", "stext", f)], "Elements.setRadFile") for s, f in (
            ("K", DATA + "/KShellRates.dat"), ("M", DATA + "/nowhere.dat"))]
    hch += [Call("setMassAttenuationCoefficients", [nm(n, "element")] + mu(E5), "Elements.setMu") for n in ("Fe", "Xx")]
    hch += [Call("setMassAttenuationCoefficientsFile", [P("crossSectionsFile", "stext", f)], "Elements.setMuFile") for f in (DATA + "/XCOM_CrossSections.dat", SCRATCH + "/nowhere")]
    hch += [Call("setElementCascadeCacheEnabled", [nm(n), P("flag", "flag", f, 1)], "Elements.cascadeCache") for n in ("Fe", "Xx") for f in (1, 0)]
    hch += [Call("emptyElementCascadeCache", [nm(n)], "Elements.emptyCascade") for n in ("Fe", "Xx")]
    hch += [Call(m, [nm(n), P("energy", "reals", e)], "Elements." + m) for m in ("fillCache", "updateCache") for n, e in (("Fe", [10.0, 12.0]), ("Fe", [7.0]), ("Xx", [10.0]))]
    hch += [Call("setCacheEnabled", [nm(n), P("flag", "flag", f, 1)], "Elements.setCache") for n in ("Fe", "Xx") for f in (1, 0)]
    hch += [Call("setEscapeCacheEnabled", [P("flag", "flag", f, 1)], "Elements.setEscapeCache") for f in (1, 0)]
    hch += [Call("clearCache", [nm(n)], "Elements.clearCache") for n in ("Fe", "Xx")]
    comps = [{"Si": 1.0}, {"Ge": 2.0, "Si": 1.0}, {"Fe": 0.5, "Cr": 0.5}]
    def esc(name, op, comp, e, rest):
        th = [("energyThreshold", "real", 0.010), ("intensityThreshold", "real", 1e-7), ("nThreshold", "integer", 4), ("alphaIn", "real", 90.0), ("thickness", "real", 0.0)]
        return Call(name, [P("composition", "amounts", comp), e] + [P(a, k, r, d) for (a, k, d), r in zip(th, rest)], op)
    hch += [esc("updateEscapeCache", "Elements.updateEscape", comps[0], P("energyList", "reals", [10.0, 20.0]), (0.010, 1e-7, 4, 90.0, 0.0))]
    hqs = [Call("getElementNames", [], "Elements.getElementNames"), Call("getMaterialNames", [], "Elements.getMaterialNames")]
    for n in ("Fe", "Pb", "Xx", ""):
        hqs += [Call(m, [nm(n, "element")], "Elements." + m) for m in ("getAtomicMass", "getAtomicNumber", "getDensity", "getLongName", "getColumn", "getRow")]
        hqs += [Call("getBindingEnergies", [nm(n)], "Elements.getBinding")]
        hqs += [Call("isCacheEnabled", [nm(n)], "Elements.isCache"), Call("getCacheSize", [nm(n)], "Elements.cacheSize")]
        hqs += [Call("getEmittedXRayLines", [nm(n), P("energy", "real", e, 1000.0)], "Elements.getLines") for e in (1000.0, 10.0)]
        for s in ("K", "L3", "Q"):
            hqs += [Call(m, [nm(n), nm(s, "subshell")], "Elements." + o) for m, o in (("getShellConstants", "getConst"), ("getRadiativeTransitions", "getRad"),
                                                                                 ("getNonradiativeTransitions", "getNonrad"))]
        hqs += [Call("getInitialPhotoelectricVacancyDistribution", [nm(n), P("energy", "real", 20.0)], "Elements.getInitial")]
        hqs += [Call("getCascadeModifiedVacancyDistribution", [nm(n), P("distribution", "amounts", v)], "Elements.getCascade") for v in ({"K": 1.0}, {"K": 0.5, "L1": 0.5}, {})]
        hqs += [Call("getXRayLinesFromVacancyDistribution", [nm(n), P("distribution", "amounts", {"K": 1.0, "L3": 0.25}), P("cascade", "flag", a, 1),
                     P("useFluorescenceYield", "flag", b, 1)], "Elements.getVacancyLines") for a, b in ((1, 1), (0, 1), (1, 0))]
        for e, w in (([10.0], [1.0]), ([10.0, 20.0], [1.0, 1.0]), ([10.0, 20.0, 90.0], [0.5, 2.0, 1.0]), ([8.0], [0.5])):
            hqs += [Call("getExcitationFactors", [nm(n, "name"), P("energy", "energies", e), P("weight", "energies", w)] if w != [1.0] * len(w) else
                         [nm(n, "name"), P("energy", "energies", e)], "Elements.getFactors", how=lambda v: v if len(v) > 2 else v + [[1.0] * len(v[1])], coupled=("energy", "weight"))]
        hqs += [Call("getElementMassAttenuationCoefficients", [nm(n, "element")], "Elements.getMu")]
        hqs += [Call("getElementMassAttenuationCoefficients", [nm(n, "element"), P("energy", "energies", e)], "Elements.getMuMany") for e in ([10.0], [7.0, 30.0])]
        hqs += [Call("getPeakFamilies", [nm(n, "nameOrVector"), P("energy", "real", 10.0)], "Elements.getFamilies", post=lambda r: sorted(r, key=lambda x: x[1]))]
    hqs += [Call("getElementMassAttenuationCoefficients", [nm("Fe", "element"), P("energy", "energies", [6.0])], "Elements.getMuMany")]
    for n in ("Fe", "SiO2", "mixture", "nothing", "Xx", ""):
        hqs += [Call("getComposition", [nm(n, "materialOrFormula")], "Elements.getComposition")]
        hqs += [Call("getMassAttenuationCoefficients", [nm(n, "name"), P("energy", "energies", e)], "Elements.getMuMany") for e in ([10.0], [7.0, 30.0])]
    hqs += [Call("getMassAttenuationCoefficients", [nm("Fe", "name")], "Elements.getMu")]
    hqs += [Call("getMassAttenuationCoefficients", [P("name", "amounts", c), P("energy", "energies", e)], "Elements.getMuMap") for c in comps + [{"SiO2": 1.0, "mixture": 1.0}, {"Xx": 1.0}] for e in ([10.0], [7.0, 30.0])]
    hqs += [Call("getPeakFamilies", [P("nameOrVector", "names", v), P("energy", "real", e)], "Elements.getFamiliesMany", post=lambda r: sorted(r, key=lambda x: x[1]))
            for v in (["Fe"], ["Fe", "Pb", "Cr"], ["Xx"]) for e in (10.0, 0.5)]
    for s in ("K", "L", "M", "Q"):
        hqs += [Call(m, [nm(s, "mainShellName")], "Elements." + o) for m, o in (("getShellConstantsFile", "getConstFile"), ("getShellRadiativeTransitionsFile", "getRadFile"),
                                                                           ("getShellNonradiativeTransitionsFile", "getNonradFile"))]
    hqs += [Call("isEscapeCacheEnabled", [], "Elements.isEscapeCache")]
    hqs += [esc("getEscape", "Elements.getEscape", c, P("energy", "real", e), r) for c in comps for e in (10.0, 15.5) for r in ((0.010, 1e-7, 4, 90.0, 0.0), (0.02, 1e-3, 2, 45.0, 0.1))]
    S.append(Scenario("Elements", [cc], hch, lambda p: hqs, 2, shared))
    return S

JOB = [None]

# ways to build a library: compared through a few telling questions
def libraries(job):
    out = job.o
    dd = fisx.DataDir.FISX_DATA_DIR if hasattr(fisx, "DataDir") else None
    from fisx import DataDir
    dd = DataDir.FISX_DATA_DIR
    be, xc, eb = DATA + "/BindingEnergies.dat", DATA + "/XCOM_CrossSections.dat", DATA + "/EADL97_BindingEnergies.dat"
    nowhere = SCRATCH + "/nowhere"
    cases = [("plain", (), {}, ("Elements.new1", dd)), ("initializeAsPyMca", None, None, ("Elements.pymca", dd)), ("initializeAsPyMca refused", None, None, ("Elements.new1", DATA))]
    for d in (DATA, nowhere):
        for b in ("", be, eb, nowhere):
            for c in ("", xc, nowhere):
                for pm in (0, 1):
                    want = ("Elements.pymca", d) if pm else ("Elements.new3", d, b, c) if b else ("Elements.new1", d)
                    after = c if not b and not pm else ""
                    for enc in ("str", "bytes"):
                        f = (lambda x: x) if enc == "str" else (lambda x: x.encode())
                        cases.append(("positional " + enc, (f(d), f(b), f(c), pm), {}, want, after))
                        cases.append(("keywords " + enc, (), dict(directoryName=f(d), bindingEnergiesFile=f(b), crossSectionsFile=f(c), pymca=pm), want, after))
    qs = []
    for n in ("Fe", "Pb", "Gd"):
        for m, args, op in (("getBindingEnergies", [n], "Elements.getBinding"), ("getShellConstants", [n, "K"], "Elements.getConst"), ("getShellConstants", [n, "L3"], "Elements.getConst"),
                            ("getRadiativeTransitions", [n, "L2"], "Elements.getRad"), ("getNonradiativeTransitions", [n, "L1"], "Elements.getNonrad"),
                            ("getElementMassAttenuationCoefficients", [n], "Elements.getMu")):
            qs.append((m, args, op))
        qs.append(("getEmittedXRayLines", [n, 30.0], "Elements.getLines"))
    for s in "KLM":
        qs += [("getShellConstantsFile", [s], "Elements.getConstFile"), ("getShellRadiativeTransitionsFile", [s], "Elements.getRadFile")]
    for case in cases:
        label, args, kw, want = case[:4]
        here = "Elements %s %s %s" % (label, show(args), show(kw))
        c = job.step.count
        job.step.at(here + "\0Elements() " + label)
        if c in job.skip:
            continue
        out.n["executions"] += 1
        out.n["transitions"] += 1
        try:
            h = cpp(*want)
            if len(case) > 4 and case[4]:
                cpp("Elements.setMuFile", h, case[4])
        except Refused as e:
            h = None
        try:
            if args is None:
                py = fisx.Elements(DATA)
                if "refused" in label:
                    keep = DataDir.FISX_DATA_DIR
                    DataDir.FISX_DATA_DIR = nowhere
                    try:
                        py.initializeAsPyMca()
                        out.bad("Elements.initializeAsPyMca not refused", here, here)
                    except Exception:
                        pass
                    finally:
                        DataDir.FISX_DATA_DIR = keep
                else:
                    py.initializeAsPyMca()
            else:
                py = fisx.Elements(*args, **kw)
        except Exception as e:
            py = None
            err = e
        out.n["comparisons"] += 1
        if (py is None) != (h is None):
            out.bad("Elements() %s: %s" % ("refused" if py is None else "not refused", label), here + (" %r" % err if py is None else ""), here)
            continue
        if py is None:
            continue
        for m, a, op in qs:
            out.n["comparisons"] += 1
            job.step.at(here + " " + m + "\0Elements() " + label)
            got = getattr(py, m)(*a)
            exp = cpp(op, h, *a)
            if "File" in m:
                got, exp = os.path.basename(got), os.path.basename(exp)
            if badtype(got) or not same(got, exp):
                out.bad("Elements() differs: " + label, "%s: %s%s is %s, the C++ library says %s" % (here, m, a, show(got), show(exp)), here)
        out.states.add(hash(here) & 0xffffffffffff)

# ---------------------------------------------------------------- jobs
def jobs(S):
    o = []
    for si, sc in enumerate(S):
        if sc.name == "fisx":
            o.append(("plain", si, 0, 0, 0))
            continue
        for ci in range(len(sc.ctors)):
            o.append(("ctor", si, ci, 0, 0))
            o.append(("asks", si, ci, 0, 0))
            for k in range(len(sc.changes)):
                if sc.depth >= 1:
                    o.append(("change", si, ci, k, 0))
                if sc.depth >= 2:
                    if sc.name == "Elements":
                        for k2 in range(len(sc.changes)):
                            o.append(("pair", si, ci, k, k2))
                    else:
                        o.append(("pairs", si, ci, k, 0))
        for ci in range(len(sc.ctors)):
            o.append(("badctor", si, ci, 0, 0))
        if sc.bads:
            n = len(sc.changes) + len(sc.queries(None))
            calls = sc.changes + sc.queries(None)
            for k in range(n):
                if sc.name == "Elements" and k < len(sc.changes):     # one object for each
                    o += [("badone", si, 0, k, 100 * i + b) for i in range(len(calls[k].params)) for b in range(len(badValues()))]
                else:
                    o.append(("bad", si, 0, k, 0))
    o.append(("libraries", 0, 0, 0, 0))
    return o

def runJob(S, j, out, step, skip):
    kind, si, ci, k, k2 = j
    sc = S[si]
    ctor = sc.ctors[ci]
    job = Job(out, step, skip)
    JOB[0] = job
    if kind == "libraries":
        return libraries(job)
    if kind == "plain":
        job.trace = []
        job.questions("fisx", None, sc.queries(None), True)
    elif kind == "ctor":                       # every form of the construction
        if sc.copies and sc.name != "XRF ready":
            return
        for f in variants(ctor):
            out.n["executions"] += 1
            label, args, kw, _ = f
            c = step.count
            step.at("%s [%s]\0%s() %s" % (ctor, label, sc.name, label))
            if c in skip:
                continue
            try:
                h = oracle(None, ctor, False)
            except Refused as e:
                h = None
            err = None
            try:
                py = getattr(fisx, ctor.method)(*args, **kw)
            except Exception as e:
                py, err = None, e
            if (h is None) != (py is None):
                out.bad("%s() %s: %s" % (sc.name, "refused" if py is None else "not refused", label), "%s [%s] %r" % (ctor, label, err), str(ctor))
                continue
            if py is not None and sc.name != "XRF ready":
                job.trace = ["%s [%s]" % (ctor, label)]
                job.questions(sc.name, Pair(py, h), sc.queries(None), False)
    elif kind == "asks":
        job.history(sc, ctor, [], 0, True)
    elif kind == "change":
        n = len(variants(sc.changes[k]))
        for f in range(n):
            if sc.name == "Elements":           # on one object: repeated application in another form
                job.history(sc, ctor, [sc.changes[k]], f, f == 0)
            else:
                job.history(sc, ctor, [sc.changes[k]], f, THOROUGH or (f == 0 and not sc.name.startswith("XRF")) )
    elif kind == "pairs":
        for b in range(len(sc.changes)):
            n = len(variants(sc.changes[b]))
            for f in range(n if THOROUGH else 1):
                job.history(sc, ctor, [sc.changes[k], sc.changes[b]], f, False)
    elif kind == "pair":
        job.history(sc, ctor, [sc.changes[k], sc.changes[k2]], 0, False)
    elif kind == "badctor":
        if sc.name in ("Elements", "XRF ready", "fisx", "Math"):
            return
        for i in range(len(ctor.params)):
            for b in badValues():
                job.senselessConstruction(sc, ctor, i, b)
    elif kind == "badone":
        job.senseless(sc, ctor, sc.changes[k], k2 // 100, badValues()[k2 % 100], True)
    elif kind == "bad":
        calls = sc.changes + sc.queries(None)
        call = calls[k]
        change, pair = k < len(sc.changes), None
        if not change:               # questions share the object, which is inspected at the end
            job.trace = [str(ctor)]
            pair = sc.make(job, ctor)
            if pair is None:
                return
        for i in range(len(call.params)):
            for b in badValues():
                job.senseless(sc, ctor, call, i, b, change, pair)
        job.senseless(sc, ctor, call, len(call.params), ("extra", 1.0), change, pair)
        if call.params and call.params[-1].default is NO:
            job.senseless(sc, ctor, call, len(call.params) + 1, ("missing", 1.0), change, pair)
        if not change:
            job.questions(sc.name, pair, sc.queries(pair), False)

def main():
    try:
        setup()
        S = table()
        J = jobs(S)
    except Exception:
        json.dump({"violations": [{"key": "set-up failed", "detail": traceback.format_exc()[-1500:], "log": "the library of the original data files is opened in Python and in C++",
                                   "suite": "python", "job": 0, "choices": ""}],
                   "complete": False, "states": 0, "transitions": 0, "executions": 0, "comparisons": 0, "jobs": 0, "samples": ["(none)"], "suites": {}, "assumptions": []},
                  open(CFG["out"], "w"))
        return
    if REPLAY is not None:
        J = [J[int(REPLAY)]]
    nw = 1 if REPLAY is not None else CFG["workers"]
    shared = mmap.mmap(-1, 64)
    import multiprocessing
    nxt = multiprocessing.Value("q", 0)
    t0 = time.time()
    results = []
    fds, pids = [], []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(S, J, nxt, wr)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        fds.append(r)
        pids.append(pid)
    import selectors
    sel = selectors.DefaultSelector()
    buf = {}
    for f in fds:
        sel.register(f, selectors.EVENT_READ)
        buf[f] = b""
    total = dict(executions=0, transitions=0, comparisons=0)
    states, violations, samples, kinds, done, times = set(), [], [], {}, 0, {}
    while buf:
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 16)
            if not d:
                sel.unregister(key.fd)
                del buf[key.fd]
                continue
            buf[key.fd] += d
            lines = buf[key.fd].split(b"\n")
            buf[key.fd] = lines.pop()
            for l in lines:
                m = json.loads(l)
                if "v" in m:
                    violations.append({"key": m["v"], "detail": m["detail"], "log": m["trace"], "suite": "python", "job": m["job"], "choices": ""})
                elif "done" in m:
                    done += 1
                    times[m["done"]] = times.get(m["done"], 0.0) + m["t"]
                else:
                    for k in total:
                        total[k] += m["n"][k]
                    states.update(m["states"])
                    for k, n in m["kinds"].items():
                        kinds[k] = kinds.get(k, 0) + n
                    samples += m["samples"][:1]
    ok = True
    for p in pids:
        if os.waitpid(p, 0)[1] != 0:
            ok = False
    if CFG.get("verbose"):
        for k in sorted(times, key=times.get):
            sys.stderr.write("%8.1f s %s\n" % (times[k], k))
    seen = {}
    for v in violations:
        seen[v["key"]] = seen.get(v["key"], 0) + 1
    for k, n in kinds.items():
        if n > seen.get(k, 0):
            violations.append({"more": k, "n": n - seen.get(k, 0), "key": k})
    complete = ok and done == len(J)
    res = {"violations": violations, "complete": complete, "states": len(states), "transitions": total["transitions"],
           "executions": total["executions"], "comparisons": total["comparisons"], "jobs": len(J), "samples": samples[:: max(1, len(samples) // 12)][:12],
           "suites": {"jobs": len(J)}, "assumptions": []}
    json.dump(res, open(CFG["out"], "w"))

def worker(S, J, nxt, wr):
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(J):
            return
        skip, crashes, begun = set(), 0, time.time()
        step = Step()
        while True:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(120)
                step.count = 0
                out = Out(w)
                try:
                    n = os.open("/dev/null", os.O_WRONLY)
                    os.dup2(n, 1)
                    if not CFG.get("verbose"):
                        os.dup2(n, 2)
                    runJob(S, J[i], out, step, skip)
                    out.flush()
                except BaseException:
                    os.write(w, (json.dumps({"v": "explorer: job failed", "detail": traceback.format_exc()[-1500:], "trace": step.read()[1]}) + "\n").encode())
                    out.flush()
                os._exit(0)
            os.close(w)
            data = b""
            while True:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                data += d
            os.close(r)
            st = os.waitpid(pid, 0)[1]
            if st == 0:
                for l in data.split(b"\n"):
                    if l:
                        m = json.loads(l)
                        m["job"] = i if REPLAY is None else int(REPLAY)
                        os.write(wr, json.dumps(m).encode() + b"\n")
                break
            c, text = step.read()
            trace, _, where = text.partition("\0")
            crashes += 1
            what = "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "interpreter terminated"
            m = {"v": "%s: %s" % (what, where), "detail": "status %d at %s" % (st, trace.split("\n")[-1]), "trace": trace, "job": i if REPLAY is None else int(REPLAY)}
            os.write(wr, json.dumps(m).encode() + b"\n")
            skip.add(c)
            if crashes > 40:
                break
        os.write(wr, json.dumps({"done": S[J[i][1]].name + " " + J[i][0] if J[i][0] != "libraries" else "libraries", "t": time.time() - begun}).encode() + b"\n")

main()
