#!/usr/bin/env python3
"""Simulation of Python programs using the pyami module. Runs under the preloaded heap (alloc.cpp).
pysim.py explore --dir BUILD --seed S --from W --stride N --cap SECONDS --out FILE | pysim.py replay --dir BUILD FILE
A run is a plan (JSON): operations of a Python program on named objects, with allocation failures and interference of other threads.
The right result of every call is the one it gives as the first call of a pristine forked interpreter."""
import copy, ctypes, gc, hashlib, json, os, resource, select, signal, struct, sys, time

ARGS = sys.argv[1:]
opt = lambda k, d=None: ARGS[ARGS.index(k) + 1] if k in ARGS else d
DIR = opt("--dir")
sys.path.insert(0, DIR)
L = ctypes.CDLL(os.path.join(DIR, "palloc.so"))
for f in ("ps_disarm", "ps_fired", "ps_live", "ps_blocks", "ps_errors", "ps_bad", "ps_switched"):
    getattr(L, f).restype = ctypes.c_long
for f in ("ps_arm",):
    getattr(L, f).argtypes = [ctypes.c_long] * 4
L.ps_message.restype = ctypes.c_char_p
L.ps_fill.argtypes = [ctypes.c_ulong]
import pyami  # noqa: E402
A = pyami.AmiBase
VEC = {"VI": pyami.VectorInt, "VD": pyami.VectorDouble, "VC": pyami.VectorComplex, "gp": pyami.g_prod_t, "pa": pyami.pole_array_t,
       "T": pyami.terms, "R": pyami.R_t, "P": pyami.P_t, "S": pyami.S_t, "RR": pyami.R_ref_t}
NAME = {c: t for t, c in VEC.items()}
ELEM = {"VI": "i", "VD": "d", "VC": "c", "gp": "g", "pa": "pole", "T": "term", "R": "lgp", "P": "lpa", "S": "lVD", "RR": "lp"}

class Rng:
    def __init__(s, seed): s.s = seed & (2**64 - 1)
    def u(s):
        s.s = (s.s + 0x9E3779B97F4A7C15) & (2**64 - 1)
        z = s.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)
    def below(s, n): return s.u() % n
    def chance(s, p): return (s.u() >> 11) / 2.0**53 < p
    def pick(s, l): return l[s.below(len(l))]
    def real(s, lo, hi): return round(lo + (hi - lo) * (s.u() >> 11) / 2.0**53, 6)

# ---- values. A float is kept as its bits, so that every NaN and zero is told apart.
fb = lambda x: struct.pack(">d", x).hex()
bf = lambda h: struct.unpack(">d", bytes.fromhex(h))[0]
G_FIELDS = ["eps_", "alpha_", "species_", "pp"]
POLE_FIELDS = ["eps_", "alpha_", "index_", "multiplicity_", "der_", "which_g_", "x_alpha_"]
PARM_FIELDS = ["N_INT_", "N_EXT_", "E_REG_", "tol_"]
EXT_FIELDS = ["energy_", "frequency_", "prefactor", "BETA_", "gamma_"]
TERM_FIELDS = ["sign", "p_list", "g_list"]
CLS = {A.g_struct: ("g", G_FIELDS), A.pole_struct: ("pole", POLE_FIELDS), A.ami_parms: ("parms", PARM_FIELDS), A.ami_vars: ("ext", EXT_FIELDS), A.term: ("term", TERM_FIELDS)}
CTOR = {"g": A.g_struct, "pole": A.pole_struct, "parms": A.ami_parms, "ext": A.ami_vars, "term": A.term}
FTYPE = {"eps_": "VI", "alpha_": "VI", "which_g_": "VI", "x_alpha_": "VI", "energy_": "VC", "frequency_": "VC", "p_list": "pa", "g_list": "gp",
         "E_REG_": "d", "tol_": "d", "prefactor": "d", "BETA_": "d", "gamma_": "d", "sign": "d"}
FIELDS = {"g": G_FIELDS, "pole": POLE_FIELDS, "parms": PARM_FIELDS, "ext": EXT_FIELDS, "term": TERM_FIELDS}

def rd(o):
    c = type(o)
    if c is int or c is bool or c is str or o is None: return o
    if c is float: return fb(o)
    if c is complex: return [fb(o.real), fb(o.imag)]
    if c in NAME: return [rd(x) for x in o]
    if c is list or c is tuple: return [rd(x) for x in o]
    if c in CLS: return [rd(getattr(o, f)) for f in CLS[c][1]]
    if c is A: return "engine"
    return "?" + c.__name__

def mk(t, v):
    if t == "i": return v
    if t == "d": return bf(v)
    if t == "c": return complex(bf(v[0]), bf(v[1]))
    if t == "lp": return [(a, b) for a, b in v]
    if t in ("lgp", "lpa", "lVD"): return [mk(t[1:], x) for x in v]
    if t in VEC: return VEC[t]([mk(ELEM[t], x) for x in v])
    if t == "engine": return A()
    if t == "parms": o = A.ami_parms(v[0], bf(v[2])) if v[1] == 1 else A.ami_parms()
    elif t == "ext": return mk_ext(v)
    else: o = CTOR[t]()
    for f, x in zip(FIELDS[t], v): setattr(o, f, mk(FTYPE.get(f, "i"), x))
    return o

def mk_ext(v):
    o = A.ami_vars(mk("VC", v[0]), mk("VC", v[1]), bf(v[3]), bf(v[2]))
    o.gamma_ = bf(v[4])
    return o

# ---- calls of the module: name -> (types of the arguments, which are results)
CALLS = {
    "construct": (["parms", "gp", "R", "P", "S"], [2, 3, 4]),
    "constructT": (["i", "gp", "T"], [2]),
    "evaluate": (["parms", "R", "P", "S", "ext"], []),
    "evaluateT": (["parms", "T", "ext"], []),
    "factorize_Rn": (["R", "i", "gp", "RR", "RR"], [2, 3, 4]),
    "factorize_terms": (["T", "gp", "RR", "RR"], [1, 2, 3]),
    "evaluateF": (["parms", "R", "P", "S", "ext", "gp", "RR", "RR"], []),
    "evaluateTF": (["parms", "T", "ext", "gp", "RR", "RR"], []),
    "new_g": (["VI", "VI"], []), "new_ext": (["VC", "VC", "d", "d"], []), "new_pole": (["VI", "VI"], []), "new_term": (["d", "pa", "gp"], []),
    "new_engine": (["parms"], []), "copy_R": (["R"], []), "copy_P": (["P"], []), "copy_T": (["T"], []), "copy_gp": (["gp"], []), "copy_VC": (["VC"], []),
    "defaults": ([], []),
}
def do_call(kind, e, a):
    if kind == "construct": return e.construct(*a)
    if kind == "constructT": return e.construct(*a)
    if kind in ("evaluate", "evaluateT", "evaluateF", "evaluateTF"): return e.evaluate(*a)
    if kind == "factorize_Rn": return e.factorize_Rn(a[0][a[1]], a[2], a[3], a[4])
    if kind == "factorize_terms": return e.factorize_terms(*a)
    if kind == "new_g": return A.g_struct(a[0], a[1])
    if kind == "new_ext": return A.ami_vars(a[0], a[1], a[2], a[3])
    if kind == "new_pole": return A.pole_struct(a[0], a[1])
    if kind == "new_term": return A.term(a[0], a[1], a[2])
    if kind == "new_engine": return A(a[0])
    if kind.startswith("copy_"): return VEC[kind[5:]](a[0])
    if kind == "defaults": return [A.ami_parms(), A.ami_vars(), A.pole_struct(), A.term(), A.g_struct(), pyami.R_t(), pyami.VectorComplex()]
BAD = [lambda e, o: e.construct(1, 2), lambda e, o: e.evaluate(None), lambda e, o: A.ami_vars("x", 3), lambda e, o: pyami.VectorInt(["a"]),
       lambda e, o: e.factorize_Rn([[1]], 2, 3, 4), lambda e, o: pyami.VectorInt([1])[5], lambda e, o: pyami.VectorComplex().pop(), lambda e, o: A.g_struct([1], [2]),
       lambda e, o: pyami.R_t().append(3), lambda e, o: A.ami_parms().nothing, lambda e, o: pyami.g_prod_t([A.term()]), lambda e, o: A().evaluate(A.ami_parms(), 3, 4)]

def guarded(f):
    try:
        return ["ok", f()]
    except MemoryError:
        return ["MemoryError", None]
    except Exception as x:
        return [type(x).__name__, None]

# ---- pristine reference: the call as the first one of a forked interpreter
memo, ostat = {}, {"calls": 0, "runs": 0}
def child(f, cpu=20):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            n = os.open("/dev/null", os.O_WRONLY)
            os.dup2(n, 1); os.dup2(n, 2)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(cpu * 6)
            d = json.dumps(f()).encode()
            i = 0
            while i < len(d): i += os.write(w, d[i:])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b: break
        buf.append(b)
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st): return None, os.WTERMSIG(st)
    if not buf: return None, 0
    return json.loads(b"".join(buf)), None
def size(v): return 1 + sum(size(x) for x in v) if type(v) is list else 1
def reference(kind, vals):
    ostat["calls"] += 1
    k = hashlib.sha1(json.dumps([kind, vals]).encode()).digest()
    if k in memo: return memo[k]
    ostat["runs"] += 1
    def f():
        L.ps_fill(0)
        if kind == "bad": return guarded(lambda: rd(BAD[vals](A(), None)))
        a = [mk(t, v) for t, v in zip(CALLS[kind][0], vals)]
        e = A()
        r = guarded(lambda: rd(do_call(kind, e, a)))
        return [r, [rd(x) for x in a]]
    v, sig = child(f, 5)
    if v is not None and kind != "bad" and size(v) > 2500: v = None # too large to look at after every operation
    if len(memo) > 60000: memo.clear()
    memo[k] = v
    return v

# ---- the model: what every operation does to the values. Annotates the plan with what is to be seen.
def at(v, t, path):
    """type and value of the part of (t, v) that path leads to"""
    for p in path:
        if isinstance(p, str):
            v = v[FIELDS[t].index(p)]; t = FTYPE.get(p, "i")
        else:
            if t in ELEM: e = ELEM[t]
            elif t in ("lgp", "lpa", "lVD"): e = t[1:]
            else: return None
            if not isinstance(v, list) or p >= len(v): return None
            v = v[p]; t = e
    return t, v
def put_at(v, t, path, new):
    if not path: return new
    p = path[0]
    if isinstance(p, str):
        i = FIELDS[t].index(p)
        v[i] = put_at(v[i], FTYPE.get(p, "i"), path[1:], new)
    else:
        e = ELEM[t] if t in ELEM else t[1:]
        v[p] = put_at(v[p], e, path[1:], new)
    return v

def edit(st, op):
    """a change the Python program makes to one of its own objects; False if it does not apply"""
    s = op["s"]
    if s not in st or s in st["#views"]: return False
    t, v = st[s]
    hit = at(v, t, op["path"])
    if hit is None: return False
    ht, hv = hit
    k = op["edit"]
    if k == "set":
        if ht != op["t"] or not op["path"]: return False
        st[s] = (t, put_at(copy.deepcopy(v), t, op["path"], op["v"]))
        st["#tags"].pop(s, None)
        return True
    if ht not in ELEM: return False
    n = copy.deepcopy(hv)
    if k == "append":
        if ELEM[ht] != op["t"]: return False
        n.append(op["v"])
    elif k == "insert":
        if ELEM[ht] != op["t"] or op["i"] > len(n): return False
        n.insert(op["i"], op["v"])
    elif k == "pop":
        if not n: return False
        n.pop()
    elif k == "clear": n = []
    elif k == "del":
        if op["i"] >= len(n): return False
        del n[op["i"]]
    elif k == "extend":
        if ELEM[ht] != op["t"]: return False
        n += [op["v"], op["v"]]
    st[s] = (t, put_at(copy.deepcopy(v), t, op["path"], n))
    st["#tags"].pop(s, None)
    return True
def has_list(t, path):
    # whether walking this path goes through a list the module makes on the fly (then an edit would change a copy)
    for p in path:
        if isinstance(p, str): t = FTYPE.get(p, "i")
        else:
            t = ELEM[t] if t in ELEM else t[1:]
            if t in ("lgp", "lpa", "lVD", "lp"): return True
    return False

def drop_views(st, roots):
    gone = [n for n, r in st["#views"].items() if r in roots]
    for n in gone:
        del st[n], st["#views"][n]
    return gone

def annotate(plan):
    """expected observations; an operation that does not apply (or that the library does not define) is marked as left out"""
    st = {"#views": {}, "#tags": {}}
    out = []
    for op in plan["ops"]:
        k = op["op"]
        x = {"skip": False, "dropv": []}
        if k == "lit":
            if op["s"] in st["#views"]: x["skip"] = True
            else:
                x["dropv"] = [] if op["s"] not in st else drop_views(st, []) # the old object lives on through its views
                for n, r in st["#views"].items():
                    if r == op["s"]: st["#views"][n] = None
                st[op["s"]] = (op["t"], op["v"])
                st["#tags"].pop(op["s"], None)
        elif k == "edit":
            roots = [op["s"]]
            if op["s"] in st and has_list(st[op["s"]][0], op["path"]): x["skip"] = True
            elif not edit(st, op): x["skip"] = True
            else: x["dropv"] = drop_views(st, roots)
        elif k == "del":
            if op["s"] not in st: x["skip"] = True
            else:
                for n, r in st["#views"].items():
                    if r == op["s"]: st["#views"][n] = None
                del st[op["s"]]
                st["#views"].pop(op["s"], None)
        elif k == "view":
            if op["s"] not in st or op["d"] in st or op["s"] in st["#views"]: x["skip"] = True
            else:
                h = at(st[op["s"]][1], st[op["s"]][0], op["path"])
                if h is None or h[0] in ("i", "d", "c", "lp") or not op["path"]: x["skip"] = True
                else:
                    st[op["d"]] = (h[0], copy.deepcopy(h[1]))
                    st["#views"][op["d"]] = op["s"]
        elif k == "iter":
            if op["s"] not in st or op["s"] in st["#views"] and op["del"]: x["skip"] = True
            else:
                h = at(st[op["s"]][1], st[op["s"]][0], op["path"])
                if h is None or h[0] not in ELEM or has_list(st[op["s"]][0], op["path"]): x["skip"] = True
                else:
                    x["expect"] = h[1]
                    if op["del"]:
                        for n, r in st["#views"].items():
                            if r == op["s"]: st["#views"][n] = None
                        del st[op["s"]]
        elif k == "bad":
            x["expect"] = reference("bad", op["n"])
            if x["expect"] is None or x["expect"][0] == "ok": x["skip"] = True
        elif k == "gc": pass
        elif k == "call":
            x["skip"] = not call_model(st, op, x)
        if k == "call" and not x["skip"] and op.get("sub"):
            sub = op["sub"]
            if sub["op"] == "call": x["sub"] = sub_model(st, op, x)
            elif sub["s"] in st and has_list(st[sub["s"]][0], sub["path"]): x["sub"] = False
            elif edit(st, sub):
                x["sub"] = True
                x["dropv"] += drop_views(st, [sub["s"]])
                x["sub_post"] = st[sub["s"]][1]
                j = op["a"].index(sub["s"]) if sub["s"] in op["a"] else -1
                if j in CALLS[op["k"]][1] and not sub["path"]: # a result may as well be changed before the call stores it
                    first = {"#views": {}, "#tags": {}, sub["s"]: (CALLS[op["k"]][0][j], x["pre"][j])}
                    if edit(first, sub):
                        r = reference(op["k"], x["pre"][:j] + [first[sub["s"]][1]] + x["pre"][j + 1:])
                        if r is not None and r[0][0] == "ok": x["sub_first"] = r[1][j]
                    else: x["sub_first"] = x["post"][j] # there was nothing to take away yet
            else: x["sub"] = False
        x["live"] = {n: v for n, v in st.items() if n[0] != "#"} if op.get("check") or k in ("gc", "del") else None
        out.append(x)
    return out, {n: v for n, v in st.items() if n[0] != "#"}
def defined(st, kind, names, vals):
    """the tag the results of a call get: None if the arguments do not fit together and the library promises nothing"""
    tag = lambda i: st["#tags"].get(names[i])
    if kind in ("construct", "constructT"):
        N, g = vals[0][0] if kind == "construct" else vals[0], vals[1]
        if not g or N < 0 or len({len(l[0]) for l in g}) != 1 or len({len(l[1]) for l in g}) != 1 or len(g[0][1]) <= N or not g[0][0]: return None
        return [kind, hashlib.sha1(json.dumps(g).encode()).hexdigest(), N, len(g[0][0]), len(g[0][1])]
    def fits(p, t, x): return t is not None and (p is None or p[0] == t[2]) and len(x[0]) == t[3] and len(x[1]) == t[4]
    if kind in ("evaluate", "evaluateF"):
        t = tag(1)
        if t is None or t[0] != "construct" or tag(2) != t or tag(3) != t or not fits(vals[0], t, vals[4]): return None
        if any(not Ri for Ri in vals[1]) or any(not Pj for Pi in vals[2] for Pj in Pi): return None
        if kind == "evaluateF" and any(tag(i) != ["fac", t] for i in (5, 6, 7)): return None
        return ["value"]
    if kind in ("evaluateT", "evaluateTF"):
        t = tag(1)
        if t is None or t[0] != "constructT" or not fits(vals[0], t, vals[2]): return None
        if kind == "evaluateTF" and any(tag(i) != ["fac", t] for i in (3, 4, 5)): return None
        return ["value"]
    if kind == "factorize_Rn":
        return ["fac", tag(0)] if tag(0) and vals[1] == tag(0)[2] else None
    if kind == "factorize_terms":
        return ["fac", tag(0)] if tag(0) else None
    if kind.startswith("copy_"): return tag(0) or ["value"]
    return ["value"]
def call_model(st, op, x):
    kind, names = op["k"], op["a"]
    types, outs = CALLS[kind]
    vals = []
    for i, (t, n) in enumerate(zip(types, names)):
        if isinstance(n, str):
            if n not in st or st[n][0] != t: return False
            if i in outs and n in st["#views"]: return False
            vals.append(st[n][1])
        else: vals.append(n)
    if len({n for i, n in enumerate(names) if i in outs}) != len(outs) or any(n in [names[i] for i in outs] for j, n in enumerate(names) if j not in outs): return False
    if kind == "factorize_Rn" and names[1] >= len(vals[0]): return False
    tag = defined(st, kind, names, vals)
    if tag is None: return False
    r = reference(kind, vals)
    if r is None or r[0][0] != "ok": return False
    x["expect"], x["post"] = r
    x["pre"] = vals
    x["look"] = [j for j, n in enumerate(names) if isinstance(n, str) and (j in outs or op.get("fault") or op.get("sub") or size(vals[j]) < 150 or size(vals[j]) % 4 == 0)]
    x["dropv"] = drop_views(st, [names[i] for i in outs])
    for n, t, v in zip(names, types, r[1]):
        if isinstance(n, str): st[n] = (t, v)
    for i in outs: st["#tags"][names[i]] = tag
    if op.get("d"):
        d = op["d"]
        if d in st["#views"]: return False
        for n, rt in st["#views"].items():
            if rt == d: st["#views"][n] = None
        tt = {"new_g": "g", "new_ext": "ext", "new_pole": "pole", "new_term": "term", "new_engine": "engine"}.get(kind) or (kind[5:] if kind.startswith("copy_") else None)
        if tt is None: return False
        st[d] = (tt, r[0][1])
        st["#tags"][d] = tag if kind.startswith("copy_") else None
        x["dtype"] = tt
    return True

def sub_model(st, op, x):
    """a call another thread makes while this one runs: it reads what this one does not change, its results go to fresh containers"""
    sub = op["sub"]
    types, outs = CALLS[sub["k"]]
    busy = {op["a"][j] for j in CALLS[op["k"]][1]} | {op.get("d")}
    vals, tags = [], {"#tags": st["#tags"]}
    for j, (t, n) in enumerate(zip(types, sub["a"])):
        if j in outs: vals.append([])
        elif isinstance(n, str):
            if n in busy or n not in st or st[n][0] != t: return False
            vals.append(st[n][1])
        else: vals.append(n)
    if sub["k"] == "factorize_Rn" and vals[1] >= len(vals[0]): return False
    if defined(tags, sub["k"], sub["a"], vals) is None: return False
    r = reference(sub["k"], vals)
    if r is None or r[0][0] != "ok": return False
    x["sub_expect"] = [r[0][1], r[1]]
    return True

# ---- execution of an annotated plan, in a forked interpreter
class Violation(Exception):
    pass
HOOKT = ctypes.CFUNCTYPE(None)
def execute(plan, ann, final):
    ev, obj, ops, info = hashlib.sha256(), {}, plan["ops"], {"seen": [0] * len(plan["ops"]), "fired": 0, "switched": 0, "overlapped": 0, "done": 0, "faults": 0}
    L.ps_fill(plan["fill"])
    eng = {}
    def engine(n):
        if n not in eng:
            eng[n] = A()
        return eng[n]
    def reach(o, path):
        for p in path: o = getattr(o, p) if isinstance(p, str) else o[p]
        return o
    def do_edit(op):
        path, k = op["path"], op["edit"]
        if k == "set":
            o, v = reach(obj[op["s"]], path[:-1]), mk(op["t"], op["v"])
            if isinstance(path[-1], str): setattr(o, path[-1], v)
            else: o[path[-1]] = v
            return
        o = reach(obj[op["s"]], path)
        if k == "append": o.append(mk(op["t"], op["v"]))
        elif k == "insert": o.insert(op["i"], mk(op["t"], op["v"]))
        elif k == "pop": o.pop()
        elif k == "clear": o.clear()
        elif k == "del": del o[op["i"]]
        elif k == "extend": o.extend([mk(op["t"], op["v"]), mk(op["t"], op["v"])])
    def heap(where, full=False):
        if L.ps_bad() or full and L.ps_errors(): raise Violation("heap|" + where + ": " + L.ps_message().decode())
    def same(what, got, want):
        if got != want: raise Violation("value|%s: got %s, alone %s" % (what, str(got)[:160], str(want)[:160]))
    def check_all(live, where):
        for n, tv in live.items():
            if n in obj: same("contents of %s (%s) %s" % (n, tv[0], where), rd(obj[n]), tv[1])
    def once(rep):
        for i, op in enumerate(ops):
            x = ann[i]
            if x["skip"]: continue
            k = op["op"]
            for n in x["dropv"]: obj.pop(n, None)
            if k == "lit": obj[op["s"]] = mk(op["t"], op["v"])
            elif k == "edit": do_edit(op)
            elif k == "del": obj.pop(op["s"], None); eng.pop(op["s"], None); gc.collect()
            elif k == "gc": gc.collect()
            elif k == "view": obj[op["d"]] = reach(obj[op["s"]], op["path"])
            elif k == "iter":
                it = iter(reach(obj[op["s"]], op["path"]))
                got = [rd(next(it))] if x["expect"] and op["first"] else []
                if op["del"]:
                    obj.pop(op["s"])
                    gc.collect()
                    junk = [mk("VI", [7] * 9) for _ in range(4)]
                got += [rd(y) for y in it]
                same("elements met by an iterator in operation %d" % i, got, x["expect"])
                it = None
            elif k == "bad":
                r = guarded(lambda: rd(BAD[op["n"]](engine("e0"), None)))
                same("wrong call %d" % op["n"], r[0], x["expect"][0])
            elif k == "call":
                types, outs = CALLS[op["k"]]
                args = [obj[n] if isinstance(n, str) else mk(t, n) if t != "i" else n for t, n in zip(types, op["a"])]
                e = engine(op["e"])
                label = "operation %d (%s)" % (i, op["k"])
                tries = [op["fault"], None] if op.get("fault") else [None]
                done = False
                for f in tries:
                    if done: break
                    interfered = []
                    def other():
                        interfered.append(1)
                        if op["sub"]["op"] == "call":
                            z = op["sub"]
                            a = [VEC[t]() if j in CALLS[z["k"]][1] else obj[n] if isinstance(n, str) else mk(t, n) if t != "i" else n for j, (t, n) in enumerate(zip(CALLS[z["k"]][0], z["a"]))]
                            q = guarded(lambda: rd(do_call(z["k"], engine(z["e"]), a)))
                            interfered.append([q, [rd(v) for v in a]])
                            return
                        try: do_edit(op["sub"])
                        except IndexError: pass
                    cb = HOOKT(other)
                    sub = x.get("sub") and f is None
                    if sub: L.ps_hook(cb)
                    L.ps_arm(f[0] if f else 0, f[1] if f else 0, f[2] if f else 0, op["sub_at"] if sub else 0)
                    r = guarded(lambda: do_call(op["k"], e, args))
                    seen = L.ps_disarm()
                    fired = L.ps_fired()
                    if sub: L.ps_hook(HOOKT(0))
                    if f is None: info["seen"][i] = seen
                    info["fired"] += fired
                    if f and fired: info["faults"] += 1
                    info["switched"] += L.ps_switched()
                    info["done"] += 1
                    if r[0] == "MemoryError" and fired:
                        r[1] = None
                        ev.update(b"M")
                        heap(label)
                        for j, n in enumerate(op["a"]):
                            if isinstance(n, str) and j not in outs: same("argument %d of %s after MemoryError" % (j, label), rd(args[j]), x["pre"][j])
                        continue
                    if r[0] != "ok": raise Violation("exception|%s raised %s%s" % (label, r[0], " although no allocation failed" if not fired else ""))
                    done = True
                    res = rd(r[1])
                    same("result of " + label + (" although an allocation failed inside it" if fired else " after MemoryError" if len(tries) > 1 and f is None else ""), res, x["expect"][1])
                    for j in x["look"]:
                        n, want = op["a"][j], x["post"][j] if j in outs else x["pre"][j] # what a call only reads stays as it is
                        if interfered and op["sub"]["op"] == "edit" and op["sub"]["s"] == n:
                            want = x["sub_post"]
                            if "sub_first" in x and rd(args[j]) != want and rd(args[j]) == x["sub_first"]: do_edit(op["sub"])
                        same("argument %d after %s" % (j, label), rd(args[j]), want)
                    if op.get("d") and x.get("dtype"):
                        obj[op["d"]] = r[1]
                        if x["dtype"] == "engine": eng[op["d"]] = r[1]
                    if sub and op["sub"]["op"] == "call":
                        if len(interfered) == 1: raise Violation("exception|the call of another thread during %s did not end" % label)
                        if interfered:
                            info["overlapped"] += 1
                            same("call (%s) of another thread during %s" % (op["sub"]["k"], label), interfered[1], [["ok", x["sub_expect"][0]], x["sub_expect"][1]])
                    elif sub and not interfered: do_edit(op["sub"])
                    ev.update(repr((i, seen, res)).encode())
                heap(label)
                r = args = None
            if x["live"] and rep == 1: check_all(x["live"], "after operation %d" % i)
        check_all(final, "at the end")
        heap("at the end", rep == 1)
    for_rep = plan.get("reps", 1)
    base = half = 0
    grow = []
    ok = for_rep < 4
    for r in range(1, for_rep + 1):
        once(r)
        if for_rep > 1:
            obj.clear(); eng.clear(); gc.collect()
            if r & (r - 1) == 0:
                now = L.ps_live()
                if r == 1: base = now
                grow.append(now - base)
                if r >= 4 and now <= half: ok = True; break
                half = now
    if not ok: raise Violation("leak|C++ memory held after 1, 2, 4, ... repetitions of the same program: %s more bytes" % grow)
    info["hash"] = ev.hexdigest()[:16]
    return info

def run_plan(plan):
    """outcome of one plan: dict with kind/message of a violation, or ok"""
    ann, final = annotate(plan)
    def f():
        try:
            i = execute(plan, ann, final)
            i["kind"] = "ok"
            return i
        except Violation as v:
            k, m = str(v).split("|", 1)
            return {"kind": k, "message": m, "hash": hashlib.sha256(m.encode()).hexdigest()[:16]}
    r, sig = child(f, 30)
    if r is None:
        r = {"kind": "hang" if sig in (signal.SIGXCPU, signal.SIGALRM) else "crash", "message": "the interpreter died with signal %s" % sig, "hash": "signal%s" % sig}
    r["skipped"] = sum(1 for x in ann if x["skip"])
    return r

# ---- seeded programs
def gen(seed):
    g = Rng(seed)
    ops, n = [], [0]
    def name(p): n[0] += 1; return "%s%d" % (p, n[0])
    probs, exts = [], []
    def lit(p, t, v):
        s = name(p)
        ops.append({"op": "lit", "s": s, "t": t, "v": v})
        return s
    def problem():
        N = g.pick([1, 1, 2, 2, 2, 3])
        M = N + 1 + g.below(2 if N == 3 else 3)
        lines = []
        for m in range(M):
            if lines and g.chance(0.25): lines.append(copy.deepcopy(g.pick(lines))); continue
            al = [0] * (N + 1)
            if m < N: al[m] = 1
            elif g.chance(0.7): al = [g.below(3) - 1 for _ in range(N + 1)]; al[g.below(N)] = 1
            else: al[g.below(N)] = g.pick([1, -1])
            if g.chance(0.5): al[N] = g.pick([0, 1, -1])
            ep = [0] * M
            ep[m] = 1
            lines.append([ep, al, 0, -1])
        return N, M, lines
    def ext(N, M):
        en = [[fb(g.pick([g.real(-4, 4), g.real(-4, 4), 0.0, 1.0, g.real(-1e-3, 1e-3), 1e9, -40.0])), fb(0.0)] for _ in range(M)]
        fr = [[fb(0.0), fb(0.0)] for _ in range(N)] + [[fb(0.0), fb(g.pick([3.141592653589793, 9.42477796076938, 0.0, g.real(-5, 5)]))]]
        return [en, fr, fb(g.pick([1.0, 1.0, -1.0, 2.5, 0.0])), fb(g.pick([1.0, 5.0, 10.0, 400.0])), fb(0.0)]
    for _ in range(1 + g.below(3)):
        N, M, lines = problem()
        probs.append(dict(N=N, M=M, lines=lines, p=lit("p", "parms", [N, 1, fb(g.pick([0.0, 0.0, 1e-3])), fb(1e-12)]), g=lit("g", "gp", lines), x=[], R=None, T=None, F=None, TF=None))
    for pr in probs:
        for _ in range(1 + g.below(2)): pr["x"].append(lit("x", "ext", ext(pr["N"], pr["M"])))
    engines = ["e%d" % i for i in range(1 + g.below(3))]
    views = []
    def call(k, a, **kw):
        o = {"op": "call", "k": k, "e": g.pick(engines), "a": a}
        o.update(kw)
        if g.chance(0.1): o["check"] = 1
        if g.chance(0.15):
            q = g.pick(probs)
            c = [("construct", [q["p"], q["g"], 0, 0, 0]), ("constructT", [q["N"], q["g"], 0])]
            if q["R"]: c += [("evaluate", [q["p"]] + q["R"] + [g.pick(q["x"])])] * 4 + [("factorize_Rn", [q["R"][0], q["N"], 0, 0, 0])]
            if q["T"]: c += [("evaluateT", [q["p"], q["T"], g.pick(q["x"])])] * 4 + [("factorize_terms", [q["T"], 0, 0, 0])]
            if q["R"] and q["F"]: c += [("evaluateF", [q["p"]] + q["R"] + [g.pick(q["x"])] + q["F"])] * 3
            if q["T"] and q["TF"]: c += [("evaluateTF", [q["p"], q["T"], g.pick(q["x"])] + q["TF"])] * 3
            z = g.pick(c)
            o["sub"] = dict(op="call", k=z[0], e=g.pick(engines), a=z[1])
            o["sub_at"] = 1 + g.below(1 << g.below(9))
        elif g.chance(0.25):
            s = g.pick([z for z in a if isinstance(z, str)] or [None])
            if s is None: pass
            elif s[0] == "x": o["sub"] = dict(s=s, path=["prefactor"], edit="set", t="d", v=fb(g.real(1, 3))) if g.chance(0.4) else dict(s=s, path=["energy_", 0], edit="set", t="c", v=[fb(g.real(1, 3)), fb(0.0)])
            elif s[0] in "RPSTgfru": o["sub"] = dict(s=s, path=[], edit=g.pick(["clear", "pop", "pop"]))
            elif s[0] == "p": o["sub"] = dict(s=s, path=["E_REG_"], edit="set", t="d", v=fb(0.25))
            if "sub" in o: o["sub"].update(op="edit"); o["sub_at"] = 1 + g.below(1 << g.below(9))
        ops.append(o)
    for _ in range(6 + g.below(22)):
        pr = g.pick(probs)
        a = g.below(100)
        if pr["R"] is None and pr["T"] is None or a < 16:
            if g.chance(0.6):
                old = pr["R"]
                pr["R"] = old if old and g.chance(0.5) else [lit("R", "R", []), lit("P", "P", []), lit("S", "S", [])]
                call("construct", [pr["p"], pr["g"]] + pr["R"])
            else:
                pr["T"] = pr["T"] if pr["T"] and g.chance(0.5) else lit("T", "T", [])
                call("constructT", [pr["N"], pr["g"], pr["T"]])
        elif a < 40:
            x = g.pick(pr["x"])
            if pr["R"] and (not pr["T"] or g.chance(0.5)): call("evaluate", [pr["p"]] + pr["R"] + [x])
            else: call("evaluateT", [pr["p"], pr["T"], x])
        elif a < 55:
            if pr["R"] and (not pr["T"] or g.chance(0.5)):
                pr["F"] = pr["F"] if pr["F"] and g.chance(0.4) else [lit("f", "gp", []), lit("r", "RR", []), lit("u", "RR", [])]
                call("factorize_Rn", [pr["R"][0], pr["N"]] + pr["F"])
                call("evaluateF", [pr["p"]] + pr["R"] + [g.pick(pr["x"])] + pr["F"])
            else:
                pr["TF"] = pr["TF"] if pr["TF"] and g.chance(0.4) else [lit("f", "gp", []), lit("r", "RR", []), lit("u", "RR", [])]
                call("factorize_terms", [pr["T"]] + pr["TF"])
                call("evaluateTF", [pr["p"], pr["T"], g.pick(pr["x"])] + pr["TF"])
        elif a < 62 and (pr["F"] or pr["TF"]):
            if pr["F"]: call("evaluateF", [pr["p"]] + pr["R"] + [g.pick(pr["x"])] + pr["F"])
            else: call("evaluateTF", [pr["p"], pr["T"], g.pick(pr["x"])] + pr["TF"])
        elif a < 70:
            x = g.pick(pr["x"])
            k = g.below(4)
            if k == 0: ops.append(dict(op="edit", s=x, path=["energy_", g.below(pr["M"])], edit="set", t="c", v=[fb(g.real(-3, 3)), fb(0.0)]))
            elif k == 1: ops.append(dict(op="edit", s=x, path=["prefactor"], edit="set", t="d", v=fb(g.real(-2, 2))))
            elif k == 2: ops.append(dict(op="edit", s=x, path=["energy_"], edit="set", t="VC", v=ext(pr["N"], pr["M"])[0]))
            else: ops.append(dict(op="edit", s=pr["p"], path=["E_REG_"], edit="set", t="d", v=fb(g.pick([0.0, 1e-4]))))
        elif a < 76:
            gl = pr["g"]
            k = g.below(3)
            if k == 0: ops.append(dict(op="edit", s=gl, path=[], edit=g.pick(["append", "extend"]), t="g", v=copy.deepcopy(g.pick(pr["lines"]))))
            elif k == 1: ops.append(dict(op="edit", s=gl, path=[g.below(pr["M"]), "eps_"], edit="set", t="VI", v=g.pick(pr["lines"])[0]))
            else: ops.append(dict(op="edit", s=gl, path=[], edit="insert", i=g.below(2), t="g", v=copy.deepcopy(g.pick(pr["lines"]))))
            pr["F"] = pr["TF"] = pr["R"] = pr["T"] = None
        elif a < 88:
            d = name("v")
            c = [(pr["g"], [[0], [0, "alpha_"], [g.below(pr["M"]), "eps_"]]), (g.pick(pr["x"]), [["energy_"], ["frequency_"]])]
            if pr["R"]: c += [(pr["R"][0], [[g.below(pr["N"] + 1), 0], [pr["N"], 0, 0], [pr["N"], 0, 0, "alpha_"], [0]]), (pr["R"][1], [[0, 0], [0, 0, 0], [0, 0, 0, "which_g_"], [0]]), (pr["R"][2], [[0, 0], [0]])]
            if pr["T"]: c += [(pr["T"], [[0], [0, "g_list"], [0, "p_list"], [0, "p_list", 0, "eps_"]])] * 2
            if g.chance(0.3):
                s = g.pick([pr["g"], g.pick(pr["x"])] + ([pr["R"][1], pr["R"][0]] if pr["R"] else []) + ([pr["T"]] * 2 if pr["T"] else []))
                path = [["energy_"], ["frequency_"]][g.below(2)] if s[0] == "x" else g.pick([[], [], [0, "eps_"], [g.below(2), "alpha_"]]) if s == pr["g"] else g.pick([[], [0, "g_list"], [0, "p_list"]]) if s == pr["T"] else []
                o = dict(op="iter", s=s, path=path, first=g.chance(0.5), **{"del": g.chance(0.5)})
                ops.append(o)
                if o["del"]:
                    for q in probs:
                        if s == q["g"]: q["g"] = lit("g", "gp", q["lines"])
                        if q["R"] and s in q["R"]: q["R"] = q["F"] = None
                        if s == q["T"]: q["T"] = q["TF"] = None
                        if s in q["x"]:
                            q["x"].remove(s)
                            q["x"].append(lit("x", "ext", ext(q["N"], q["M"])))
                continue
            s, paths = g.pick(c)
            ops.append(dict(op="view", s=s, path=g.pick(paths), d=d))
            if g.chance(0.35):
                ops.append(dict(op="del", s=s))
                for q in probs:
                    if s == q["g"]: q["g"] = lit("g", "gp", q["lines"])
                    if q["R"] and s in q["R"]: q["R"] = q["F"] = None
                    if s == q["T"]: q["T"] = q["TF"] = None
                    if s in q["x"]:
                        q["x"].remove(s)
                        q["x"].append(lit("x", "ext", ext(q["N"], q["M"])))
            elif g.chance(0.3): # the program throws the view's own copies away at a random time
                ops.append(dict(op="gc"))
        elif a < 92: ops.append(dict(op="bad", n=g.below(len(BAD))))
        elif a < 96:
            k = g.below(6)
            if k == 0 and pr["R"]: d = name("R"); call("copy_R", [pr["R"][0]], d=d); pr["R"] = [d, pr["R"][1], pr["R"][2]]
            elif k == 1 and pr["T"]: d = name("T"); call("copy_T", [pr["T"]], d=d); pr["T"] = d
            elif k == 2: d = name("g"); call("copy_gp", [pr["g"]], d=d); pr["g"] = d
            elif k == 3: d = name("x"); e = ext(pr["N"], pr["M"]); call("new_ext", [e[0], e[1], e[3], e[2]], d=d); pr["x"].append(d)
            elif k == 4: d = name("e"); call("new_engine", [pr["p"]], d=d); engines.append(d)
            else: call("defaults", [])
        elif a < 98: ops.append(dict(op="gc"))
        else:
            if pr["R"] and g.chance(0.5):
                for s in pr["R"]: ops.append(dict(op="del", s=s))
                pr["R"] = pr["F"] = None
            else: engines.append(name("e"))
    return {"prop": "P01", "seed": seed, "fill": g.pick([0, 0xFF, 0xA5, g.u(), g.u()]), "reps": g.pick([1] * 9 + [32]), "ops": ops}
def with_faults(plan, seen, g):
    p = copy.deepcopy(plan)
    c = [i for i, o in enumerate(p["ops"]) if o["op"] == "call" and seen[i] > 0]
    if not c: return None
    for i in c if g.chance(0.3) else [g.pick(c) for _ in range(1 + g.below(3))]:
        o = p["ops"][i]
        o.pop("sub", None)
        n = seen[i]
        at_ = 1 + g.below(n) if g.chance(0.8) else max(1, n - g.below(4))
        o["fault"] = [at_, -1 if g.chance(0.2) else 1, 0 if g.chance(0.85) else g.pick([32, 64, 128])]
    p["fseed"] = g.s
    return p

def minimise(plan, kind, budget=25):
    end = time.time() + budget
    def bad(p): return time.time() < end and run_plan(p)["kind"] == kind
    p = copy.deepcopy(plan)
    if p["reps"] > 1 and kind != "leak":
        q = copy.deepcopy(p); q["reps"] = 1
        if bad(q): p = q
    for o in list(range(len(p["ops"]))):
        for key in ("fault", "sub"):
            if key in p["ops"][o]:
                q = copy.deepcopy(p); del q["ops"][o][key]
                if bad(q): p = q
    n = max(1, len(p["ops"]) // 2)
    while n >= 1:
        i = 0
        while i < len(p["ops"]):
            q = copy.deepcopy(p); del q["ops"][i:i + n]
            if len(q["ops"]) < len(p["ops"]) and bad(q): p = q
            else: i += n
        n //= 2
    if p["fill"] != 0:
        q = copy.deepcopy(p); q["fill"] = 0
        if bad(q): p = q
    return p

def explore():
    seed0, frm, stride, cap, out = int(opt("--seed")), int(opt("--from")), int(opt("--stride")), float(opt("--cap")), opt("--out")
    t0 = time.time()
    st = dict(status="ok", overlapped=0, runs=0, plans=0, nontrivial=0, ops=0, calls=0, skipped_ops=0, fired=0, faults=0, switched=0, offered=0, determinism=0, samples=[], kinds={}, leakruns=0)
    seen_hash = set()
    k = frm
    def finish(status, **kw):
        st.update(status=status, wall=time.time() - t0, reference_calls=ostat["calls"], reference_processes=ostat["runs"], hashes=sorted(seen_hash), **kw)
        with open(out, "w") as f: json.dump(st, f)
    while time.time() - t0 < cap:
        s = Rng(seed0 * 1000003 + k * 7919 + 17).u()
        plan = gen(s)
        st["plans"] += 1
        k += stride
        g = Rng(s ^ 0xFA17)
        todo = [plan]
        base = None
        while todo:
            p = todo.pop(0)
            r = run_plan(p)
            st["runs"] += 1
            st["skipped_ops"] += r["skipped"]
            st["ops"] += len(p["ops"])
            if r["kind"] != "ok" or st["runs"] % 16 == 0:
                q = run_plan(p)
                st["determinism"] += 1
                if q["kind"] != r["kind"] or q["hash"] != r["hash"]:
                    finish("error", message="nondeterministic execution: %s / %s" % (r, q), plan=p)
                    return 2
            if r["kind"] != "ok":
                m = minimise(p, r["kind"])
                q = run_plan(m)
                if q["kind"] != r["kind"]: m, q = p, r
                m["expect"] = [q["kind"], q["hash"]]
                with open(out + ".replay", "w") as f: json.dump(m, f, indent=1)
                finish("violation", kind=q["kind"], message=q["message"], hash=q["hash"], run_seed=s)
                return 1
            st["calls"] += r["done"]
            st["fired"] += r["fired"]; st["faults"] += r["faults"]
            st["switched"] += r["switched"]; st["overlapped"] += r["overlapped"]
            st["offered"] += sum(1 for o in p["ops"] if "sub" in o)
            st["leakruns"] += p["reps"] > 1
            for o in p["ops"]:
                n = o["op"] if o["op"] != "call" else o["k"]
                st["kinds"][n] = st["kinds"].get(n, 0) + 1
            if r["faults"] or base is not None or r["done"] >= 2:
                st["nontrivial"] += 1
                seen_hash.add(hashlib.sha1(json.dumps([p["ops"], r["hash"]]).encode()).hexdigest()[:16])
            if len(st["samples"]) < 1 and r["faults"]: st["samples"].append(p)
            if base is None:
                base = r
                for _ in range(3):
                    q = with_faults(p, r["seen"], g)
                    if q: todo.append(q)
            if time.time() - t0 > cap: break
    finish("ok")
    return 0

def replay():
    p = json.load(open(ARGS[-1]))
    r = run_plan(p)
    print("outcome %s hash %s %s" % (r["kind"], r.get("hash"), r.get("message", "")))
    if r["kind"] == "ok": return 0
    return 1 if [r["kind"], r["hash"]] == p.get("expect") else 3

if __name__ == "__main__":
    gc.disable()
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    sys.exit(explore() if ARGS[0] == "explore" else replay())
