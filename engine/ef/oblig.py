"""Obligations: a function of the repository against a reference definition, both summarised by the same analysis.

  discharged   the two summaries have the same normal form (throw conditions, kept calls, results, written state)
  violated     the normal forms differ and an interpretation of the inputs separates them
  unrefuted    the normal forms differ, no interpretation tried separates them (quiet, counted)
  unresolved   the summary contains something the domain cannot express (quiet, counted)
"""
import os
import random
import re
import signal
import time
from . import terms as T
from . import flow, evalr, front
from .terms import mk, fld


class Ob:
    def __init__(self, name, code, spec, params=None, obs=None, assign=None, models=None, keep=None, views=None, ranges=None, ops=None, opaque=None, opaque_fns=None, optional=False, pred=None, alias=None,
                 setup=None, view=None, inputs=None, trials=1.0, this=None, outspec=None, cat="", about=None):
        self.name, self.code, self.spec, self.params = name, code, spec, params
        self.obs, self.assign, self.models, self.keep = obs, assign, models, keep
        self.views, self.ranges, self.ops, self.opaque = views, ranges, ops, opaque
        self.opaque_fns, self.optional, self.pred, self.alias, self.setup = opaque_fns, optional, pred, alias, setup
        self.trials, self.this, self.outspec, self.cat = trials, this, outspec, cat
        self.about = about
        # view: a function of the reference file that reads the observed state through public accessors
        # inputs: the same for the initial state; its members name the inputs for `assign`
        self.view, self.inputs = view, inputs


class Result:
    def __init__(self, ob, fn, status, detail="", line="", trials=0, effective=0, witness=None, thrown=0):
        self.ob, self.fn, self.status, self.detail, self.line = ob, fn, status, detail, line
        self.trials, self.effective, self.witness, self.thrown = trials, effective, witness, thrown


class Missing(Exception):
    """a reference definition is absent or outside the domain: the analysis is broken"""


class NoFunction(Exception):
    """the repository has no such function"""


class Timeout(Exception):
    pass


VIEWS = {"Vector": ("size_", "data_"), "Vec": ("size_", "data_"), "IVec": ("size_", "data_"), "Matrix": ("nrows_", "ncols_", "data_"), "Mat": ("nrows_", "ncols_", "data_")}
MATRIXY = {"IdentityMatrix", "DiagonalMatrix", "InterpolationMatrixFine2Coarse", "InterpolationMatrixCoarse2Fine"}


def short(cls):
    return cls.split("<")[0].split("::")[-1]


def viewof(ty, extra=None):
    b = flow.base_type(ty or "")
    s = short(b)
    if extra and s in extra:
        return extra[s]
    if s in MATRIXY:
        return VIEWS["Matrix"]
    return VIEWS.get(s)


def loc(f):
    p, l = f["loc"].rsplit(":", 1)
    return os.path.relpath(os.path.normpath(p), front.REPO) + ":" + l


def norm(t):
    return re.sub(r"\s+", "", re.sub(r"\b(const|EllipticForest::|struct|class|unsigned long)\b|&", lambda m: "size" if m.group(0) == "unsigned long" else "", t or ""))


def find(db, ob):
    """the functions an obligation names"""
    r = [f for f in db.byq.get(ob.code, []) if f.get("body") is not None or f.get("kind") == "ctor"]
    r = [f for f in r if not f.get("dfl") and f.get("body") is not None]
    if ob.params is not None:
        want = [p.replace(" ", "") for p in ob.params]
        r = [f for f in r if len(f["params"]) == len(want) and all(re.fullmatch(w, shorttype(p["t"])) for w, p in zip(want, f["params"]))]
    if ob.pred:
        r = [f for f in r if ob.pred(f)]
    return r


def shorttype(t):
    b = flow.base_type(t)
    m = {"unsigned long": "size", "std::basic_string<char, std::char_traits<char>, std::allocator<char>>": "string"}
    if b in m:
        return m[b]
    b = b.replace("EllipticForest::", "").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    b = re.sub(r", std::allocator<.*>>$", ">", b)
    return b.replace(" ", "")


class Obs:
    """observables of one summary, in a fixed order"""

    def __init__(self):
        self.items = []

    def add(self, name, term):
        self.items.append((name, term))


def observe(S, ob, f, code):
    """name -> term"""
    o = []
    kind = f.get("kind")

    def put(name, t, ty):
        v = viewof(ty, ob.views)
        if v:
            for x in v:
                o.append((name + "." + x, fld(t, x)))
        else:
            o.append((name, t))
    obs = ob.obs
    if kind == "ctor":
        put("result", S.final["this"], f["cls"])
        return o
    if obs is None or "ret" in obs:
        if flow.base_type(f["ret"]) != "void":
            put("result", S.value, f["ret"])
    return o


def params_of(f):
    return ([("this", f["cls"])] if f.get("cls") and not f.get("static") and f.get("kind") != "ctor" else []) + [(p["n"], p["t"]) for p in f["params"]]


def eveq(a, b, keep):
    """structural equality of two filtered event lists"""
    a = [e for e in a if relevant(e, keep)]
    b = [e for e in b if relevant(e, keep)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.kind != y.kind or len(x.pc) != len(y.pc) and T.land(*x.pc) is not T.land(*y.pc):
            return False
        if T.alpha(T.land(*x.pc)) is not T.alpha(T.land(*y.pc)):
            return False
        if x.kind == "throw":
            continue
        if x.kind == "loop":
            if T.alpha(x.args[1]) is not T.alpha(y.args[1]):
                return False
            k, k2 = x.args[0], y.args[0]
            ys = [sub_event(e, {k2: k}) for e in y.sub]
            if not eveq(x.sub, ys, keep):
                return False
            continue
        if x.name != y.name or len(x.args) != len(y.args) or any(T.alpha(p) is not T.alpha(q) for p, q in zip(x.args, y.args)):
            return False
    return True


def sub_event(e, env):
    return flow.Ev(e.kind, e.name, [T.subst(a, env) for a in e.args], tuple(T.subst(p, env) for p in e.pc), e.line, e.fn, [sub_event(x, env) for x in e.sub] if e.sub else e.sub, e.info)


def relevant(e, keep):
    if e.kind == "throw":
        return True
    if e.kind == "loop":
        return any(relevant(x, keep) for x in e.sub)
    return e.name != "ef_assume" and keep is not None and keep(e)


def has_assume(evs):
    return any((e.kind == "loop" and has_assume(e.sub)) or e.name == "ef_assume" for e in evs)


class Side:
    pass


def summarise(db, ip, f, args=None, this=None):
    return ip.summarize(f, this=this, args=args)


RANGES = [(0, 3), (-1, 3), (0, 2), (-1, 5), (1, 4), (0, 6), (0, 1), (-2, 4)]


def run(db, ob, tier="quick", seed=1, limit=None):
    """decide one obligation; a list of results (one per matching function)"""
    fns = find(db, ob)
    if not fns:
        if ob.optional:
            return [Result(ob, None, "unresolved", "no such function in this tree")]
        raise NoFunction("%s: no function %s(%s)" % (ob.name, ob.code, ", ".join(ob.params or [])))
    # one result per source definition
    seen, out = set(), []
    for f in fns:
        if loc(f) in seen:
            continue
        seen.add(loc(f))
        r = run1(db, ob, f, tier, seed, limit)
        if ob.about:
            # the function of the repository the driver exercises
            g = [x for x in db.byq.get(ob.about, []) if x.get("body") is not None]
            if g:
                r.fn = g[0]
        out.append(r)
    return out


def run1(db, ob, f, tier, seed, limit=None):
    limit = limit or (100 if tier == "quick" else 300)   # seconds of processor time: other load on the machine does not count

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        return run2(db, ob, f, tier, seed)
    except Timeout:
        return Result(ob, f, "unresolved", "analysis budget of %d s exhausted" % limit)
    except (flow.Unsupported, RecursionError) as e:
        return Result(ob, f, "unresolved", "not expressible: %s" % e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run2(db, ob, f, tier, seed):
    t0 = time.time()
    sp = db.byq.get("efs::" + ob.spec)
    if not sp:
        raise Missing("%s: reference definition efs::%s not parsed" % (ob.name, ob.spec))
    sp = [s for s in sp if s.get("body") is not None]
    if not sp:
        raise Missing("%s: reference definition efs::%s does not compile against this tree" % (ob.name, ob.spec))
    sp = sp[0]
    ip = flow.Interp(db, models=ob.models, opaque_classes=ob.opaque or ())
    ip.opaque_fns |= set(ob.opaque_fns or ())
    if ob.outspec:
        ip.outspec = ob.outspec
    if ob.setup:
        ob.setup(ip)
    args = ob.alias(ip, f) if ob.alias else None
    # the inputs are named as the reference definition names them, whatever the repository calls them
    cp = params_of(f)
    if len(cp) != len(sp["params"]):
        raise Missing("%s: %s has %d inputs, efs::%s has %d" % (ob.name, ob.code, len(cp), ob.spec, len(sp["params"])))
    S = ip.summarize(f, args=args, names=[p["n"] for p in sp["params"]][len(cp) - len(f["params"]):])
    nunk = len(S.unks)
    # the reference definition on the same inputs
    spargs = []
    vals = [S.this] if cp and cp[0][0] == "this" else []
    vals += [S.params[p["n"]] for p in f["params"]]
    for v, p, (n, ty) in zip(vals, sp["params"], cp):
        if flow.is_ref(p["t"]):
            if n == "this" or flow.is_ref(ty):
                spargs.append(("l", v))
            else:
                # a by-value parameter of the code given to a reference parameter of the definition
                r = ip.newroot("p", p["t"])
                ip.rootinit[r] = v
                spargs.append(("l", mk("ptr", r, ())))
        else:
            spargs.append(("r", ip.load(flow.State(), v) if n == "this" or flow.is_ref(ty) else v))
    ip.unks = []
    names = input_names(db, ob, ip, sp, spargs) if ob.inputs else None
    R = ip.summarize(sp, args=spargs)
    if R.unks:
        raise Missing("%s: reference definition efs::%s is not expressible: %s" % (ob.name, ob.spec, R.unks[:2]))
    if ob.view:
        obs = viewed(db, ob, ip, f, S, sp, R, spargs)
    else:
        obs = observables(ob, f, S, sp, R, cp)
    keep = ob.keep
    same = all(T.alpha(a) is T.alpha(b) for n, a, b in obs)
    if same and eveq(S.events, R.events, keep) and nunk == 0 and S.dead == R.dead:
        return Result(ob, f, "discharged", "normal forms agree", trials=0)
    r = refute(ob, f, ip, S, R, obs, tier, seed, names)
    if r.status == "unrefuted" and nunk:
        r.status = "unresolved" if r.effective == 0 else "unrefuted"
    return r


def specfn(db, ob, name):
    r = [s for s in db.byq.get("efs::" + name, []) if s.get("body") is not None]
    if not r:
        raise Missing("%s: reference definition efs::%s not parsed" % (ob.name, name))
    return r[0]


def leaves(db, t, ty, name, ob):
    """(name, term, type) of a view's members"""
    b = flow.base_type(ty)
    if b.startswith("efs::") and short(b) not in VIEWS and b in db.records:
        out = []
        for fd in db.records[b]["fields"]:
            out += leaves(db, fld(t, fd["n"]), fd["t"], name + "." + fd["n"] if name else fd["n"], ob)
        return out
    v = None if ob.setup else viewof(ty, ob.views)
    if v:
        return [(name + "." + x, fld(t, x), "") for x in v]
    return [(name, t, ty)]


def look(db, ob, ip, vf, args, st):
    n = len(ip.unks)
    W = ip.summarize(vf, args=args, st=st)
    if len(ip.unks) > n:
        raise Missing("%s: view efs::%s is not expressible: %s" % (ob.name, vf["q"], ip.unks[n:][:2]))
    return leaves(db, W.value, vf["ret"], "", ob)


def viewed(db, ob, ip, f, S, sp, R, spargs):
    vf = specfn(db, ob, ob.view)
    out = []
    if f.get("kind") != "ctor" and flow.base_type(f["ret"]) != "void" and flow.base_type(sp["ret"]) != "void":
        a = leaves(db, S.value, f["ret"], "result", ob)
        b = leaves(db, R.value, f["ret"], "result", ob)
        out += [(n, x, y) for (n, x, _), (_, y, _) in zip(a, b)]
    n = len(vf["params"])
    ca = list(spargs)
    ra = list(spargs)
    if f.get("kind") == "ctor":
        ca = [("l", S.this)] + ca
        root = ip.newroot("p", f["cls"])
        ip.rootinit[root] = R.value
        ra = [("l", mk("ptr", root, ()))] + ra
    elif n == len(spargs) + 1:
        # the view also takes the result
        rv = ip.newroot("p", f["ret"])
        ip.rootinit[rv] = S.value
        ca = [("l", mk("ptr", rv, ()))] + ca
        rw = ip.newroot("p", f["ret"])
        ip.rootinit[rw] = R.value
        ra = [("l", mk("ptr", rw, ()))] + ra
        out = []
    a = look(db, ob, ip, vf, ca[:n], flow.State.copy(S.state))
    b = look(db, ob, ip, vf, ra[:n], flow.State.copy(R.state))
    return out + [(n, x, y) for (n, x, _), (_, y, _) in zip(a, b)]


def input_names(db, ob, ip, sp, spargs):
    """path of an input -> its name in the reference file"""
    vf = specfn(db, ob, ob.inputs)
    names = {}
    for n, t, ty in look(db, ob, ip, vf, spargs[:len(vf["params"])], flow.State()):
        if t.op == "sym":
            names[t.a[0]] = n
            continue
        try:
            v = evalr.Ctx(1, lambda p: None, ob.ops).ev(t, {})
        except (evalr.Unknown, evalr.Undef, evalr.Discard, evalr.Thrown):
            continue
        if isinstance(v, evalr.Tok):
            names[evalr.path(v.key)] = n
    return names


OPTION = re.compile(r"app\((holds|varval),s\(([^()]*)\),t\(@\(.*,s\(([^()]*)\)\)\)\)$")


HAS = re.compile(r"has\(.*,([^(),]*)\)$")


def renamed(assign, names):
    names = names or {}
    memo = {}

    def a(p):
        q = memo.get(p)
        if q is None:
            q = p
            pre, x, post = ("len(", p[4:-1], ")") if p.startswith("len(") else ("", p, "")
            y = x
            m = OPTION.match(p)
            if m:
                q, y = "%s(%s)" % ("opt" if m.group(1) == "varval" else "opt is " + m.group(2), m.group(3)), ""
            m = HAS.match(p)
            if m:
                q, y = "has(%s)" % m.group(1), ""
            while y:
                if y in names:
                    q = pre + names[y] + x[len(y):] + post
                    break
                k = max(y.rfind("."), y.rfind("["))
                y = y[:k] if k > 0 else ""
            memo[p] = q
        r = assign(q)
        return assign(p) if r is None and q != p else r
    return a


def observables(ob, f, S, sp, R, cp):
    """(name, code term, reference term)"""
    out = []

    def put(name, a, b, ty):
        v = viewof(ty, ob.views)
        if v:
            for x in v:
                out.append((name + "." + x, fld(a, x), fld(b, x)))
        else:
            out.append((name, a, b))
    want = ob.obs
    if f.get("kind") == "ctor":
        put("result", S.final["this"], R.value, f["cls"])
        return out
    if flow.base_type(f["ret"]) != "void" and flow.base_type(sp["ret"]) != "void" and (want is None or "ret" in want):
        put("result", S.value, R.value, f["ret"])
    for (n, ty), p in zip(cp, sp["params"]):
        if n != "this" and not flow.is_ref(ty):
            continue
        if want is not None and n not in want:
            continue
        if n in S.final:
            if p["n"] in R.final:
                put(n, S.final[n], R.final[p["n"]], ty)
            else:
                put(n, S.final[n], S.init.get(n, S.final[n]), ty)
    return out


def default_assign(seed):
    """one third of the interpretations give every container its own size; the others share sizes so that the
    operands of an operation fit"""
    if seed % 3 == 0:
        return lambda p: None
    n = evalr.hnum(seed, "n", 1, 4)
    m = n if seed % 3 == 1 and seed % 2 else evalr.hnum(seed, "m", 1, 4)

    def a(p):
        if p.endswith(".nrows_"):
            return n
        if p.endswith(".ncols_"):
            return m
        if p.startswith("len(") and p.endswith(".data_)"):
            return m if seed % 4 < 2 else n
        return None
    return a


def refute(ob, f, ip, S, R, obs, tier, seed, names=None):
    n = int((60 if tier == "quick" else 600) * ob.trials)
    eff = tried = thrown = 0
    unknown = None
    seen = set()
    t0 = time.process_time()
    # cheap obligations get more interpretations
    for i in range(12 * n):
        t = time.process_time() - t0
        if t > (25 if tier == "quick" else 150) or i >= n and (t > (2.5 if tier == "quick" else 60) or len(seen) < 2):
            break
        sd = seed * 100003 + i
        rg = (ob.ranges or RANGES)[i % len(ob.ranges or RANGES)]
        assign = renamed((ob.assign or default_assign)(sd), names)
        ctx = evalr.Ctx(sd, assign, ob.ops, intrange=rg)
        tried += 1
        try:
            for _ in (0, 1):
                b = outcome(ctx, R, [t for _, _, t in obs], ob.keep, True, ip)
        except (evalr.Discard, evalr.Undef):
            continue
        except evalr.Unknown as e:
            raise Missing("%s: reference definition efs::%s cannot be evaluated: %s" % (ob.name, ob.spec, e))
        ctx.steps = 0
        try:
            for _ in (0, 1):
                a = outcome(ctx, S, [t for _, t, _ in obs], ob.keep, False, ip)
        except evalr.Discard:
            continue
        except evalr.Undef as e:
            a = ("undef", str(e))
        except evalr.Unknown as e:
            unknown = str(e)
            continue
        # both once more with everything the other side touched known
        try:
            b = outcome(ctx, R, [t for _, _, t in obs], ob.keep, True, ip)
        except (evalr.Discard, evalr.Undef):
            continue
        eff += 1
        seen.add(repr((b[0], b[1] if b[0] == "ok" else ""))[:2000])
        if b[0] == "throws":
            thrown += 1
        d = differ(a, b, obs)
        if d:
            return Result(ob, f, "violated", d, trials=tried, effective=eff, witness=witness(ctx), thrown=thrown)
    r = Result(ob, f, "unrefuted", "normal forms differ, no separating interpretation in %d effective of %d tried" % (eff, tried) + ("; " + unknown if unknown else ""), trials=tried, effective=eff, thrown=thrown)
    if eff == 0:
        r.status = "unresolved"
    r.distinct = len(seen)
    return r


def outcome(ctx, S, terms, keep, spec, ip):
    ctx.mem = (ip, S.state.mem)

    def k(e):
        return e.name == "ef_assume" or (keep is not None and keep(e))
    try:
        evs = evalr.trace(ctx, S.events, k)
    except evalr.Thrown as t:
        if spec:
            check_assumes(ctx, S)
        return ("throws", t.ev)
    if spec:
        for e, a, env in evs:
            if e.name == "ef_assume" and not ctx.boolean(force(ctx, a[-1])):
                raise evalr.Discard("precondition")
    try:
        kept = [(e.name, tuple(ctx.freeze(force(ctx, x)) for x in a)) for e, a, env in evs if e.name != "ef_assume"]
        if S.dead:
            return ("aborts", None)
        return ("ok", tuple(ctx.freeze(force(ctx, ctx.lazy(t, {}))) for t in terms), tuple(kept))
    except evalr.Thrown as t:
        # a container operation inside a value rejects its operands
        return ("throws", t.ev)


def check_assumes(ctx, S):
    """the preconditions that come before the throw still have to hold"""
    seen = []

    def k(e):
        return e.name == "ef_assume"
    try:
        evalr.trace(ctx, S.events, k, None, seen)
    except evalr.Thrown:
        pass
    for e, a, env in seen:
        if not ctx.boolean(force(ctx, a[-1])):
            raise evalr.Discard("precondition")


def force(ctx, v):
    return v


def differ(a, b, obs):
    if a[0] != b[0]:
        if a[0] == "undef" and "never ends" in a[1]:
            return "runs forever (%s) where the definition %s" % (a[1], "rejects the input" if b[0] == "throws" else "has a value")
        if a[0] == "undef":
            return "reads or writes outside its data (%s) where the definition %s" % (a[1], "rejects the input" if b[0] == "throws" else "has a value")
        return "%s where the definition %s" % (word(a), word(b))
    if a[0] == "ok":
        for (n, _, _), x, y in zip(obs, a[1], b[1]):
            if x != y:
                return "%s differs: computed %s, definition %s" % (n, brief(x), brief(y))
        if a[2] != b[2]:
            return "calls differ: makes %s, definition %s" % (brief(a[2]), brief(b[2]))
    return None


def word(a):
    return {"throws": "throws (line %s)" % (a[1].line if a[0] == "throws" and a[1] is not None else "?"), "ok": "returns normally", "aborts": "does not return", "undef": "is undefined"}[a[0]]


def brief(x, n=400):
    s = plain(x)
    return s if len(s) < n else s[:n] + "..."


def plain(x):
    if isinstance(x, tuple) and x:
        if x[0] == "n" and len(x) == 2:
            return str(x[1])
        if x[0] == "s" and len(x) == 2:
            return repr(x[1])
        if x[0] == "l":
            return "[" + ", ".join(plain(y) for y in x[1:]) + "]"
        if x[0] == "t" and len(x) == 2:
            return evalr.path(x[1])
        return "(" + ", ".join(plain(y) for y in x) + ")"
    return str(x)


def witness(ctx):
    w = {"interpretation": str(ctx.seed)}
    for k, v in list(ctx.forced.items())[:60]:
        w[evalr.path(k)] = str(v)
    for k, v in list(ctx.lens.items())[:30]:
        w["len(%s)" % evalr.path(k)] = str(v)
    return w
