"""Value-flow abstract interpreter over the exported, type-checked AST.

One pass over each function computes a gated summary: every location's final content, the return value and the
ordered events (calls that leave the analysed code, throws) as closed terms over the function's inputs.  Branches are
joined (no path is enumerated), loops are summarised (induction, reductions, element-wise writes, folds) and calls are
inlined.  Nothing is executed and no solver is involved.  What the domain cannot express becomes an 'unk' term, which
makes the obligation that needs it 'unresolved'."""
import itertools
import re
import sys
from . import terms as T
from .terms import (mk, num, add, sub, mul, div, neg, ite, land, lor, lnot, gt0, ge0, eq0, cint, cval, sym, sel, fld, setf, struct, lst, concat, fill, gen, seqlen, store, string, cat,
                    TRUE, FALSE, ZERO, ONE)

sys.setrecursionlimit(50000)


class Unsupported(Exception):
    pass


class Ev:
    __slots__ = ("kind", "name", "args", "pc", "line", "fn", "sub", "info")

    def __init__(self, kind, name, args, pc, line, fn, sub=None, info=None):
        self.kind, self.name, self.args, self.pc, self.line, self.fn, self.sub, self.info = kind, name, args, pc, line, fn, sub, info

    def __repr__(self):
        return "%s %s(%s)%s @%s:%s%s" % (self.kind, self.name, ", ".join(T.show(a) for a in self.args), " if " + T.show(land(*self.pc)) if self.pc else "", self.fn, self.line, " " + repr(self.sub) if self.sub else "")


# calls that are themselves behaviour: communication, the mesh library, the numerical libraries
OBSERVED = re.compile(r"(MPI_|PMPI_|p4est_|p8est_|sc_|Petsc|petsc|Mat[A-Z]|Vec[A-Z]|KSP|PC[A-Z]|DM[A-Z]|IS[A-Z]|EllipticForest::|efs::|__assert|abort|exit|ef_|hst|[a-z0-9]+_$)")


class State:
    __slots__ = ("mem", "pc", "evs", "dead", "elide")

    def __init__(self):
        self.mem, self.pc, self.evs, self.dead, self.elide = {}, (), (), False, None

    def copy(self):
        s = State()
        s.mem, s.pc, s.evs, s.dead, s.elide = dict(self.mem), self.pc, self.evs, self.dead, self.elide
        return s

    def become(self, o):
        self.mem, self.pc, self.evs, self.dead = o.mem, o.pc, o.evs, o.dead


def is_ref(t):
    return t.rstrip().endswith("&")


def base_type(t):
    t = t.strip()
    while True:
        u = t
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        if t.startswith("const "):
            t = t[6:].strip()
        if t.startswith("volatile "):
            t = t[9:].strip()
        if t.endswith(" const"):
            t = t[:-6].strip()
        if t == u:
            return t


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char", "unsigned char", "long long", "unsigned long long", "wchar_t"}
FLTS = {"double", "float", "long double"}


def float32(x):
    import struct
    from fractions import Fraction
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(x)))[0])
    except (OverflowError, ValueError):
        return x


def is_int(t):
    return base_type(t) in INTS


def is_unsigned(t):
    return base_type(t).startswith("unsigned")


def is_flt(t):
    return base_type(t) in FLTS


def is_ptr(t):
    return base_type(t).endswith("*") or base_type(t).endswith("*const")


def is_str(t):
    b = base_type(t)
    return b.startswith(("std::basic_string<", "std::basic_string_view<")) and not b.endswith("]")


def is_seq(t):
    b = base_type(t)
    return b.startswith("std::vector<") or b.startswith("std::initializer_list<") or b.startswith("std::array<") or re.search(r"\[\d*\]$", b) is not None or b.startswith("std::set<")


def is_map(t):
    return base_type(t).startswith("std::map<") or base_type(t).startswith("std::unordered_map<")


def targs(t):
    """top-level template arguments of a type"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            if d == 0 and ch == ">":
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def elem_type(t):
    b = base_type(t)
    m = re.match(r"(.*)\[\d*\]$", b)
    if m:
        return m.group(1).strip()
    a = targs(b)
    return a[0] if a else "?"


MAP0 = mk("map0")
NULL = mk("nullptr")
UNIT = mk("unit")

NORETURN = {"__assert_fail", "abort", "exit", "std::abort", "std::exit", "std::terminate", "PetscAbortErrorHandler", "std::__throw_out_of_range_fmt", "__builtin_unreachable", "__builtin_trap"}
CLIB = {"strtod", "strtof", "strtol", "strlen", "atoi", "atof", "strcmp"}
PURE = {"abs", "fabs", "fmax", "fmin", "pow", "sqrt", "log2", "log", "exp", "sin", "cos", "tan", "atan", "floor", "ceil", "round", "isdigit", "isspace", "isalpha", "isalnum", "toupper", "tolower", "atan2", "cbrt", "hypot",
        "p4est_quadrant_child_id", "p4est_quadrant_ancestor_id", "MPI_Comm_f2c", "__builtin_expect", "p4est_quadrant_is_equal", "p4est_quadrant_compare", "std::isnan", "std::isfinite", "tanh", "sinh", "cosh", "asin", "acos"}


class Frame:
    def __init__(self, fn, this, env, depth):
        self.fn, self.this, self.env, self.depth = fn, this, env, depth
        self.rets = []
        self.loops = []
        self.id = next(_fid)


_fid = itertools.count()


class Summary:
    pass


class Interp:
    MAXUNROLL = 40
    MAXDEPTH = 60
    MAXREC = 3
    files = False

    def __init__(self, db, models=None, opaque_classes=()):
        self.db = db
        self.models = models or {}
        self.opaque_classes = set(opaque_classes)
        self.dtorcache = {}
        self.place = None
        self.opaque_fns = set()
        self.cnt = itertools.count()
        self.occ = {}
        self.raised = set()
        self.rootinit = {}
        self.roottype = {}
        self.unks = []
        self.callstack = []
        self.wlog = None
        self.loopvars = []
        self.clos = {}
        self.call_lines = []
        self.visited = set()
        self.ptrtype = {}

    # ------------------------------------------------------------ memory
    def unk(self, why, *deps):
        t = mk("unk", why, next(self.cnt))
        self.unks.append((why, self.where()))
        return t

    def taint(self, st, u):
        """an operation whose effects are not known: nothing is claimed about executions that reach it"""
        if isinstance(u, str):
            u = self.unk(u)
        self.event(st, "unk", "unknown", [u], self.callstack[-1][1] if self.callstack else 0)
        return u

    def where(self):
        return "%s:%s" % (self.callstack[-1][0] if self.callstack else "?", self.callstack[-1][1] if self.callstack else "?")

    def newroot(self, kind, t=None, *extra):
        r = (kind, next(self.cnt)) + extra
        if t:
            self.roottype[r] = t
        return r

    def initial(self, root):
        v = self.rootinit.get(root)
        if v is None:
            if root[0] == "h":
                v = mk("deref", root[1])
                pt = self.ptrtype.get(root[1])
                if pt:
                    v = self.typed_view(pt, v)
            elif root[0] == "g":
                v = self.global_init(root[1])
            elif root[0] == "v":
                v = mk("undef", str(root[1]))
            else:
                v = mk("undef", str(root[0]))
            self.rootinit[root] = v
        return v

    def typed_view(self, t, v):
        """hook: representation of an opaque object of class t (class invariants)"""
        return v

    def global_init(self, q):
        g = self.db.globals.get(q)
        if g is not None and g.get("init") is not None and base_type(g["t"]) in INTS | FLTS and g["t"].startswith("const"):
            return self.const_expr(g["init"])
        t = g["t"] if g else ""
        return self.make_sym(t, "::" + q) if g and not (self.is_record(t)) else sym("::" + q, "o")

    def const_expr(self, e):
        st, fr = State(), Frame(None, None, {}, 0)
        return self.ev(e, st, fr)

    def is_record(self, t):
        return base_type(t) in self.db.records

    def load(self, st, p):
        if p.op == "ite":
            return ite(p.a[0], self.load(st, p.a[1]), self.load(st, p.a[2]))
        if p.op == "ptr":
            root, path = p.a
            v = st.mem.get(root)
            if v is None:
                v = self.family(st, root)
            if v is None:
                v = self.initial(root)
            for s in path:
                v = self.step(v, s)
            return v
        return self.load(st, self.deref(p))

    def family(self, st, root):
        if root[0] == "n" and len(root) > 2:
            for r, v in st.mem.items():
                if r[0] == "n" and r[1] == root[1] and len(r) == len(root) and all(isinstance(x, T.T) and x.op == "bv" for x in r[2:]):
                    return T.subst(v, dict(zip(r[2:], root[2:])))
        return None

    def step(self, v, s):
        if s[0] == "f":
            return fld(v, s[1])
        if s[0] == "i":
            if v.op in ("str", "cat", "substr", "tostr", "strset"):
                return sel(v, s[1])
            if v.op == "deref" or v.op == "undef" or True:
                return sel(v, s[1])
        if s[0] == "k":
            return T.mget(v, s[1])
        raise Unsupported("path step")

    def deref(self, p):
        """pointer value -> location"""
        if p.op in ("ptr",):
            return p
        if p.op == "ite":
            return ite(p.a[0], self.deref(p.a[1]), self.deref(p.a[2]))
        if p.op == "padr":
            return mk("ptr", ("h", p.a[0]), (("i", p.a[1]),))
        return mk("ptr", ("h", p), ())

    def extend(self, p, *steps):
        if p.op == "ite":
            return ite(p.a[0], self.extend(p.a[1], *steps), self.extend(p.a[2], *steps))
        if p.op != "ptr":
            p = self.deref(p)
            return self.extend(p, *steps)
        path = p.a[1]
        return mk("ptr", p.a[0], path + steps)

    def store(self, st, p, v):
        if p.op == "ite":
            c = p.a[0]
            self.store(st, p.a[1], ite(c, v, self.load(st, p.a[1])))
            self.store(st, p.a[2], ite(c, self.load(st, p.a[2]), v))
            return
        if p.op != "ptr":
            p = self.deref(p)
            if p.op == "ite":
                return self.store(st, p, v)
        root, path = p.a
        if self.wlog is not None:
            q = []
            for s in path:
                if s[0] != "f":
                    break
                q.append(s)
            self.wlog.add((root, tuple(q)))
        if root not in st.mem:
            base = self.family(st, root)
            if base is None:
                base = self.initial(root)
        else:
            base = st.mem[root]
        st.mem[root] = self.upd(base, path, v)

    def upd(self, base, path, v):
        if not path:
            return v
        s = path[0]
        new = self.upd(self.step(base, s), path[1:], v)
        if s[0] == "f":
            if base.op == "undef":
                return struct("?", {s[1]: new})
            return setf(base, {s[1]: new})
        if s[0] == "i":
            return store(base, s[1], new)
        if s[0] == "k":
            return T.mapst(base, s[1], new)
        raise Unsupported("path")

    # ------------------------------------------------------------ values of a type
    def make_sym(self, t, name):
        b = base_type(t)
        if b == "bool":
            return sym(name, "b")
        if b in INTS or b.startswith("enum ") or b in self.db.enums:
            s = sym(name, "i")
            if is_unsigned(b):
                T.declare_nonneg(s)
            return s
        if b in FLTS:
            return sym(name, "r")
        if is_ptr(b):
            s = sym(name, "p")
            self.ptrtype[s] = base_type(b.rstrip("const").rstrip("*").strip())
            return s
        if is_str(b):
            return sym(name, "str")
        if is_seq(b):
            s = sym(name, "seq")
            return s
        if is_map(b):
            return sym(name, "map")
        if b in self.opaque_classes:
            return sym(name, "o")
        if b in self.db.records:
            return self.record_sym(b, name)
        if "basic_ostream" in b or "basic_ofstream" in b:
            return struct("ostream", {"buf": sym(name + ".buf", "str")})
        return sym(name, "o")

    def all_fields(self, cls):
        out = []
        r = self.db.records.get(cls)
        if not r:
            return out
        for bs in r["bases"]:
            out += self.all_fields(base_type(bs))
        for f in r["fields"]:
            out.append((f, cls))
        return out

    def record_sym(self, cls, name):
        d = {}
        for f, own in self.all_fields(cls):
            if is_ref(f["t"]):
                s = sym(name + "." + f["n"] + ".ref", "p")
                self.ptrtype[s] = base_type(f["t"])
                self.rootinit[("h", s)] = self.make_sym(f["t"], name + "." + f["n"])
                d[f["n"]] = mk("ptr", ("h", s), ())
            else:
                d[f["n"]] = self.make_sym(f["t"], name + "." + f["n"])
        self.invariant(cls, d, name)
        return struct(cls, d)

    def invariant(self, cls, d, name):
        """class invariants of symbolic inputs (hook)"""
        short = cls.split("<")[0].split("::")[-1]
        if short == "Vector" and "data_" in d and "size_" in d:
            d["size_"] = seqlen(d["data_"])
        if short == "Matrix" and "data_" in d and "nrows_" in d:
            for k in ("nrows_", "ncols_"):
                T.declare_nonneg(d[k])
            T.set_len(d["data_"], mul(d["nrows_"], d["ncols_"]))

    def default_value(self, t, st, fr):
        b = base_type(t)
        if is_str(b):
            return string("")
        m = re.match(r"(.*)\[(\d+)\]$", b)
        if m:
            et = m.group(1).strip()
            if et in INTS | FLTS | {"bool", "char"} or is_ptr(et):
                return mk("undefseq", next(self.cnt), num(int(m.group(2))))
            return lst(*[self.default_value(et, st, fr) for _ in range(int(m.group(2)))])
        if b.startswith("std::array<"):
            a = targs(b)
            n = int(re.sub(r"\D", "", a[1]))
            return lst(*[self.default_value(a[0], st, fr) for _ in range(n)])
        if is_seq(b):
            return lst()
        if is_map(b):
            return MAP0
        if b.startswith("std::function<"):
            return NULL
        if b.startswith("std::pair<"):
            a = targs(b)
            return struct("std::pair", {"first": self.zero_value(a[0], st, fr), "second": self.zero_value(a[1], st, fr)})
        if b.startswith("std::variant<"):
            a = targs(b)
            return mk("var", base_type(a[0]), self.zero_value(a[0], st, fr))
        if b in self.db.records:
            r = self.db.records[b]
            ctor = None
            for m in r["methods"]:
                if m["kind"] == "dc":
                    ctor = self.db.fn(m["key"])
            for m in r["methods"]:
                if ctor is None and m["kind"] == "ctor" and m["key"] in self.db.functions and not m["params"]:
                    ctor = self.db.fn(m["key"])
            if ctor is not None and ctor.get("body") is not None:
                return self.construct(b, ctor, [], st, fr)
            d = {}
            for f, own in self.all_fields(b):
                if f.get("init") is not None:
                    d[f["n"]] = self.ev(f["init"], st, fr)
                else:
                    d[f["n"]] = self.default_value(f["t"], st, fr)
            return struct(b, d)
        if "basic_ostringstream" in b or "basic_stringstream" in b or "basic_ofstream" in b:
            return struct("ostream", {"buf": string("")})
        return mk("undef", "u%d" % next(self.cnt))

    def zero_value(self, t, st, fr):
        b = base_type(t)
        if b in INTS | FLTS:
            return ZERO
        if b == "bool":
            return FALSE
        if is_ptr(b):
            return NULL
        return self.default_value(t, st, fr)

    # ------------------------------------------------------------ joins
    def merge(self, states):
        states = [s for s in states if not s.dead]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ca, cb = land(*a.pc[n:]), land(*b.pc[n:])
        out = State()
        both = lor(ca, cb)
        out.pc = a.pc[:n] + (() if both is TRUE else (both,))
        m = 0
        while m < len(a.evs) and m < len(b.evs) and a.evs[m] is b.evs[m]:
            m += 1
        out.evs = a.evs + b.evs[m:]
        mem = dict(a.mem)
        for r, v in b.mem.items():
            if r in mem:
                if mem[r] is not v:
                    mem[r] = ite(ca, mem[r], v)
            else:
                i = self.initial(r)
                mem[r] = v if r[0] in ("v", "o", "n") else ite(ca, i, v)
        for r, v in a.mem.items():
            if r not in b.mem and r[0] not in ("v", "o", "n"):
                mem[r] = ite(ca, v, self.initial(r))
        out.mem = mem
        return out

    def known(self, st, c):
        c = T.tobool(c)
        if c.op == "bool":
            return c
        if not st.pc:
            return c
        facts = set()
        for p in st.pc:
            for x in (p.a if p.op == "and" else (p,)):
                facts.add(x)
        if c in facts:
            return TRUE
        nc = lnot(c)
        if nc in facts:
            return FALSE
        if nc.op == "and" and all(x in facts for x in nc.a):
            return FALSE
        if c.op == "and":
            if all(x in facts for x in c.a):
                return TRUE
            rest = [x for x in c.a if x not in facts]
            if any(lnot(x) in facts for x in rest):
                return FALSE
            return land(*rest)
        if c.op == "or":
            if any(x in facts for x in c.a):
                return TRUE
            rest = [x for x in c.a if lnot(x) not in facts]
            return lor(*rest)
        # a comparison implied by one fact: gt(p) with p - q >= 0 for a known gt(q)
        if c.op == "gt":
            for f in facts:
                if f.op == "gt":
                    if T.nonneg(sub(c.a[0], f.a[0])):
                        return TRUE
                    if T.nonneg(sub(nc.a[0], f.a[0])) if nc.op == "gt" else False:
                        return FALSE
        return c

    # ------------------------------------------------------------ events
    def event(self, st, kind, name, args, line, info=None, sub=None):
        e = Ev(kind, name, tuple(args), st.pc, line, self.callstack[-1][0] if self.callstack else "?", sub, info)
        st.evs = st.evs + (e,)
        return e

    def outterm(self, name, i, t, st=None):
        key = (name, i)
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        r = mk("out", name, i, n, *self.loopvars)
        b = base_type(t or "")
        if b in INTS:
            T.declare_int(r)
        if is_ptr(b):
            self.ptrtype[r] = base_type(b.rstrip("*").strip())
        return r

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None or st.dead:
            return
        k = s["s"]
        if self.callstack:
            self.callstack[-1][1] = s["l"]
        if k == "comp":
            held = []
            for c in s["c"]:
                if st.dead:
                    break
                self.exec(c, st, fr)
                if c["s"] == "decl":
                    for v in c["vars"]:
                        if not v.get("static") and not is_ref(v["t"]) and self.dtors(base_type(v["t"])) and not is_ptr(v["t"]):
                            held.append((v, len(fr.rets), [(L[x], len(L[x])) for L in fr.loops for x in ("brk", "cont") if x in L]))
            for v, nr, marks in reversed(held):
                # leaving the block destroys the variable, however the block is left
                p = fr.env[v["id"]]
                cls = base_type(v["t"])
                if not st.dead:
                    self.destroy(st, cls, p, fr, s["l"])
                for x, _ in fr.rets[nr:]:
                    if x.elide != v["id"]:
                        self.destroy(x, cls, p, fr, s["l"])
                for lst_, n in marks:
                    for x in lst_[n:]:
                        self.destroy(x, cls, p, fr, s["l"])
        elif k == "expr":
            self.ex(s["e"], st, fr)
        elif k == "decl":
            for v in s["vars"]:
                self.declare(v, st, fr)
        elif k == "if":
            if s["init"]:
                self.exec(s["init"], st, fr)
            if s["cv"]:
                self.declare(s["cv"], st, fr)
            c = self.known(st, self.ev(s["cnd"], st, fr))
            if st.dead:
                return
            if c is TRUE:
                return self.exec(s["then"], st, fr)
            if c is FALSE:
                return self.exec(s["else"], st, fr)
            a, b = st.copy(), st.copy()
            a.pc += (c,)
            b.pc += (lnot(c),)
            self.exec(s["then"], a, fr)
            self.exec(s["else"], b, fr)
            m = self.merge([a, b])
            if m is None:
                # keep the events of both dead branches
                st.evs = self.join_events(a, b)
                st.dead = True
            else:
                if a.dead or b.dead:
                    m.evs = self.join_events(a, b)
                st.become(m)
        elif k == "ret":
            if s["e"] is None:
                v = UNIT
            elif fr.retref:
                v = self.lv(s["e"], st, fr)
            else:
                v = self.ev_as(s["e"], fr.rettype, st, fr)
            if st.dead:
                return
            x = st.copy()
            e = s["e"]
            if e is not None and e["k"] == "ctor" and len(e["args"]) == 1 and e["args"][0]["k"] == "ref" and not fr.retref:
                # the returned variable is the result object
                x.elide = e["args"][0].get("id")
            fr.rets.append((x, v))
            st.dead = True
        elif k in ("for", "while", "do", "rfor"):
            self.loop(s, st, fr)
        elif k == "break":
            if not fr.loops:
                raise Unsupported("break")
            fr.loops[-1]["brk"].append(st.copy())
            st.dead = True
        elif k == "cont":
            for L in reversed(fr.loops):
                if "cont" in L:
                    L["cont"].append(st.copy())
                    break
            st.dead = True
        elif k == "switch":
            self.switch(s, st, fr)
        elif k in ("null",):
            pass
        elif k == "case" or k == "dflt":
            self.exec(s["c"], st, fr)
        elif k == "try":
            self.exec(s["body"], st, fr)
        else:
            self.taint(st, "statement " + str(s.get("d", k)))

    def dtors(self, cls):
        """does destroying an object of this class run code of the repository?"""
        c = self.dtorcache.get(cls)
        if c is None:
            self.dtorcache[cls] = False
            r = self.db.records.get(cls)
            c = False
            if r is not None and cls not in self.opaque_classes:
                d = self.dtor(cls)
                c = d is not None or (cls + "::(dtor)") in self.models or any(self.dtors(base_type(b)) for b in r["bases"]) or \
                    any(not is_ref(f["t"]) and not is_ptr(f["t"]) and self.dtors(base_type(f["t"])) for f in r["fields"])
            self.dtorcache[cls] = c
        return c

    def dtor(self, cls):
        for f in self.db.byq.get(cls + "::(dtor)", []):
            b = f.get("body")
            if b is not None and not f.get("dfl") and not (b["s"] == "comp" and not b["c"]):
                return f
        return None

    def destroy(self, st, cls, p, fr, line):
        if st.dead or not self.dtors(cls):
            return
        h = self.models.get(cls + "::(dtor)")
        if h is not None:
            h(self, st, fr, {"l": line, "q": cls + "::(dtor)"}, [], p)
            return
        d = self.dtor(cls)
        if d is not None:
            self.invoke(d, [], p, st, fr, line)
        r = self.db.records.get(cls)
        for f in reversed(r["fields"]):
            if not is_ref(f["t"]) and not is_ptr(f["t"]) and not st.dead:
                self.destroy(st, base_type(f["t"]), self.extend(p, ("f", f["n"])), fr, line)
        for b in reversed(r["bases"]):
            self.destroy(st, base_type(b), p, fr, line)

    def join_events(self, a, b):
        m = 0
        while m < len(a.evs) and m < len(b.evs) and a.evs[m] is b.evs[m]:
            m += 1
        return a.evs + b.evs[m:]

    def switch(self, s, st, fr):
        v = self.ev(s["cnd"], st, fr)
        body = s["body"]["c"] if s["body"]["s"] == "comp" else [s["body"]]
        # flatten labels
        flat = []
        for c in body:
            labels = []
            while c is not None and c["s"] in ("case", "dflt"):
                labels.append(c["v"] if c["s"] == "case" else None)
                c = c["c"]
            flat.append((labels, c))
        vals = [cv for ls, _ in flat for cv in ls if cv is not None]
        conds = []
        allc = [eq0(sub(v, self.ev(x, st, fr))) for x in vals]
        L = {"brk": []}
        fr.loops.append(L)
        cur = None
        rest = st.copy()
        hasdef = any(None in ls for ls, _ in flat)
        for labels, c in flat:
            if labels:
                cs = []
                for x in labels:
                    cs.append(lnot(lor(*allc)) if x is None else eq0(sub(v, self.ev(x, st, fr))))
                g = self.known(st, lor(*cs))
                if g is not FALSE:
                    e = st.copy()
                    if g is not TRUE:
                        e.pc += (g,)
                    cur = e if cur is None or cur.dead else self.merge([cur, e])
            if cur is not None and not cur.dead:
                self.exec(c, cur, fr)
        fr.loops.pop()
        outs = list(L["brk"])
        if cur is not None and not cur.dead:
            outs.append(cur)
        if not hasdef:
            g = self.known(st, lnot(lor(*allc)))
            if g is not FALSE:
                e = st.copy()
                e.pc += (g,) if g is not TRUE else ()
                outs.append(e)
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def fixed(self, v, fr):
        """is this static a constant whose initialiser depends on nothing a call brings along?"""
        t = v["t"]
        if not (t.startswith("const ") and not is_ptr(t) or t.rstrip().endswith("const") or "*const" in t and "[" in t):
            return False

        def local(n):
            if isinstance(n, list):
                return any(local(x) for x in n)
            if not isinstance(n, dict):
                return False
            if n.get("k") == "this" or n.get("k") == "lambda":
                return True
            if n.get("k") == "ref" and n.get("dk") not in ("func", "global") and "cv" not in n:
                p = fr.env.get(n.get("id"))
                return p is None or p.op != "ptr" or p.a[0][0] != "g"
            return any(local(x) for x in n.values())
        return not local(v["init"])

    def declare(self, v, st, fr):
        t = v["t"]
        root = ("v", v["id"], fr.id) if not v.get("static") else ("g", "static:%s:%d" % (v["n"], v["id"]))
        if v.get("static") and v["init"] is not None and self.fixed(v, fr):
            # a constant: the same at every call
            if root not in st.mem and root not in self.rootinit:
                self.roottype[root] = t
                x = st.copy()
                self.rootinit[root] = self.ev_as(v["init"], t, x, fr)
            fr.env[v["id"]] = mk("ptr", root, ())
            return
        if v.get("static"):
            if root not in self.rootinit:
                self.rootinit[root] = self.make_sym(t, "static " + v["n"])
                self.roottype[root] = t
            fr.env[v["id"]] = mk("ptr", root, ())
            return
        if is_ref(t):
            fr.env[v["id"]] = self.lv(v["init"], st, fr) if v["init"] else self.unk("reference without initialiser")
            return
        self.roottype[root] = t
        fr.env[v["id"]] = mk("ptr", root, ())
        if v["init"] is None:
            val = self.default_value(t, st, fr)
        else:
            if v["init"]["k"] == "ctor":
                self.place = root
            val = self.ev_as(v["init"], t, st, fr)
            self.place = None
        if self.wlog is not None:
            self.wlog.add((root, ()))
        st.mem[root] = val
        for b in v.get("binds") or []:
            if b:
                self.declare(b, st, fr)

    # ------------------------------------------------------------ loops
    def loop(self, s, st, fr):
        k = s["s"]
        if k == "for":
            self.exec(s["init"], st, fr)
            if st.dead:
                return
            cond, inc, body, first = s["cnd"], s["inc"], s["body"], None
        elif k in ("while", "do"):
            cond, inc, body, first = s["cnd"], None, s["body"], None
            if s.get("cv"):
                self.taint(st, "condition variable")
        else:
            return self.range_for(s, st, fr)

        def docond(x):
            return self.known(x, self.ev(cond, x, fr)) if cond is not None else TRUE

        def dobody(x):
            self.exec(body, x, fr)

        def doinc(x):
            if inc is not None:
                self.ex(inc, x, fr)
        if k == "do":
            # one unconditional pass, then a while loop
            L = {"brk": [], "cont": []}
            fr.loops.append(L)
            x = st.copy()
            dobody(x)
            fr.loops.pop()
            m = self.merge([x] + L["cont"])
            if m is None:
                m2 = self.merge(L["brk"])
                if m2 is None:
                    st.evs = x.evs
                    st.dead = True
                    return
                st.become(m2)
                return
            self.gloop(m, fr, docond, dobody, doinc, s["l"])
            m = self.merge([m] + L["brk"])
            st.become(m)
            return
        self.gloop(st, fr, docond, dobody, doinc, s["l"])

    def range_for(self, s, st, fr):
        rng = s["rng"]
        kind, p = self.ex(rng, st, fr)
        var = s["var"]
        t = rng["t"]
        if kind == "r":
            root = self.newroot("o", t)
            st.mem[root] = p
            p = mk("ptr", root, ())
        seq = self.load(st, p)
        if is_map(t):
            n = mk("maplen", seq)
            T.declare_int(n)
            T.declare_nonneg(n)
        elif is_str(t):
            n = T.strlen(seq)
        else:
            n = seqlen(seq)
        ir = self.newroot("v", "int")
        st.mem[ir] = ZERO
        ip = mk("ptr", ir, ())

        def docond(x):
            return self.known(x, gt0(sub(n, self.load(x, ip))))

        def dobody(x):
            i = self.load(x, ip)
            if is_map(t):
                root = self.newroot("o")
                x.mem[root] = struct("std::pair", {"first": mk("mapkey", self.load(x, p), i), "second": T.mget(self.load(x, p), mk("mapkey", self.load(x, p), i))})
                el = mk("ptr", root, ())
            else:
                el = self.extend(p, ("i", i))
            if is_ref(var["t"]):
                fr.env[var["id"]] = el
            else:
                root = ("v", var["id"], fr.id)
                x.mem[root] = self.load(x, el)
                if self.wlog is not None:
                    self.wlog.add((root, ()))
                self.roottype[root] = var["t"]
                fr.env[var["id"]] = mk("ptr", root, ())
            for b in var.get("binds") or []:
                if b:
                    self.declare(b, x, fr)
            self.exec(s["body"], x, fr)

        def doinc(x):
            self.store(x, ip, add(self.load(x, ip), ONE))
        self.gloop(st, fr, docond, dobody, doinc, s["l"])

    def gloop(self, st, fr, docond, dobody, doinc, line):
        nrets = len(fr.rets)
        env0 = dict(fr.env)
        # constant trip count: unroll
        x = st.copy()
        exits = []
        ok = False
        occ0 = dict(self.occ)
        nunk = len(self.unks)
        # peek: a symbolic first condition means no unrolling at all
        for it in range(self.MAXUNROLL + 1):
            c = docond(x)
            if x.dead or c is FALSE:
                ok = True
                break
            if c is not TRUE or it == self.MAXUNROLL:
                break
            L = {"brk": [], "cont": []}
            fr.loops.append(L)
            dobody(x)
            fr.loops.pop()
            exits += L["brk"]
            m = self.merge([x] + L["cont"])
            if m is None:
                ok = True
                dead_evs = x.evs
                x = State()
                x.dead = True
                x.evs = dead_evs
                break
            if x.dead:
                m.evs = m.evs + tuple(e for e in x.evs if e not in m.evs)
            x = m
            doinc(x)
        if ok:
            m = self.merge([x] + exits)
            if m is None:
                st.evs = x.evs
                st.dead = True
            else:
                st.become(m)
            return
        del fr.rets[nrets:]
        del self.unks[nunk:]
        self.occ = occ0
        fr.env.clear()
        fr.env.update(env0)
        self.symloop(st, fr, docond, dobody, doinc, line)

    def loc_load(self, st, loc):
        return self.load(st, mk("ptr", loc[0], loc[1]))

    def havoc(self, st, W, tag):
        X = {}
        for loc in W:
            lv = mk("lv", "%s%d" % (tag, next(self.cnt)))
            X[loc] = lv
        for loc, lv in X.items():
            x0 = self.loc_load(st, loc)
            t = self.loc_type(loc)
            if t and (is_int(t) or is_ptr(t)) and is_int(t):
                T.declare_int(lv)
                if is_unsigned(t):
                    T.declare_nonneg(lv)
            if t and base_type(t) == "bool":
                T.declare_bool(lv)
            self.raw_store(st, loc, lv)
        return X

    def raw_store(self, st, loc, v):
        w, self.wlog = self.wlog, None
        self.store(st, mk("ptr", loc[0], loc[1]), v)
        self.wlog = w

    def loc_type(self, loc):
        t = self.roottype.get(loc[0])
        for s in loc[1]:
            if t is None:
                return None
            for f, own in self.all_fields(base_type(t)):
                if f["n"] == s[1]:
                    t = f["t"]
                    break
            else:
                return None
        return t

    def symloop(self, st, fr, docond, dobody, doinc, line):
        B = ("b", next(self.cnt))
        R = ("b", next(self.cnt))
        RV = ("b", next(self.cnt))
        self.roottype[B] = self.roottype[R] = "bool"
        st = st
        st.mem[B] = FALSE
        st.mem[R] = FALSE
        st.mem[RV] = mk("undef", "ret")
        kap = T.fresh_bv()

        def iterate(x):
            """one iteration from x; returns (cond, state after)"""
            c = T.tobool(docond(x))
            x.pc += (c,) if c is not TRUE else ()
            x.pc += (lnot(T.tobool(x.mem[B])),) if x.mem[B] is not FALSE else ()
            x.pc += (lnot(T.tobool(x.mem[R])),) if x.mem[R] is not FALSE else ()
            pc_in = x.pc
            mark = len(fr.rets)
            L = {"brk": [], "cont": []}
            fr.loops.append(L)
            dobody(x)
            fr.loops.pop()
            xe = x.evs
            m = self.merge([x] + L["cont"])
            outs = []
            if m is not None:
                doinc(m)
                outs.append(m)
            for b in L["brk"]:
                b.mem[B] = TRUE
                if self.wlog is not None:
                    self.wlog.add((B, ()))
                outs.append(b)
            for b, v in fr.rets[mark:]:
                b = b.copy()
                b.mem[R] = TRUE
                b.mem[RV] = v
                if self.wlog is not None:
                    self.wlog.add((R, ()))
                    self.wlog.add((RV, ()))
                outs.append(b)
            del fr.rets[mark:]
            f = self.merge(outs)
            if f is None:
                f = x
            else:
                seen = set(map(id, f.evs))
                f.evs = f.evs + tuple(e for e in xe if id(e) not in seen)
            return c, f, pc_in

        # ---- which locations does the body change?
        W = set()
        env0 = dict(fr.env)
        nunk = len(self.unks)
        occ0 = dict(self.occ)
        outer = self.wlog
        for _ in range(5):
            x = st.copy()
            self.wlog = set()
            self.havoc(x, W, "d")
            self.loopvars.append(kap)
            iterate(x)
            self.loopvars.pop()
            new = self.wlog
            self.wlog = outer
            fr.env.clear()
            fr.env.update(env0)
            self.occ = dict(occ0)
            cand = set()
            for (root, path) in new:
                if root in st.mem or root[0] in ("h", "g", "p"):
                    if any(isinstance(q, T.T) and (kap in T.free(q) or any(z.op == "lv" for z in T.free(q))) for q in root):
                        continue
                    cand.add((root, path))
            if cand <= W:
                break
            W |= cand
            # drop locations that another one contains
            W = {w for w in W if not any(o is not w and o[0] == w[0] and len(o[1]) < len(w[1]) and w[1][:len(o[1])] == o[1] for o in W)}
        del self.unks[nunk:]
        if outer is not None:
            outer |= W
        W = sorted(W, key=repr)
        # ---- the real pass
        x = st.copy()
        x0 = {loc: self.loc_load(st, loc) for loc in W}
        self.wlog, save = None, self.wlog
        X = self.havoc(x, W, "x")
        nev = len(x.evs)
        self.loopvars.append(kap)
        c, f, pc_in = iterate(x)
        self.loopvars.pop()
        self.wlog = save
        fr.env.clear()
        fr.env.update(env0)
        F = {loc: self.loc_load(f, loc) for loc in W}
        inv = {v: k for k, v in X.items()}
        allx = frozenset(X.values())
        sol = {}       # lv -> term of kap

        def at(t, k):
            return T.subst(t, {kap: k}) if k is not kap else t
        todo = list(W)
        todo.sort(key=lambda l: T.tsize(F[l]))
        progress = True
        while progress and todo:
            progress = False
            for loc in list(todo):
                lv = X[loc]
                fx = T.subst(F[loc], sol)
                deps = (T.free(fx) & allx) - {lv}
                if deps:
                    continue
                v = self.solve(lv, fx, x0[loc], kap)
                if v is not None:
                    sol[lv] = v
                    todo.remove(loc)
                    progress = True
        if todo:
            A = mk("lv", "A%d" % next(self.cnt))
            j = T.fresh_bv()
            body = {X[l]: sel(A, num(i)) for i, l in enumerate(todo)}
            for i, l in enumerate(todo):
                if T.is_int_atom(X[l]):
                    T.declare_int(body[X[l]])
                t = self.loc_type(l)
                if t and base_type(t) == "bool":
                    T.declare_bool(body[X[l]])
            if len(todo) == 1:
                lv = X[todo[0]]
                fx = T.subst(F[todo[0]], sol)
                fx = T.subst(fx, {kap: j})
                sol[lv] = T._fold(j, kap, lv, x0[todo[0]], fx)
            else:
                fs = [T.subst(T.subst(F[l], {k: v for k, v in sol.items()}), body) for l in todo]
                fs = [T.subst(y, {kap: j}) for y in fs]
                acc = T._fold(j, kap, A, lst(*[x0[l] for l in todo]), lst(*fs))
                for i, l in enumerate(todo):
                    sol[X[l]] = sel(acc, num(i))
                    if T.is_int_atom(X[l]) and sol[X[l]].op == "sel":
                        T.declare_int(sol[X[l]])
                    t = self.loc_type(l)
                    if t and base_type(t) == "bool" and sol[X[l]].op == "sel":
                        T.declare_bool(sol[X[l]])
        cc = T.subst(c, sol)
        for root in (B, R):
            if (root, ()) in x0:
                cc = land(cc, lnot(T.tobool(sol[X[(root, ())]])))
        n = self.trip(kap, cc)
        # values after the loop
        for loc in W:
            self.raw_store(st, loc, at(sol[X[loc]], n))
        # heap families and per-iteration objects
        for r, v in f.mem.items():
            if r in st.mem or r[0] in ("v", "o", "b"):
                continue
            if any(loc[0] == r for loc in W):
                continue
            nr = tuple(T.subst(q, sol) if isinstance(q, T.T) else q for q in r)
            st.mem[nr] = T.subst(v, sol)
        # events
        new = f.evs[nev:]
        if new:
            ne = []
            for e in new:
                pc = e.pc[len(pc_in):] if e.pc[:len(pc_in)] == pc_in else tuple(q for q in e.pc if q not in pc_in)
                ne.append(self.subst_event(e, pc, sol))
            st.evs = st.evs + (Ev("loop", "loop", (kap, n), st.pc, line, self.callstack[-1][0] if self.callstack else "?", tuple(ne)),)
        for b in (B, RV):
            pass
        if (R, ()) in x0:
            rf = T.tobool(st.mem[R])
            rv = st.mem[RV]
            a = st.copy()
            for b in (B, R, RV):
                a.mem.pop(b, None)
            rf = self.known(st, rf)
            if rf is not FALSE:
                a.pc += (rf,)
                fr.rets.append((a, rv))
                st.pc += (lnot(rf),)
                if rf is TRUE:
                    st.dead = True
        for b in (B, R, RV):
            st.mem.pop(b, None)

    def subst_event(self, e, pc, env):
        sub_ = tuple(self.subst_event(q, q.pc, env) for q in e.sub) if e.sub else None
        return Ev(e.kind, e.name, tuple(T.subst(a, env) for a in e.args), tuple(T.subst(p, env) for p in pc), e.line, e.fn, sub_, e.info)

    def trip(self, kap, c):
        cs = c.a if c.op == "and" else (c,)
        ns = []
        for q in cs:
            n = None
            if q.op in ("gt", "gtr") and not any(kap in T.free(y) and y is not kap for m, _ in T.pd(q.a[0]).items() for y, _e in m):
                d = T.pd(q.a[0])
                a = {m: co for m, co in d.items() if all(y is not kap for y, _ in m)}
                b = {m: co for m, co in d.items() if any(y is kap for y, _ in m)}
                if set(b) == {((kap, 1),)}:
                    co = b[((kap, 1),)]
                    A = T._poly(a)
                    if co < 0:
                        if co == -1 and T.is_integer_poly(A):
                            n = T.max0(A)
                        elif T.is_integer_poly(A) and co.denominator == 1:
                            n = T.max0(T.idiv(add(A, num(-co - 1)), num(-co)))
            elif q.op == "not" and q.a[0].op == "eq0":
                d = T.pd(q.a[0].a[0])
                b = {m: co for m, co in d.items() if any(y is kap for y, _ in m)}
                a = T._poly({m: co for m, co in d.items() if m not in b})
                if set(b) == {((kap, 1),)} and kap not in T.free(a):
                    n = T.scale(a, -1 / b[((kap, 1),)])
            if n is None:
                return mk("trip", kap, c)
            ns.append(n)
        if not ns:
            return mk("trip", kap, c)
        n = ns[0]
        for m in ns[1:]:
            n = T.app("min", n, m)
        return n

    def solve(self, X, F, x0, kap):
        """closed form at the start of iteration kap of x(0)=x0, x(k+1)=F(k, x(k)); None when not found"""
        if F is X:
            return x0
        if X not in T.free(F):
            j = sub(kap, ONE)
            prev = T.subst(F, {kap: j})
            if prev is x0:
                return x0
            return ite(gt0(kap), prev, x0)
        # guarded updates: ite(c, G(X), X)
        r = self.seqrec(X, F, x0, kap)
        if r is not None:
            return r
        if F.op in ("poly", "ite") or T.isnum(F):
            d = self.lindelta(X, F)
            if d is not None and X not in T.free(d):
                if kap not in T.free(d):
                    return add(x0, mul(kap, d))
                j = T.fresh_bv()
                return add(x0, T.tsum(j, kap, T.subst(d, {kap: j})))
        return None

    def lindelta(self, X, F):
        if F is X:
            return ZERO
        if F.op == "ite":
            if X in T.free(F.a[0]):
                return None
            a, b = self.lindelta(X, F.a[1]), self.lindelta(X, F.a[2])
            return None if a is None or b is None else ite(F.a[0], a, b)
        if F.op == "poly":
            d = sub(F, X)
            return d if X not in T.free(d) else None
        return None

    def seqrec(self, X, F, x0, kap):
        # push_back chains
        app_ = self.appended(X, F)
        if app_ is not None:
            kind, body = app_
            if X in T.free(body):
                return None
            j = T.fresh_bv()
            b = T.subst(body, {kap: j})
            if kind == "seq":
                return concat(x0, T.flat(j, kap, b))
            return cat(x0, T.scat(j, kap, b))
        ops = self.writes(X, F, TRUE)
        if ops is not None and not any(X in T.free(o) for o in ops):
            j = T.fresh_bv()
            ops = [T.subst(o, {kap: j}) for o in ops]
            return T.mstore(x0, T.l_op(j, kap, TRUE, *ops))
        return None

    def appended(self, X, F):
        if F.op == "concat" and F.a[0] is X:
            return "seq", concat(*F.a[1:])
        if F.op == "cat" and F.a[0] is X:
            return "str", cat(*F.a[1:])
        if F.op == "ite" and X not in T.free(F.a[0]):
            parts = []
            kind = None
            for q in F.a[1:]:
                if q is X:
                    parts.append(None)
                else:
                    r = self.appended(X, q)
                    if r is None or (kind and r[0] != kind):
                        return None
                    kind = r[0]
                    parts.append(r[1])
            z = lst() if kind == "seq" else string("")
            parts = [z if p is None else p for p in parts]
            return kind, ite(F.a[0], parts[0], parts[1])
        return None

    def writes(self, X, F, g):
        """F as a write program on X"""
        if F is X:
            return []
        if F.op == "store":
            r = self.writes(X, F.a[0], g)
            return None if r is None else r + [T.w_op(g, F.a[1], F.a[2])]
        if F.op == "mstore":
            r = self.writes(X, F.a[0], g)
            if r is None:
                return None
            o = F.a[1]
            if g is not TRUE:
                o = mk("l", o.a[0], o.a[1], land(g, o.a[2]), *o.a[3:])
            return r + [o]
        if F.op == "ite" and X not in T.free(F.a[0]):
            a = self.writes(X, F.a[1], land(g, F.a[0]))
            b = self.writes(X, F.a[2], land(g, lnot(F.a[0])))
            return None if a is None or b is None else a + b
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        k, v = self.ex(e, st, fr)
        if k == "l":
            r = self.load(st, v)
            # a variable's type says nothing about a term copied into it
            self.note_type(r, e.get("t", ""), v.op == "ptr" and v.a[1] == () and r.op != "lv" and self.rootinit.get(v.a[0]) is not r)
            return r
        return v

    def note_type(self, r, t, copied=False):
        if r.op in ("sel", "fld", "deref", "mget", "app", "out", "lv", "call", "undef"):
            b = base_type(t)
            if b in INTS or b in self.db.enums:
                T.declare_int(r)
                if is_unsigned(b) and not copied:
                    T.declare_nonneg(r)
            elif b == "bool":
                T.declare_bool(r)
            elif is_ptr(b):
                self.ptrtype.setdefault(r, base_type(b.rstrip("*").strip()))

    def ev_as(self, e, t, st, fr):
        """rvalue converted to type t (used for initialisers)"""
        v = self.ev(e, st, fr)
        return self.coerce(v, e.get("t", ""), t)

    def coerce(self, v, frm, to):
        b = base_type(to)
        f = base_type(frm)
        if b in INTS and f in FLTS:
            return T.trunc(v)
        if b in INTS | FLTS and f == "bool":
            return ite(T.tobool(v), ONE, ZERO)
        if b == "float" and f in FLTS and f != "float" and v.op not in ("undef", "unk"):
            c = cval(v)
            return v if c is not None and float32(c) == c else mk("app", "tofloat", v)
        if b == "bool" and f != "bool" and v.op not in ("undef", "unk"):
            return T.tobool(v)
        return v

    def lv(self, e, st, fr):
        k, v = self.ex(e, st, fr)
        if k == "l":
            return v
        root = self.newroot("o", e.get("t"))
        st.mem[root] = v
        return mk("ptr", root, ())

    def ex(self, e, st, fr):
        if e is None:
            return "r", UNIT
        if st.dead:
            return "r", mk("undef", "dead")
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            for c in e.get("c") or []:
                if isinstance(c, dict):
                    self.ex(c, st, fr)
            return "r", self.unk("expression " + str(e.get("d", k)))
        if self.callstack and e.get("l"):
            self.callstack[-1][1] = e["l"]
        if k in ("call", "mcall", "opcall", "ctor"):
            n = len(self.unks)
            r = m(e, st, fr)
            if len(self.unks) > n and isinstance(r[1], T.T) and r[1].op == "unk":
                self.taint(st, r[1])
            return r
        return m(e, st, fr)

    def x_int(self, e, st, fr):
        return "r", num(int(e["v"]))

    def x_flt(self, e, st, fr):
        from fractions import Fraction
        s = e["v"]
        try:
            return "r", num(Fraction(s))
        except ValueError:
            return "r", sym("flt:" + s, "r")

    def x_bool(self, e, st, fr):
        return "r", TRUE if e["v"] else FALSE

    def x_chr(self, e, st, fr):
        return "r", num(e["v"])

    def x_null(self, e, st, fr):
        return "r", NULL

    def x_str(self, e, st, fr):
        return "r", string(e["v"])

    def x_this(self, e, st, fr):
        return "r", fr.this

    def x_zero(self, e, st, fr):
        return "r", self.zero_value(e["t"], st, fr)

    def x_typeid(self, e, st, fr):
        return "r", mk("typeid", e.get("tt") or e["c"]["t"])

    def x_stmtx(self, e, st, fr):
        self.exec(e["c"], st, fr)
        return "r", UNIT

    def x_unk(self, e, st, fr):
        for c in e.get("c") or []:
            self.ex(c, st, fr)
        return "r", self.unk("expression " + str(e.get("d")))

    def x_ref(self, e, st, fr):
        dk = e["dk"]
        if dk == "func":
            return "r", mk("func", e["fn"], e["q"])
        if "cv" in e:
            return "r", num(int(e["cv"]))
        if dk == "global":
            q = e["q"]
            if e["id"] in fr.env:
                return "l", fr.env[e["id"]]
            if q.endswith("::npos"):
                return "r", num(2 ** 64 - 1)
            root = ("g", q)
            self.roottype.setdefault(root, e["t"])
            if root not in self.rootinit and q not in self.db.globals:
                self.rootinit[root] = self.make_sym(e["t"], "::" + q)
            return "l", mk("ptr", root, ())
        p = fr.env.get(e["id"])
        if p is None:
            return "r", self.unk("unbound variable " + e["n"])
        return "l", p

    def x_mem(self, e, st, fr):
        b = e["b"]
        if e["a"]:
            p = self.deref(self.ev(b, st, fr))
        else:
            p = self.lv(b, st, fr)
        r = self.extend(p, ("f", e["f"]))
        if e.get("ref"):
            return "l", self.load(st, r)
        return "l", r

    def x_sub(self, e, st, fr):
        b = e["b"]
        i = self.ev(e["i"], st, fr)
        kind, v = self.ex(b, st, fr)
        bt = base_type(b.get("t", ""))
        if kind == "l" and re.search(r"\[\d*\]$", bt):
            return "l", self.extend(v, ("i", i))
        p = self.load(st, v) if kind == "l" else v
        return "l", self.index_ptr(p, i)

    def index_ptr(self, p, i):
        if p.op == "ite":
            return ite(p.a[0], self.index_ptr(p.a[1], i), self.index_ptr(p.a[2], i))
        if p.op == "ptr":
            if p.a[1] and p.a[1][-1][0] == "i":
                return T.ptr_add(p, i)
            return self.extend(p, ("i", i))
        if p.op in ("str", "cat"):
            root = self.newroot("o")
            self.rootinit[root] = p
            return mk("ptr", root, (("i", i),))
        if p.op == "padr":
            return mk("ptr", ("h", p.a[0]), (("i", add(p.a[1], i)),))
        return mk("ptr", ("h", p), (("i", i),))

    def x_un(self, e, st, fr):
        op = e["op"]
        c = e["c"]
        if op == "&":
            kind, v = self.ex(c, st, fr)
            if kind == "l":
                # the address of *p is p
                if v.op == "ptr" and v.a[0][0] == "h" and v.a[1] == ():
                    return "r", v.a[0][1]
                return "r", v
            if v.op == "func":
                return "r", v
            root = self.newroot("o", c.get("t"))
            st.mem[root] = v
            return "r", mk("ptr", root, ())
        if op == "*":
            p = self.ev(c, st, fr)
            if p.op == "func" or p.op == "clos":
                return "r", p
            return "l", self.deref(p)
        if op in ("++", "--"):
            p = self.lv(c, st, fr)
            old = self.load(st, p)
            self.note_type(old, c.get("t", ""))
            d = ONE if op == "++" else num(-1)
            new = T.ptr_add(old, d) if is_ptr(c.get("t", "")) else add(old, d)
            self.store(st, p, new)
            return ("r", old) if e["post"] else ("l", p)
        v = self.ev(c, st, fr)
        if op == "-":
            return "r", neg(T.tonum(v))
        if op == "+":
            return "r", v
        if op == "!":
            return "r", lnot(T.tobool(v))
        if op == "~":
            return "r", sub(num(-1), v)
        return "r", self.unk("unary " + op)

    def x_asg(self, e, st, fr):
        if e["op"] == ",":
            self.ex(e["lhs"], st, fr)
            return self.ex(e["rhs"], st, fr)
        v = self.ev_as(e["rhs"], e["lhs"]["t"], st, fr)
        p = self.lv(e["lhs"], st, fr)
        if st.dead:
            return "r", mk("undef", "dead")
        self.store(st, p, v)
        return "l", p

    def arith(self, op, a, b, t, ta, tb):
        if op in ("+", "-") and (is_ptr(ta) or is_ptr(tb) or re.search(r"\[\d*\]$", base_type(ta)) or a.op == "ptr"):
            if op == "+":
                if is_ptr(tb) and not is_ptr(ta):
                    a, b = b, a
                return T.ptr_add(a, b)
            if is_ptr(tb) or b.op == "ptr":
                return self.ptrdiff(a, b)
            return T.ptr_add(a, neg(b))
        a, b = T.tonum(a), T.tonum(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_int(t):
                return T.idiv(a, b)
            return div(a, b)
        if op == "%":
            return T.imod(a, b)
        if op == "<<":
            c = cint(b)
            if c is not None and 0 <= c < 64:
                return mul(a, num(2 ** c))
            r = mul(a, mk("pow2", b))
            T.declare_int(mk("pow2", b))
            return r
        if op == ">>":
            c = cint(b)
            if c is not None and 0 <= c < 64:
                return T.idiv(a, num(2 ** c))
            T.declare_int(mk("pow2", b))
            return T.idiv(a, mk("pow2", b))
        if op in ("&", "|", "^"):
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None:
                return num({"&": ca & cb, "|": ca | cb, "^": ca ^ cb}[op])
            if op == "&":
                if cb is not None and cb > 0 and (cb & (cb + 1)) == 0:
                    return T.imod(a, num(cb + 1))
                if cb is not None and cb > 0 and (cb & (cb - 1)) == 0:
                    return mul(T.imod(T.idiv(a, num(cb)), num(2)), num(cb))
            r = mk("app", "bit" + op, *sorted((a, b), key=lambda x: x.id))
            T.declare_int(r)
            return r
        return self.unk("operator " + op)

    def ptrdiff(self, a, b):
        def parts(p):
            if p.op == "ptr":
                if p.a[1] and p.a[1][-1][0] == "i":
                    return (p.a[0], p.a[1][:-1]), p.a[1][-1][1]
                return (p.a[0], p.a[1]), ZERO
            if p.op == "padr":
                return p.a[0], p.a[1]
            return p, ZERO
        (ra, ia), (rb, ib) = parts(a), parts(b)
        if ra == rb:
            return sub(ia, ib)
        if a.op == "ite":
            return ite(a.a[0], self.ptrdiff(a.a[1], b), self.ptrdiff(a.a[2], b))
        if b.op == "ite":
            return ite(b.a[0], self.ptrdiff(a, b.a[1]), self.ptrdiff(a, b.a[2]))
        r = mk("app", "ptrdiff", a, b)
        T.declare_int(r)
        return r

    def addresses(self, p):
        """a choice between addresses of objects"""
        return p.op == "ite" and self.addresses(p.a[1]) and self.addresses(p.a[2]) or p.op in ("ptr", "nullptr")

    def compare(self, op, a, b, ta, tb):
        if a.op in ("str", "cat", "substr", "tostr") or b.op in ("str", "cat", "substr", "tostr") or is_str(ta) or is_str(tb):
            r = T.streq(a, b)
            return r if op == "==" else lnot(r) if op == "!=" else mk("app", "strlt", a, b)
        if a is b and op in ("==", "<=", ">="):
            return TRUE
        if a.op == "nullptr" or b.op == "nullptr":
            r = T.isnull(b if a.op == "nullptr" else a)
            if op in ("==", "!="):
                return r if op == "==" else lnot(r)
        isb = T.isbool(a) and T.isbool(b)
        if isb and op in ("==", "!="):
            r = lor(land(a, b), land(lnot(a), lnot(b)))
            return r if op == "==" else lnot(r)
        ptrs = is_ptr(ta) or is_ptr(tb) or a.op == "ptr" or b.op == "ptr" or "iterator" in ta
        if ptrs and op in ("==", "!=") and (a.op == "ite" or b.op == "ite") and self.addresses(a) and self.addresses(b):
            if a.op == "ite":
                r = T.lor(land(a.a[0], self.compare("==", a.a[1], b, ta, tb)), land(lnot(a.a[0]), self.compare("==", a.a[2], b, ta, tb)))
            else:
                r = T.lor(land(b.a[0], self.compare("==", a, b.a[1], ta, tb)), land(lnot(b.a[0]), self.compare("==", a, b.a[2], ta, tb)))
            return r if op == "==" else lnot(r)
        if ptrs:
            d = self.ptrdiff(a, b)
            if d.op == "app" and d.a[0] == "ptrdiff" and op in ("==", "!="):
                if a.op == "ptr" and b.op == "ptr" and a.a[0] != b.a[0] and a.a[0][0] != "h" and b.a[0][0] != "h":
                    r = FALSE
                else:
                    x, y = sorted((a, b), key=lambda q: q.id)
                    r = mk("same", x, y)
                return r if op == "==" else lnot(r)
            a, b = d, ZERO
        if not ptrs and not (T.isnumlike(a) and T.isnumlike(b)):
            x, y = sorted((a, b), key=lambda q: q.id)
            r = mk("same", x, y)
            if op == "==":
                return r
            if op == "!=":
                return lnot(r)
        a, b = T.tonum(a), T.tonum(b)
        it = ptrs or not (is_flt(ta) or is_flt(tb))
        if op == "==":
            return eq0(sub(a, b))
        if op == "!=":
            return lnot(eq0(sub(a, b)))
        if op == "<":
            return gt0(sub(b, a), it)
        if op == ">":
            return gt0(sub(a, b), it)
        if op == "<=":
            return ge0(sub(b, a), it)
        if op == ">=":
            return ge0(sub(a, b), it)
        return self.unk("comparison " + op)

    def x_bin(self, e, st, fr):
        op = e["op"]
        if op in ("->*", ".*"):
            # an object and a pointer to one of its members
            this = self.ev(e["lhs"], st, fr) if op == "->*" else self.lv(e["lhs"], st, fr)
            f = self.ev(e["rhs"], st, fr)
            return "r", self.bound_member(this, f)
        if op in ("&&", "||"):
            a = T.tobool(self.ev(e["lhs"], st, fr))
            a = self.known(st, a)
            if op == "&&":
                if a is FALSE:
                    return "r", FALSE
                b = self.sided(e["rhs"], a, st, fr)
                return "r", land(a, T.tobool(b))
            if a is TRUE:
                return "r", TRUE
            b = self.sided(e["rhs"], lnot(a), st, fr)
            return "r", lor(a, T.tobool(b))
        if op == ",":
            self.ex(e["lhs"], st, fr)
            return self.ex(e["rhs"], st, fr)
        a = self.ev(e["lhs"], st, fr)
        b = self.ev(e["rhs"], st, fr)
        ta, tb = e["lhs"].get("t", ""), e["rhs"].get("t", "")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return "r", self.known(st, self.compare(op, a, b, ta, tb))
        return "r", self.arith(op, a, b, e["t"], ta, tb)

    def sided(self, e, c, st, fr):
        """value of e evaluated only under c"""
        a = st.copy()
        a.pc += (c,) if c is not TRUE else ()
        v = self.ev(e, a, fr)
        if a.evs is st.evs or len(a.evs) == len(st.evs):
            if a.mem == st.mem and not a.dead:
                return v
        if c is TRUE:
            st.become(a)
            return v
        b = st.copy()
        b.pc += (lnot(c),)
        m = self.merge([a, b])
        m.evs = self.join_events(a, b)
        st.become(m)
        return v

    def x_cond(self, e, st, fr):
        c = self.known(st, self.ev(e["cnd"], st, fr))
        if c is TRUE:
            return self.ex(e["x"], st, fr)
        if c is FALSE:
            return self.ex(e["y"], st, fr)
        a, b = st.copy(), st.copy()
        a.pc += (c,)
        b.pc += (lnot(c),)
        ka, va = self.ex(e["x"], a, fr)
        kb, vb = self.ex(e["y"], b, fr)
        if ka == "l" and kb == "l" and not is_ref(e["t"]) and False:
            pass
        if ka != kb or ka == "r":
            if ka == "l":
                va = self.load(a, va)
            if kb == "l":
                vb = self.load(b, vb)
            kind = "r"
        else:
            kind = "l"
        m = self.merge([a, b])
        if m is None:
            st.dead = True
            return "r", mk("undef", "dead")
        m.evs = self.join_events(a, b)
        if a.dead:
            st.become(m)
            return kind, vb
        if b.dead:
            st.become(m)
            return kind, va
        if m.pc != st.pc and len(m.pc) == len(st.pc) + 1:
            pass
        st.become(m)
        return kind, ite(c, va, vb)

    def x_casg(self, e, st, fr):
        p = self.lv(e["lhs"], st, fr)
        b = self.ev(e["rhs"], st, fr)
        a = self.load(st, p)
        self.note_type(a, e["lhs"]["t"])
        if st.dead:
            return "r", mk("undef", "dead")
        if base_type(e["lhs"]["t"]) == "bool" and e["op"] in ("|", "&"):
            v = lor(a, T.tobool(b)) if e["op"] == "|" else land(a, T.tobool(b))
        else:
            v = self.arith(e["op"], a, b, e.get("ct") or e["t"], e["lhs"]["t"], e["rhs"]["t"])
            if is_int(e["lhs"]["t"]) and is_flt(e.get("ct") or ""):
                v = T.trunc(v)
        self.store(st, p, v)
        return "l", p

    def x_cast(self, e, st, fr):
        ck = e["ck"]
        kind, v = self.ex(e["c"], st, fr)
        if ck in ("ToVoid",):
            return "r", UNIT
        if ck == "ArrayToPointerDecay":
            return "r", self.extend(v, ("i", ZERO)) if kind == "l" else v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "LValueBitCast", "Dynamic"):
            return kind, v
        if kind == "l":
            v2 = self.load(st, v)
            self.note_type(v2, e["c"].get("t", ""))
            v = v2
        if ck == "FloatingToIntegral":
            return "r", T.trunc(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return "r", T.tobool(v)
        if ck in ("NullToPointer",):
            return "r", NULL
        if ck == "FloatingCast":
            return "r", self.coerce(v, e["c"].get("t", ""), e.get("t", ""))
        if ck in ("IntegralCast", "IntegralToFloating"):
            if T.isbool(v):
                return "r", ite(v, ONE, ZERO)
            return "r", v
        return "r", v

    def gives_up(self, st):
        for p in st.pc:
            self.raised.update(p.a if p.op == "and" else (p,))

    def x_throw(self, e, st, fr):
        v = self.ev(e["c"], st, fr) if e["c"] else UNIT
        if st.dead:
            return "r", UNIT
        self.event(st, "throw", e["tt"].split("::")[-1], (v,), e["l"])
        self.gives_up(st)
        st.dead = True
        return "r", UNIT

    def x_newx(self, e, st, fr):
        root = self.newroot("n", e["at"], *self.loopvars)
        if e["arr"]:
            n = self.ev(e["n"], st, fr) if e["n"] else ZERO
            v = mk("undefseq", root[1], n)
            st.mem[root] = v
            return "r", mk("ptr", root, (("i", ZERO),))
        if e["init"] is not None:
            if e["init"]["k"] == "ctor":
                self.place = root
            v = self.ev_as(e["init"], e["at"], st, fr)
            self.place = None
        else:
            v = self.default_value(e["at"], st, fr)
        st.mem[root] = v
        p = mk("ptr", root, ())
        self.event(st, "new", base_type(e["at"]), (p,), e["l"])
        return "r", p

    def x_delx(self, e, st, fr):
        p = self.ev(e["c"], st, fr)
        cls = base_type(base_type(e["c"].get("t", "")).rstrip("*"))
        if not e["arr"] and self.dtors(cls) and p.op == "ptr":
            self.destroy(st, cls, self.deref(p), fr, e["l"])
        self.event(st, "delete", base_type(e["c"].get("t", "")), (p,), e["l"])
        return "r", UNIT

    def x_lambda(self, e, st, fr):
        env = {}
        caps = []
        th = None
        for c in e["caps"]:
            if c.get("th"):
                th = fr.this
                caps.append(fr.this)
            elif "id" in c:
                if c.get("init") is not None:
                    if c["byref"]:
                        env[c["id"]] = self.lv(c["init"], st, fr)
                    else:
                        v = self.ev(c["init"], st, fr)
                        env[c["id"]] = ("val", v)
                        caps.append(v)
                    continue
                p = fr.env.get(c["id"])
                if p is None:
                    continue
                if c["byref"]:
                    env[c["id"]] = p
                    caps.append(p)
                else:
                    v = self.load(st, p)
                    env[c["id"]] = ("val", v)
                    caps.append(v)
        t = mk("clos", e["fn"], *caps)
        self.clos[t] = (e["fs"] if "fs" in e else e["f"], env, th)
        return "r", t

    def x_ilist(self, e, st, fr):
        t = e["t"]
        vals = []
        if is_seq(t) or not e.get("flds"):
            et = elem_type(t) if is_seq(t) else None
            for c in e["c"]:
                vals.append(self.ev(c, st, fr))
            if is_seq(t):
                m = re.search(r"\[(\d+)\]$", base_type(t))
                if m and len(vals) < int(m.group(1)) <= 256:
                    vals += [self.zero_value(et, st, fr)] * (int(m.group(1)) - len(vals))
                return "r", lst(*vals)
            if len(vals) == 1:
                return "r", vals[0]
            if not vals:
                return "r", self.zero_value(t, st, fr)
            return "r", lst(*vals)
        d = {}
        for n, c in zip(e["flds"], e["c"]):
            d[n] = self.ev(c, st, fr)
        return "r", struct(base_type(t), d)

    # ------------------------------------------------------------ calls
    def x_ctor(self, e, st, fr):
        # where the object is being created, when it has a name
        place, self.place = self.place, None
        cls = base_type(e["t"]) if not e.get("cls") else e["cls"]
        q = e["q"]
        h = self.model_for(e, cls)
        if h:
            r = h(self, st, fr, e, e["args"], None)
            if r is not NotImplemented:
                return r
        if cls.startswith("std::") or cls.startswith("__gnu_cxx::"):
            from . import stdmodel
            return "r", stdmodel.ctor(self, e, cls, st, fr)
        if (e.get("copy") or e.get("move")) and len(e["args"]) == 1:
            f = self.db.fn(e["fn"])
            if e.get("impl") or f is None or f.get("dfl") or f.get("body") is None:
                kind = "cc" if e.get("copy") else "mc"
                if self.memberwise(cls, kind):
                    src = self.lv(e["args"][0], st, fr)
                    root = place or self.newroot("o", cls)
                    st.mem[root] = struct(cls, {fd["n"]: mk("undef", fd["n"]) for fd, own in self.all_fields(cls)})
                    self.copy_members(cls, kind, mk("ptr", root, ()), src, st, fr, e["l"])
                    return "r", self.load(st, mk("ptr", root, ()))
                v = self.ev(e["args"][0], st, fr)
                if v.op == "struct" and v.a[0] != cls and cls in self.db.records and not self.derives(cls, v.a[0]):
                    # slicing copy
                    names = {f_["n"] for f_, _ in self.all_fields(cls)}
                    v = struct(cls, {k: x for k, x in v.a[1] if k in names})
                return "r", v
        f = self.db.fn(e["fn"])
        if e.get("inh") and f is None:
            return "r", self.unk("inherited constructor")
        if f is None or f.get("body") is None:
            r = self.db.records.get(cls)
            if r and not e["args"]:
                return "r", self.default_value(cls, st, fr)
            args = [self.ev(a, st, fr) for a in e["args"]]
            if r is None:
                return "r", mk("app", "ctor:" + cls, *args)
            self.taint(st, "constructor without body " + q)
            return "r", mk("app", "ctor:" + cls, *args)
        return "r", self.construct(cls, f, e["args"], st, fr, e, place)

    def derives(self, a, b):
        """a derives from (or is) b"""
        if a == b:
            return True
        r = self.db.records.get(a)
        return bool(r) and any(self.derives(base_type(x), b) for x in r["bases"])

    COPY = {"cc": ("cc",), "mc": ("mc", "cc"), "cpasg": ("cpasg",), "mvasg": ("mvasg", "cpasg")}

    def special(self, cls, kind):
        """the repository's own copy or move operation of a class, when it wrote one and nothing models it"""
        r = self.db.records.get(cls)
        name = cls + ("::(ctor)" if kind in ("cc", "mc") else "::operator=")
        if r is None or cls in self.opaque_classes or name in self.models or re.sub(r"<.*>", "", name) in self.models:
            return None
        for k in self.COPY[kind]:
            for m in r.get("methods") or []:
                if m["kind"] == k and not m["impl"] and not m["dfl"] and not m["del"]:
                    f = self.db.fn(m["key"])
                    if f is not None and f.get("body") is not None:
                        return f
        return None

    def memberwise(self, cls, kind):
        """does the implicit operation of a class reach one that the repository wrote for an object with a destructor?"""
        c = self.dtorcache.get((cls, kind))
        if c is None:
            self.dtorcache[(cls, kind)] = False
            r = self.db.records.get(cls)
            c = False
            if r is not None and cls not in self.opaque_classes and self.dtors(cls):
                subs = [base_type(b) for b in r["bases"]] + [base_type(f["t"]) for f in r["fields"] if not is_ref(f["t"]) and not is_ptr(f["t"])]
                c = any(self.dtors(b) and (self.special(b, kind) is not None or self.memberwise(b, kind)) for b in subs)
            self.dtorcache[(cls, kind)] = c
        return c

    def copy_members(self, cls, kind, dst, src, st, fr, line):
        r = self.db.records[cls]
        subs = [(base_type(b), None) for b in r["bases"]] + [(base_type(f["t"]) if not is_ref(f["t"]) and not is_ptr(f["t"]) else None, f["n"]) for f in r["fields"]]
        for c, n in subs:
            if st.dead:
                return
            d, x = (dst, src) if n is None else (self.extend(dst, ("f", n)), self.extend(src, ("f", n)))
            f = self.special(c, kind) if c and self.dtors(c) else None
            if f is not None:
                self.invoke(f, [("l", x)], d, st, fr, line)
            elif c and self.memberwise(c, kind):
                self.copy_members(c, kind, d, x, st, fr, line)
            elif n is None:
                for fd, own in self.all_fields(c):
                    self.store(st, self.extend(d, ("f", fd["n"])), self.load(st, self.extend(x, ("f", fd["n"]))))
            else:
                self.store(st, d, self.load(st, x))

    def assign_members(self, f, v, this, st):
        """the value of an implicit assignment: called on a base, it assigns the base's members only"""
        cls = f["q"].rsplit("::", 1)[0]
        old = self.load(st, this)
        if old.op == "struct" and old.a[0] != cls and cls in self.db.records and self.derives(old.a[0], cls):
            for fd, own in self.all_fields(cls):
                self.store(st, self.extend(this, ("f", fd["n"])), fld(v, fd["n"]))
        else:
            self.store(st, this, v)

    def implicit_assign(self, e, cls, kind, a, this, st, fr):
        """a compiler-generated assignment; None when plain value semantics serve"""
        if not self.memberwise(cls, kind):
            return None
        src = a[1] if isinstance(a, tuple) else self.lv(a, st, fr)
        self.copy_members(cls, kind, this, src, st, fr, e["l"])
        return "l", this

    def construct(self, cls, f, args, st, fr, e=None, place=None):
        root = place or self.newroot("o", cls)
        d = {}
        for fd, own in self.all_fields(cls):
            d[fd["n"]] = mk("undef", "%s.%s" % (cls.split("::")[-1], fd["n"]))
        st.mem[root] = struct(cls, d)
        this = mk("ptr", root, ())
        self.invoke(f, args, this, st, fr, e["l"] if e else 0)
        if st.dead:
            return mk("undef", "dead")
        v = self.load(st, this)
        return v

    def run_inits(self, f, st, fr):
        for i in f.get("inits") or []:
            if st.dead:
                return
            if "f" in i:
                if i["e"] is None:
                    continue
                if is_ref(i["ft"]):
                    v = self.lv(i["e"], st, fr)
                else:
                    v = self.ev_as(i["e"], i["ft"], st, fr)
                self.store(st, self.extend(fr.this, ("f", i["f"])), v)
            elif "base" in i or i.get("dlg"):
                e = i["e"]
                if e is None:
                    continue
                if e["k"] == "ctor":
                    bf = self.db.fn(e["fn"])
                    if bf is not None and bf.get("body") is not None:
                        self.invoke(bf, e["args"], fr.this, st, fr, e["l"])
                        continue
                v = self.ev(e, st, fr)
                if v.op == "struct":
                    for k2, x in v.a[1]:
                        self.store(st, self.extend(fr.this, ("f", k2)), x)
                elif v.op not in ("unk", "undef"):
                    base = base_type(i.get("base", ""))
                    for fd, own in self.all_fields(base):
                        self.store(st, self.extend(fr.this, ("f", fd["n"])), fld(v, fd["n"]))

    def bind(self, f, args, st, fr, env):
        """args: AST nodes or ('l'|'r', term) pairs"""
        pend = []
        for i, p in enumerate(f["params"]):
            a = args[i] if i < len(args) else None
            if a is None:
                pend.append((p, self.unk("missing argument")))
                continue
            if is_ref(p["t"]):
                if isinstance(a, tuple):
                    if a[0] == "l":
                        v = a[1]
                    else:
                        root = self.newroot("o", p["t"])
                        st.mem[root] = a[1]
                        v = mk("ptr", root, ())
                else:
                    v = self.lv(a, st, fr)
                pend.append((p, v))
            else:
                if isinstance(a, tuple):
                    v = a[1] if a[0] == "r" else self.load(st, a[1])
                else:
                    v = self.ev_as(a, p["t"], st, fr)
                pend.append((p, v))
        return pend

    def invoke(self, f, args, this, st, fr, line, extra_env=None):
        """inline the call; returns ('l'|'r', value)"""
        key = f["key"]
        self.visited.add(f["q"])
        pend = self.bind(f, args, st, fr, None)
        if st.dead:
            return "r", mk("undef", "dead")
        depth = fr.depth + 1
        rec = sum(1 for c in self.callstack if c[2] == key)
        if depth > self.MAXDEPTH or rec >= self.MAXREC or (rec >= 1 and self.loopvars and rec >= 2):
            vals = [v if not is_ref(p["t"]) else self.load(st, v) for p, v in pend]
            self.event(st, "call", f["q"], ([self.load(st, this)] if this is not None else []) + vals, line, info="recursion")
            self.taint(st, "recursion " + f["q"])
            return "r", self.outterm("rec:" + f["q"], 0, f["ret"])
        nf = Frame(f, this, dict(extra_env or {}), depth)
        nf.retref = is_ref(f["ret"])
        nf.rettype = f["ret"]
        for p, v in pend:
            if is_ref(p["t"]):
                nf.env[p["id"]] = v
            else:
                root = ("v", p["id"], nf.id)
                self.roottype[root] = p["t"]
                st.mem[root] = v
                nf.env[p["id"]] = mk("ptr", root, ())
        self.callstack.append([f["q"], line, key])
        try:
            if f.get("inits"):
                self.run_inits(f, st, nf)
            if not st.dead:
                self.exec(f["body"], st, nf)
        finally:
            self.callstack.pop()
        states = [s for s, _ in nf.rets]
        if not st.dead:
            states.append(st.copy())
            nf.rets.append((states[-1], UNIT))
        if not states:
            return "r", mk("undef", "dead")
        evs_dead = st.evs
        # value merge mirrors the state merge
        cur_s, cur_v = nf.rets[0]
        for s2, v2 in nf.rets[1:]:
            n = 0
            while n < len(cur_s.pc) and n < len(s2.pc) and cur_s.pc[n] is s2.pc[n]:
                n += 1
            ca = land(*cur_s.pc[n:])
            if v2.op == "unit" or cur_v.op == "unit":
                cur_v = v2 if cur_v.op == "unit" else cur_v
            else:
                cur_v = ite(ca, cur_v, v2)
            cur_s = self.merge2(cur_s, s2)
        seen = set(map(id, cur_s.evs))
        cur_s.evs = cur_s.evs + tuple(x for x in evs_dead if id(x) not in seen)
        st.become(cur_s)
        st.dead = False
        # drop the frame's locals
        for r in [r for r in st.mem if r[0] == "v" and len(r) == 3 and r[2] == nf.id]:
            if not (cur_v.op in ("ptr", "ite") or T.contains(cur_v, lambda x: x.op in ("ptr", "clos")) ):
                del st.mem[r]
        return ("l" if nf.retref else "r"), cur_v

    def model_for(self, e, cls=None):
        q = e.get("q")
        if q is None:
            return None
        h = self.models.get(q)
        if h:
            return h
        g = re.sub(r"<.*>", "", q) if "<" in q else None
        if g:
            h = self.models.get(g)
        return h

    def x_mcall(self, e, st, fr):
        if "fe" in e:
            return self.x_call(e, st, fr)
        o = e["o"]
        cls = base_type(e["ot"])
        # object
        if o is None:
            this = fr.this
        elif e["a"]:
            pv = self.ev(o, st, fr)
            this = pv
        else:
            this = self.lv(o, st, fr)
        if st.dead:
            return "r", mk("undef", "dead")
        if e.get("q", "").endswith("::(conv)") and "lambda" in e["q"]:
            # a closure without captures as a function pointer
            return "r", self.load(st, self.deref(this))
        return self.method(e, this, cls, e["args"], st, fr)

    def method(self, e, this, cls, args, st, fr):
        h = self.model_for(e, cls)
        if h:
            r = h(self, st, fr, e, args, self.deref(this) if this is not None else None)
            if r is not NotImplemented:
                return r
        q = e["q"]
        if q.startswith("std::") or q.startswith("__gnu_cxx::"):
            from . import stdmodel
            return stdmodel.method(self, e, self.deref(this), args, st, fr)
        f = self.db.fn(e["fn"])
        if e.get("virt"):
            f = self.final_overrider(e, this, cls, st) or f
            if f is None or f.get("body") is None:
                return self.pure_call(e, this, args, st, fr)
            h = self.models.get(f["q"]) if f["q"] != q else None
            if h:
                r = h(self, st, fr, e, args, self.deref(this) if this is not None else None)
                if r is not NotImplemented:
                    return r
        if f is None:
            # static resolution by name/class (template instantiations without a body here)
            return self.opaque_call(e, args, st, fr, this)
        if f["q"] in self.opaque_fns or re.sub(r"<.*>", "", f["q"]) in self.opaque_fns:
            return self.opaque_call(e, args, st, fr, this)
        if f.get("body") is None:
            if f.get("dfl") and f.get("kind") in ("cpasg", "mvasg"):
                r = self.implicit_assign(e, cls, f["kind"], args[0], self.deref(this), st, fr)
                if r is not None:
                    return r
                v = self.ev(args[0], st, fr)
                self.assign_members(f, v, self.deref(this), st)
                return "l", self.deref(this)
            return self.opaque_call(e, args, st, fr, this)
        if f.get("dfl") and f.get("kind") in ("cpasg", "mvasg"):
            r = self.implicit_assign(e, cls, f["kind"], args[0], self.deref(this), st, fr)
            if r is not None:
                return r
            v = self.ev(args[0], st, fr)
            self.assign_members(f, v, self.deref(this), st)
            return "l", self.deref(this)
        if this is not None and this.op == "ptr" or this is None:
            th = this
        else:
            th = self.deref(this)
        return self.invoke(f, args, th, st, fr, e["l"])

    def final_overrider(self, e, this, cls, st):
        """the method a virtual call reaches on an object whose class is known"""
        dyn = None
        if this is not None and this.op == "ptr":
            v = self.load(st, this)
            if v.op == "struct":
                dyn = v.a[0]
            elif this.a[0][0] == "v":
                # a variable of its own: what it is declared as
                t = self.loc_type(this.a)
                if t and not is_ref(t) and not is_ptr(t) and self.is_record(t):
                    dyn = base_type(t)
        cands = [dyn] if dyn else [cls]
        for c in cands:
            f = self.db.find_override(c, e["fn"])
            if f is not None:
                return f
        # the only class that implements it
        impl = self.db.implementations(e["fn"])
        if len(impl) == 1:
            return impl[0]
        return None

    def pure_call(self, e, this, args, st, fr):
        """a pure virtual / unknown callee: an uninterpreted function of its arguments"""
        vals = [self.ev(a, st, fr) for a in args]
        if this.op == "ptr":
            v = self.load(st, this)
            ident = this if v.op == "undef" else (v if v.op in ("sym", "deref") else this)
        else:
            ident = this
        if this.op == "ptr" and this.a[0][0] == "h" and this.a[1] == ():
            ident = this.a[0][1]
        self.event(st, "vcall", e["q"], [ident] + vals, e["l"], info=e)
        r = mk("app", "v:" + e["n"], ident, *vals)
        if e.get("cm") or True:
            self.note_type(r, e["ret"])
        if is_ref(e["ret"]) or self.is_record(e["ret"]):
            if is_ref(e["ret"]):
                p = mk("ptr", ("h", r), ())
                self.ptrtype.setdefault(r, base_type(e["ret"]))
                return "l", p
        return "r", r

    def opaque_call(self, e, args, st, fr, this=None, name=None):
        """a callee outside the analysed code: an ordered event; what it may write is unknown afterwards"""
        q = name or e.get("q") or "?"
        if q.startswith("efs::"):
            self.unk("reference function %s does not compile against this tree" % q)
        pts = e.get("pt") or []
        vals, outs = [], []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else a.get("t", "")
            if is_ref(pt):
                p = self.lv(a, st, fr)
                v = self.load(st, p)
                vals.append(v if pt.startswith("const ") else mk("ref", p) if False else v)
                if not pt.startswith("const ") and not pt.rstrip().endswith("&&"):
                    outs.append((i, p, base_type(pt)))
            else:
                v = self.ev(a, st, fr)
                vals.append(v)
                b = base_type(pt)
                if is_ptr(pt) and not b.startswith("const ") and not pt.startswith("const ") and v.op in ("ptr", "ite"):
                    outs.append((i, v, base_type(b.rstrip("*").strip()) if b.endswith("*") else ""))
        if st.dead:
            return "r", mk("undef", "dead")
        short = q.split("::")[-1]
        if q in NORETURN or short in NORETURN:
            self.gives_up(st)
            st.dead = True
            return "r", mk("undef", "dead")
        if short in PURE or q in PURE:
            return "r", self.pure_fn(short, vals, e)
        if q in ("MPI_Comm_rank", "MPI_Comm_size"):
            r = mk("app", q, vals[0])
            T.declare_int(r)
            T.declare_nonneg(r)
            self.store(st, self.deref(vals[1]), r)
            return "r", ZERO
        if not OBSERVED.match(q) and q not in self.opaque_fns and re.sub(r"<.*>", "", q) not in self.opaque_fns:
            # a library function without a model: nothing is claimed about what it does or returns
            self.taint(st, "call of " + q)
            for i, p, t in outs:
                if p.op == "ptr" and p.a[1] and p.a[1][-1][0] == "i":
                    p = mk("ptr", p.a[0], p.a[1][:-1])
                self.store(st, self.deref(p), self.unk("written by " + q))
            if base_type(e.get("ret") or e.get("t") or "") == "void":
                return "r", UNIT
            r = self.unk("call of " + q)
            return ("l", mk("ptr", ("h", r), ())) if is_ref(e.get("ret") or "") else ("r", r)
        # arguments by pointer: record what they point to as well
        pointees = []
        for i, v in enumerate(vals):
            if v.op == "ptr":
                pointees.append((i, self.load(st, v)))
        info = {"pointees": dict(pointees), "argt": [a.get("t", "") for a in args], "e": e}
        thisv = [self.load(st, self.deref(this))] if this is not None else []
        self.event(st, "call", q, thisv + vals, e["l"], info=info)
        spec = getattr(self, "outspec", {}).get(short)
        for i, p, t in outs:
            if spec is not None and i not in spec:
                continue
            o = self.outterm(short, i, t)
            if p.op == "ptr" and p.a[1] and p.a[1][-1][0] == "i":
                # a buffer: everything from here on may have changed
                par = mk("ptr", p.a[0], p.a[1][:-1])
                old = self.load(st, par)
                if seqlen(old).op == "len":
                    self.store(st, par, mk("outseq", o, seqlen(old)))
                else:
                    self.store(st, par, mk("outseq", o, seqlen(old)))
            else:
                self.store(st, self.deref(p), o)
        ret = base_type(e.get("ret") or e.get("t") or "")
        if ret == "void":
            return "r", UNIT
        r = self.outterm(short, "ret", ret)
        if is_ref(e.get("ret") or ""):
            return "l", mk("ptr", ("h", r), ())
        return "r", r

    def pure_fn(self, name, vals, e):
        if name in ("abs",):
            name = "fabs"
        if name in ("fmax", "max"):
            name = "max"
        if name in ("fmin", "min"):
            name = "min"
        if name == "__builtin_expect":
            return vals[0]
        r = T.app(name, *vals)
        if e is not None and r.op == "app":
            self.note_type(r, e.get("ret") or e.get("t") or "")
        return r

    def x_call(self, e, st, fr):
        if "fe" in e or e.get("fn") is None:
            fe = e.get("fe")
            f = self.ev(fe, st, fr)
            return self.call_value(f, e["args"], e, st, fr)
        h = self.model_for(e)
        if h:
            r = h(self, st, fr, e, e["args"], None)
            if r is not NotImplemented:
                return r
        q = e["q"]
        f = self.db.fn(e["fn"])
        if f is not None and f.get("body") is not None and not (f["q"] in self.opaque_fns):
            return self.invoke(f, e["args"], None, st, fr, e["l"])
        if q.startswith("std::") or q.startswith("__gnu_cxx::") or q in CLIB:
            from . import stdmodel
            r = stdmodel.function(self, e, st, fr)
            if r is not NotImplemented:
                return r
        return self.opaque_call(e, e["args"], st, fr)

    def bound_member(self, this, f):
        if f.op == "ite":
            return ite(f.a[0], self.bound_member(this, f.a[1]), self.bound_member(this, f.a[2]))
        if f.op == "func":
            return mk("bound", this, f)
        return self.unk("pointer to a member that is not a function")

    def instance(self, fs, args, e):
        """the instance of a generic function that a call means"""
        fs = [f for f in fs if len(f["params"]) == len(args)]
        if len(fs) <= 1:
            return fs[0] if fs else None
        want = [base_type(t) for t in e.get("pt") or []] if e.get("lam") else [base_type(a["t"]) if isinstance(a, dict) else None for a in args]
        fits = [f for f in fs if len(want) == len(args) and all(w is None or base_type(p["t"]) == w for p, w in zip(f["params"], want))]
        if len(fits) == 1:
            return fits[0]
        # they differ in how they take their arguments only
        return fits[0] if fits and len({tuple(base_type(p["t"]) for p in f["params"]) for f in fits}) == 1 else None

    def call_value(self, f, args, e, st, fr):
        """call through a function value"""
        if f.op == "bound":
            this, g = f.a
            fn = self.db.fn(g.a[0])
            if fn is None:
                return "r", self.unk("call of an unknown member")
            return self.method(dict(e, fn=g.a[0], q=g.a[1], virt=fn.get("virt"), ret=fn["ret"]), this, fn["cls"], args, st, fr)
        if f.op == "ite":
            c = f.a[0]
            a, b = st.copy(), st.copy()
            a.pc += (c,)
            b.pc += (lnot(c),)
            ka, va = self.call_value(f.a[1], args, e, a, fr)
            kb, vb = self.call_value(f.a[2], args, e, b, fr)
            m = self.merge([a, b])
            if m is None:
                st.dead = True
                return "r", mk("undef", "dead")
            m.evs = self.join_events(a, b)
            st.become(m)
            return (ka, ite(c, va, vb)) if ka == kb else ("r", self.unk("mixed call"))
        if f.op == "clos" and f in self.clos:
            fn, env, th = self.clos[f]
            if isinstance(fn, list):
                fn = self.instance(fn, args, e)
                if fn is None:
                    return "r", self.unk("instance of a generic function")
            env2 = {}
            for k, p in env.items():
                if isinstance(p, tuple):
                    root = self.newroot("v")
                    st.mem[root] = p[1]
                    env2[k] = mk("ptr", root, ())
                else:
                    env2[k] = p
            return self.invoke(fn, args, th, st, fr, e["l"], env2)
        if f.op == "func":
            fn = self.db.fn(f.a[0])
            if fn is not None and fn.get("body") is not None:
                return self.invoke(fn, args, None, st, fr, e["l"])
            return self.opaque_call(dict(e, q=f.a[1]), args, st, fr)
        if f.op == "struct":
            return self.call_object(f, args, e, st, fr)
        if f.op in ("unk", "undef"):
            return "r", self.unk("call of an unknown function value")
        # an opaque user callback: an uninterpreted pure function; reference/pointer arguments are outputs of it
        vals = []
        outs = []
        pts = e.get("pt") or []
        for i, a in enumerate(args):
            if isinstance(a, tuple):
                vals.append(a[1] if a[0] == "r" else self.load(st, a[1]))
                continue
            kind, v = self.ex(a, st, fr)
            t = a.get("t", "")
            ft = self.fun_param(f, e, i)
            if ft is not None and is_ref(ft) and not ft.startswith("const "):
                if kind == "l":
                    outs.append((i, v))
                vals.append(self.load(st, v) if kind == "l" else v)
                continue
            if kind == "l":
                p = v
                v = self.load(st, v)
                self.note_type(v, t)
            if v.op == "ptr" and is_ptr(t) and not base_type(t).startswith("const"):
                outs.append((i, v))
                vals.append(mk("outarg"))
                continue
            vals.append(v)
        if st.dead:
            return "r", mk("undef", "dead")
        ident = f
        self.event(st, "ucall", "callback", [ident] + vals, e["l"])
        for i, p in outs:
            o = mk("app", "uf-out%d" % i, ident, *vals)
            self.store(st, self.deref(p), o)
        r = mk("app", "uf", ident, *vals)
        self.note_type(r, e.get("ret") or e.get("t") or "")
        return "r", r

    FUNCTORS = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!=",
                "plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "logical_and": "&&", "logical_or": "||", "negate": "-", "logical_not": "!"}

    def call_object(self, f, args, e, st, fr):
        """call of an object of class type: the library's function objects by meaning, others by their operator()"""
        cls = f.a[0]
        vals = []
        for a in args:
            if isinstance(a, tuple):
                vals.append(a)
            else:
                vals.append(self.ex(a, st, fr))
        if st.dead:
            return "r", mk("undef", "dead")
        m = re.match(r"std::(\w+)\b", cls)
        if m:
            op = self.FUNCTORS.get(m.group(1))
            t = (targs(cls) or ["void"])[0]
            if t == "void":
                t = next((base_type(a.get("t", "")) for a in args if not isinstance(a, tuple)), "double")
            ops = [self.load(st, v) if k == "l" else v for k, v in vals]
            if op is None or any(o.op in ("unk", "struct") for o in ops):
                return "r", self.unk("call of " + cls)
            if len(ops) == 1:
                return "r", lnot(T.tobool(ops[0])) if op == "!" else self.arith("-", ZERO, ops[0], t, t, t)
            if op in ("&&", "||"):
                x, y = T.tobool(ops[0]), T.tobool(ops[1])
                return "r", land(x, y) if op == "&&" else lor(x, y)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return "r", self.known(st, self.compare(op, ops[0], ops[1], t, t))
            return "r", self.arith(op, ops[0], ops[1], t, t, t)
        fs = [x for x in self.db.functions.values() if x.get("cls") == cls and x["q"].endswith("::operator()") and len(x["params"]) == len(args) and x.get("body") is not None]
        if len(fs) == 1:
            root = self.newroot("v", cls)
            st.mem[root] = f
            return self.invoke(fs[0], vals, mk("ptr", root, ()), st, fr, e["l"])
        return "r", self.unk("call of " + cls)

    def fun_param(self, f, e, i):
        m = e.get("q", "")
        a = e.get("args")
        src = None
        mm = re.search(r"std::function<(.*)>::operator\(\)", m)
        if mm:
            sig = mm.group(1)
            j = sig.index("(")
            ps = targs("x<" + sig[j + 1:sig.rindex(")")] + ">")
            if i < len(ps):
                return ps[i]
        return None

    def x_opcall(self, e, st, fr):
        if "fe" in e:
            return "r", self.unk("dependent operator")
        q = e.get("q") or ""
        args = e["args"]
        if e.get("lam"):
            f = self.ev(args[0], st, fr)
            return self.call_value(f, args[1:], e, st, fr)
        h = self.model_for(e)
        if h:
            if e.get("m"):
                this = self.lv(args[0], st, fr)
                r = h(self, st, fr, e, args[1:], this)
            else:
                r = h(self, st, fr, e, args, None)
            if r is not NotImplemented:
                return r
        f = self.db.fn(e["fn"])
        if q.startswith("std::") or q.startswith("__gnu_cxx::"):
            if q.startswith("std::function<") and e["op"] == "()":
                fv = self.ev(args[0], st, fr)
                return self.call_value(fv, args[1:], e, st, fr)
            if e["op"] == "()":
                # a function object of the library
                f = self.ev(args[0], st, fr)
                if f.op != "struct":
                    for a in args[1:]:
                        self.ex(a, st, fr)
                    return "r", self.unk("call of " + q)
                return self.call_object(f, args[1:], e, st, fr)
            from . import stdmodel
            return stdmodel.operator(self, e, st, fr)
        if f is not None and f.get("body") is not None and not (f.get("dfl") and f.get("kind") in ("cpasg", "mvasg")):
            if e.get("m"):
                if e["op"] == "=":
                    # evaluate the right-hand side first (C++17)
                    pt = (e.get("pt") or [""])[0]
                    if is_ref(pt):
                        a = ("l", self.lv(args[1], st, fr))
                    else:
                        a = ("r", self.ev(args[1], st, fr))
                    this = self.lv(args[0], st, fr)
                    return self.invoke(f, [a], this, st, fr, e["l"])
                this = self.lv(args[0], st, fr)
                return self.invoke(f, args[1:], this, st, fr, e["l"])
            return self.invoke(f, args, None, st, fr, e["l"])
        if e["op"] == "=":
            c = base_type(args[0].get("t", "")) if not isinstance(args[0], tuple) else ""
            if c in self.db.records:
                kind = "mvasg" if "&&" in (e.get("pt") or [""])[0] else "cpasg"
                if self.memberwise(c, kind):
                    a = ("l", self.lv(args[1], st, fr))
                    return self.implicit_assign(e, c, kind, a, self.lv(args[0], st, fr), st, fr)
            v = self.ev(args[1], st, fr)
            p = self.lv(args[0], st, fr)
            if st.dead:
                return "r", mk("undef", "dead")
            cls = base_type(args[0].get("t", ""))
            if v.op == "struct" and v.a[0] != cls and cls in self.db.records and self.derives(v.a[0], cls):
                names = {f_["n"] for f_, _ in self.all_fields(cls)}
                v = struct(cls, {k: x for k, x in v.a[1] if k in names})
            self.store(st, p, v)
            return "l", p
        return self.opaque_call(e, args, st, fr)

    # ------------------------------------------------------------ entry
    def summarize(self, f, this=None, args=None, st=None, names=None):
        """summary of a function on symbolic inputs (names: how to call the parameters)"""
        st = st or State()
        self.callstack = [[f["q"], 0, "<entry>"]]
        fr = Frame(None, None, {}, 0)
        fr.retref, fr.rettype = False, ""
        S = Summary()
        S.params = {}
        S.fn = f
        if f.get("cls") and not f.get("static") and f["kind"] not in ("ctor",) and this is None:
            root = ("p", "this")
            self.rootinit[root] = self.make_sym(f["cls"], "this")
            self.roottype[root] = f["cls"]
            this = mk("ptr", root, ())
        S.this = this
        al = []
        for i, p in enumerate(f["params"]):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                al.append(a)
                S.params[p["n"]] = a[1]
                continue
            pn = names[i] if names else p["n"] or "arg%d" % i
            if is_ref(p["t"]):
                root = ("p", pn)
                self.rootinit[root] = self.make_sym(p["t"], pn)
                self.roottype[root] = p["t"]
                al.append(("l", mk("ptr", root, ())))
            else:
                al.append(("r", self.make_sym(p["t"], pn)))
            S.params[p["n"]] = al[-1][1]
        if f["kind"] == "ctor" if "kind" in f else False:
            root = ("p", "this")
            d = {fd["n"]: mk("undef", fd["n"]) for fd, own in self.all_fields(f["cls"])}
            st.mem[root] = struct(f["cls"], d)
            self.roottype[root] = f["cls"]
            this = S.this = mk("ptr", root, ())
        self.occ = {}
        S.init = {n: (self.load(st, v) if (a[0] == "l") else v) for (n, v), a in zip(S.params.items(), al)}
        S.kind, S.ret = self.invoke(f, al, this, st, fr, 0)
        S.state = st
        S.dead = st.dead
        S.events = st.evs
        S.pc = st.pc
        S.unks = list(self.unks)
        S.value = self.load(st, S.ret) if S.kind == "l" else S.ret
        S.final = {}
        for n, a in zip(S.params, al):
            if a[0] == "l":
                S.final[n] = self.load(st, a[1])
        if this is not None:
            S.final["this"] = self.load(st, self.deref(this))
        return S
