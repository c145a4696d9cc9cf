"""Hash-consed terms of the value-flow domain.

Numbers are multivariate polynomials (Laurent monomials over atoms, exact rational coefficients), so that
re-association, distribution and reordering of arithmetic disappear.  Everything else is a constructor term.
Integers are mathematical integers and floating point numbers are elements of a field (rounding, overflow and
wrap-around are outside the domain; DESIGN.md says so)."""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "a", "id", "_free", "_size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_cnt)
        t._free = None
        t._size = None
        _tab[key] = t
    return t


# ---------------------------------------------------------------- polynomials
# a poly term: op 'poly', a = tuple of (monomial, coef); monomial = tuple of (atom, exp) sorted by atom id
def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    return mk("poly", *[(m, c) for m, c in items])


def num(x):
    if isinstance(x, float):
        x = Fraction(str(x))
    else:
        x = Fraction(x)
    return _poly({(): x})


NUMERIC_OPS = {"poly"}


def pd(t):
    """polynomial dictionary of a term"""
    if t.op == "poly":
        return dict(t.a)
    if t.op == "bool":
        return {(): Fraction(1)} if t.a[0] else {}
    return {((t, 1),): Fraction(1)}


def is_const(t):
    return t.op == "poly" and (len(t.a) == 0 or (len(t.a) == 1 and t.a[0][0] == ()))


def cval(t):
    """Fraction value of a constant, else None"""
    if t.op == "poly":
        if len(t.a) == 0:
            return Fraction(0)
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    if t.op == "bool":
        return Fraction(1 if t.a[0] else 0)
    return None


def cint(t):
    v = cval(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


ZERO = num(0)
ONE = num(1)


def _acc(d, m, c):
    d[m] = d.get(m, 0) + c


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            _acc(d, m, c)
    return _poly(d)


def _mmul(m1, m2):
    e = {}
    for x, k in m1:
        e[x] = e.get(x, 0) + k
    for x, k in m2:
        e[x] = e.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in e.items() if k != 0), key=lambda p: p[0].id))


def mul(a, b):
    d = {}
    pa, pb = pd(a), pd(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            _acc(d, _mmul(m1, m2), c1 * c2)
    return _poly(d)


def scale(a, c):
    c = Fraction(c)
    return _poly({m: v * c for m, v in pd(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    p = pd(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 0:
            return mk("inv", a)
        return _poly({tuple((x, -k) for x, k in m): 1 / c})
    if not p:
        return mk("inv", a)
    # normalise the sign/scale of the denominator: factor out the leading coefficient
    items = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    lead = items[0][1]
    base = scale(a, 1 / lead)
    return scale(_poly({((base_atom(base), -1),): Fraction(1)}), 1 / lead)


def base_atom(t):
    """an atom that stands for a whole polynomial (used for powers of sums)"""
    if t.op != "poly":
        return t
    return mk("paren", t)


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n < 0:
        return inv(powi(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def is_integer_poly(t):
    """all coefficients integers, no negative exponents, and all atoms integer valued"""
    for m, c in pd(t).items():
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or not is_int_atom(x):
                return False
    return True


_ints = set()


def declare_int(t):
    """every atom of t is known to be integer valued (from its C++ type)"""
    for m, _ in pd(t).items():
        for x, _e in m:
            _ints.add(x)


def is_int_atom(x):
    if x in _ints:
        return True
    if x.op == "sym":
        return x.a[1] == "i"
    if x.op in ("trip", "pow2", "maplen", "strfind") or x in _ints:
        return True
    if x.op in ("len", "idiv", "mod", "bv", "trunc", "strlen", "iatom", "ilog2"):
        return True
    if x.op in ("sum", "fold"):
        return False
    if x.op == "bool" or x.op in ("gt", "ge", "eq0", "not", "and", "or"):
        return True
    if x.op in ("sel", "fld", "app", "call"):
        return False
    return False


def idiv(a, b):
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            q = abs(ca) // abs(cb)
            return num(q if (ca >= 0) == (cb >= 0) else -q)
        if cb == 1:
            return a
        p = pd(a)
        if all((c / cb).denominator == 1 for c in p.values()) and all(e > 0 for m in p for _, e in m):
            return scale(a, 1 / cb)
    # exact cancellation of a monomial divisor
    pb = pd(b)
    if len(pb) == 1:
        q = div(a, b)
        ok = all(c.denominator == 1 and all(e > 0 for _, e in m) for m, c in pd(q).items())
        if ok and pd(q):
            return q
    if a == ZERO:
        return ZERO
    return mk("idiv", a, b)


def imod(a, b):
    ca, cb = cint(a), cint(b)
    if ca is not None and cb not in (None, 0):
        r = abs(ca) % abs(cb)
        return num(r if ca >= 0 else -r)
    if cb == 1:
        return ZERO
    return mk("mod", a, b)


# ---------------------------------------------------------------- booleans
TRUE = mk("bool", True)
FALSE = mk("bool", False)
_nonneg = set()


def declare_nonneg(t):
    _nonneg.add(t)


def nonneg_atom(x):
    return x in _nonneg or x.op in ("len", "strlen", "bv", "max0", "trip", "pow2", "maplen", "strfind") or (x.op in ("idiv",) and nonneg(x.a[0]) and nonneg(x.a[1])) or (x.op == "sum" and nonneg(x.a[2])) \
        or (x.op == "bool")


def nonneg(t):
    return all(c > 0 and all(nonneg_atom(x) or e % 2 == 0 for x, e in m) for m, c in pd(t).items())


def gt0(p, isint=True):
    c = cval(p)
    if c is not None:
        return TRUE if c > 0 else FALSE
    if isint:
        d = pd(p)
        k = d.get((), Fraction(0))
        rest = _poly({m: v for m, v in d.items() if m != ()})
        if k >= 1 and nonneg(rest):
            return TRUE
        if k <= 0 and nonneg(neg(rest)):
            return FALSE
        return mk("gt", p)
    # scale to a canonical positive leading magnitude
    d = sorted(pd(p).items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    s = abs(d[-1][1])
    return mk("gtr", scale(p, 1 / s))


def ge0(p, isint=True):
    if isint:
        return gt0(add(p, ONE), True)
    c = cval(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    return lnot(gt0(neg(p), False))


def eq0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    d = pd(p)
    if () in d and d[()] != 0:
        rest = _poly({m: v for m, v in d.items() if m != ()})
        if d[()] > 0 and nonneg(rest):
            return FALSE
        if d[()] < 0 and nonneg(neg(rest)):
            return FALSE
    items = sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    lead = items[-1][1]
    q = scale(p, 1 / lead)
    return mk("eq0", q)


_neg = {}


def lnot(t):
    r = _neg.get(t)
    if r is None:
        r = _neg[t] = lnot_(t)
        if r.op != "bool":
            _neg.setdefault(r, t) if r.op in ("and", "or") and t.op in ("and", "or") else None
    return r


def lnot_(t):
    if t.op == "bool":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "gt":
        return gt0(sub(ONE, t.a[0]), True)
    if t.op == "and":
        return lor(*[lnot(x) for x in t.a])
    if t.op == "or":
        return land(*[lnot(x) for x in t.a])
    if t.op == "ite" and all(x.op == "bool" for x in t.a[1:]):
        return ite(t.a[0], lnot(t.a[1]), lnot(t.a[2]))
    return mk("not", t)


def land(*ts):
    s = []
    for t in ts:
        t = tobool(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.a if t.op == "and" else (t,)):
            if x not in s:
                s.append(x)
    for x in s:
        if lnot(x) in s:
            return FALSE
    u = unit(s, "or", lor)
    if u is not None:
        return land(*u)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk("and", *s)


def unit(s, op, build):
    """c with (not c) inside a dual neighbour: the neighbour loses it; None if nothing changes"""
    if len(s) < 2 or not any(x.op == op for x in s):
        return None
    have = set(s)
    out, change = [], False
    for x in s:
        if x.op == op:
            keep = [y for y in x.a if lnot(y) not in have]
            if len(keep) < len(x.a):
                x, change = build(*keep), True
        out.append(x)
    return out if change else None


def lor(*ts):
    s = []
    for t in ts:
        t = tobool(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.a if t.op == "or" else (t,)):
            if x not in s:
                s.append(x)
    for x in s:
        if lnot(x) in s:
            return TRUE
    u = unit(s, "and", land)
    if u is not None:
        return lor(*u)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk("or", *s)


BOOLOPS = {"bool", "gt", "gtr", "eq0", "not", "and", "or", "same", "has", "streq", "isnull", "keyeq?", "forall"}


def isbool(t):
    return t.op in BOOLOPS or t in _bools or (t.op == "ite" and isbool(t.a[1]) and isbool(t.a[2])) or (t.op == "sym" and t.a[1] == "b")


def tobool(t):
    if isbool(t):
        if t.op == "ite":
            return lor(land(t.a[0], tobool(t.a[1])), land(lnot(t.a[0]), tobool(t.a[2])))
        return t
    if t.op == "poly" or is_int_atom(t):
        return lnot(eq0(t))
    if t.op == "nullptr":
        return FALSE
    if t.op == "ptr":
        return TRUE
    if t.op == "ite":
        return lor(land(t.a[0], tobool(t.a[1])), land(lnot(t.a[0]), tobool(t.a[2])))
    return mk("sameT", t) if False else lnot(mk("isnull", t))


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0] and a.a[1] and b.a[1] and a.a[1][:-1] == b.a[1][:-1] and a.a[1][-1][0] == "i" and b.a[1][-1][0] == "i":
        # the same array at one of two positions
        return mk("ptr", a.a[0], a.a[1][:-1] + (("i", ite(c, a.a[1][-1][1], b.a[1][-1][1])),))
    if a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0]:
        fa, fb = dict(a.a[1]), dict(b.a[1])
        if fa.keys() == fb.keys():
            return struct(a.a[0], {k: ite(c, fa[k], fb[k]) for k in fa})
    if a.op == "setf" or b.op == "setf":
        ba = a.a[0] if a.op == "setf" else a
        bb = b.a[0] if b.op == "setf" else b
        if ba is bb:
            ks = set(k for x in (a, b) if x.op == "setf" for k, _ in x.a[1])
            return setf(ba, {k: ite(c, fld(a, k), fld(b, k)) for k in ks})
    if isbool(a) and isbool(b):
        return lor(land(c, a), land(lnot(c), b))
    if c.op == "gt" and lnot(c).id < c.id:
        c, a, b = lnot(c), b, a
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- structures
def struct(cls, fields):
    return mk("struct", cls, tuple(sorted(fields.items())))


def fld(t, name, cls=None):
    if t.op == "struct":
        for k, v in t.a[1]:
            if k == name:
                return v
        return mk("undef", t.a[0] + "." + name)
    if t.op == "setf":
        for k, v in t.a[1]:
            if k == name:
                return v
        return fld(t.a[0], name)
    if t.op == "ite":
        return ite(t.a[0], fld(t.a[1], name), fld(t.a[2], name))
    return mk("fld", t, name)


def setf(base, fields):
    """an opaque object with some fields overwritten"""
    if base.op == "setf":
        d = dict(base.a[1])
        d.update(fields)
        return setf(base.a[0], d)
    if base.op == "struct":
        d = dict(base.a[1])
        d.update(fields)
        return struct(base.a[0], d)
    fields = {k: v for k, v in fields.items() if not (v.op == "fld" and v.a[0] is base and v.a[1] == k)}
    if not fields:
        return base
    if base.op == "ite":
        return ite(base.a[0], setf(base.a[1], fields), setf(base.a[2], fields))
    return mk("setf", base, tuple(sorted(fields.items())))


def sym(name, ty="r"):
    return mk("sym", name, ty)


_bv = itertools.count()


def fresh_bv():
    return mk("bv", next(_bv))


# ---------------------------------------------------------------- sequences
def lst(*e):
    return mk("list", *e)


def fill(n, v):
    c = cint(n)
    if c is not None and 0 <= c <= 64:
        return mk("list", *([v] * c))
    return mk("fill", n, v)


def gen(k, n, body):
    """sequence of length n whose element k is body"""
    if k not in free(body):
        return fill(n, body)
    c = cint(n)
    if c is not None and 0 <= c <= 64:
        return mk("list", *[subst(body, {k: num(i)}) for i in range(c)])
    # gen over a plain copy of a sequence
    if body.op == "sel" and body.a[1] is k and k not in free(body.a[0]) and seqlen(body.a[0]) is n:
        return body.a[0]
    return mk("gen", k, n, body)


def concat(*ss):
    out = []
    for s in ss:
        if s.op == "concat":
            parts = s.a
        else:
            parts = (s,)
        for p in parts:
            if p.op == "list" and not p.a:
                continue
            if out and out[-1].op == "list" and p.op == "list":
                out[-1] = lst(*(out[-1].a + p.a))
            else:
                out.append(p)
    if not out:
        return lst()
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def seqlen(s):
    if s.op == "list":
        return num(len(s.a))
    if s.op == "fill":
        return s.a[0]
    if s.op == "gen":
        return s.a[1]
    if s.op in ("store", "mstore"):
        return seqlen(s.a[0])
    if s.op == "concat":
        return add(*[seqlen(x) for x in s.a])
    if s.op == "resize":
        return s.a[1]
    if s.op == "flat":
        k, n, b = s.a
        return tsum(k, n, seqlen(b))
    if s.op == "ite":
        return ite(s.a[0], seqlen(s.a[1]), seqlen(s.a[2]))
    if s.op == "str":
        return num(len(s.a[0]))
    if s.op == "slice":
        return s.a[2]
    if s.op in ("undefseq", "outseq"):
        return s.a[1]
    if s.op == "map0":
        return ZERO
    if s in _seqlen:
        return _seqlen[s]
    if s.op in ("cat", "substr", "tostr"):
        return strlen(s)
    return mk("len", s)


_seqlen = {}


def set_len(s, n):
    """declares the length of an opaque sequence"""
    _seqlen[s] = n
    return s


_bools = set()


def declare_bool(t):
    _bools.add(t)


def tonum(t):
    """a boolean used as a number"""
    if t.op != "bool" and isbool(t):
        return ite(t, ONE, ZERO) if t.op != "ite" else ite(t, ONE, ZERO)
    if t.op == "bool":
        return ONE if t.a[0] else ZERO
    return t


def isnum(t):
    return t.op == "poly" or is_int_atom(t)


NONNUM = {"struct", "setf", "list", "fill", "gen", "concat", "str", "cat", "ptr", "nullptr", "clos", "func", "bound", "map0", "mapst", "var", "store", "mstore"}


def isnumlike(t):
    return t.op not in NONNUM and not (t.op == "sym" and t.a[1] in ("p", "o", "str", "seq", "map"))


def tsize(t):
    n = 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        n += 1
        st.extend(children(x))
    return n


def store(s, idx, val):
    """s with s[idx] := val"""
    i = cint(idx)
    if s.op == "list" and i is not None and 0 <= i < len(s.a):
        e = list(s.a)
        e[i] = val
        return lst(*e)
    if s.op == "store" and s.a[1] is idx:
        return store(s.a[0], idx, val)
    if val.op == "sel" and val.a[0] is s and val.a[1] is idx:
        return s
    return mk("store", s, idx, val)


def w_op(guard, idx, val):
    return mk("w", guard, idx, val)


def l_op(k, n, guard, *ops):
    return mk("l", k, n, guard, *ops)


def op_writes(op):
    """(guard, binders, idx, val) of a write program that is a single write, else None"""
    if op.op == "w":
        return op.a[0], (), op.a[1], op.a[2]
    if len(op.a) == 4:
        r = op_writes(op.a[3])
        if r is None:
            return None
        return land(op.a[2], r[0]), ((op.a[0], op.a[1]),) + r[1], r[2], r[3]
    return None


def mstore(s, *ops):
    """s after running a write program: ops are 'w' (guarded write) and 'l' (counted loop of ops) terms"""
    out = s
    pend = []

    def live(o):
        if o.op == "w":
            return o.a[0] is not FALSE
        return o.a[2] is not FALSE and o.a[1] is not ZERO and len(o.a) > 3
    ops = [o for o in ops if live(o)]
    for i, o in enumerate(ops):
        if o.op == "w":
            g, idx, val = o.a
            out = store(out, idx, val if g is TRUE else ite(g, val, sel(out, idx)))
            continue
        k, n, g = o.a[:3]
        c = cint(n)
        if c is not None and 0 <= c <= 64 and out.op == "list":
            for j in range(c):
                sub_ops = [subst(x, {k: num(j)}) for x in o.a[3:]]
                if g is not TRUE:
                    gg = subst(g, {k: num(j)})
                    sub_ops = [mk("w", land(gg, x.a[0]), x.a[1], x.a[2]) if x.op == "w" else mk("l", x.a[0], x.a[1], land(gg, x.a[2]), *x.a[3:]) for x in sub_ops]
                out = mstore(out, *sub_ops)
            continue
        r = op_writes(o)
        if r is not None and r[0] is TRUE and len(r[1]) == 1 and r[2] is r[1][0][0] and r[1][0][1] is seqlen(out):
            out = gen(r[1][0][0], r[1][0][1], r[3])
            continue
        out = mk("mstore", out, o)
    return out


def distinct(i, j):
    d = cval(sub(i, j))
    if d is not None:
        return d != 0
    p = sub(i, j)
    return gt0(p) is TRUE or gt0(neg(p)) is TRUE


def sel(s, i):
    if s.op == "list":
        c = cint(i)
        if c is not None and 0 <= c < len(s.a):
            return s.a[c]
        if c is None and s.a and all(x is s.a[0] for x in s.a):
            return s.a[0]
    elif s.op == "fill":
        return s.a[1]
    elif s.op == "gen":
        return subst(s.a[2], {s.a[0]: i})
    elif s.op == "store":
        base, idx, val = s.a
        if idx is i:
            return val
        if distinct(idx, i):
            return sel(base, i)
    elif s.op == "mstore":
        base, o = s.a
        r = op_writes(o)
        if r is not None:
            g, bs, idx, val = r
            v = _invert(bs, idx, i)
            if v is not None and g is TRUE:
                return subst(val, v)
    elif s.op == "concat":
        off = ZERO
        for p in s.a:
            n = seqlen(p)
            d = sub(i, off)
            if p.op == "list" and cint(d) is not None and 0 <= cint(d) < len(p.a):
                return p.a[cint(d)]
            # i = off + bv with bv ranging below n is handled by the comparison layer
            if cint(d) is not None and cint(d) >= 0 and cint(n) is not None and cint(d) < cint(n):
                return sel(p, d)
            if cint(n) is None and not (gt0(add(sub(d, n), ONE)) is TRUE):
                break
            off = add(off, n)
    elif s.op == "ite":
        return ite(s.a[0], sel(s.a[1], i), sel(s.a[2], i))
    elif s.op == "slice":
        return sel(s.a[0], add(s.a[1], i))
    elif s.op == "str":
        c = cint(i)
        if c is not None and 0 <= c < len(s.a[0]):
            return num(ord(s.a[0][c]))
    return mk("sel", s, i)


def _invert(binders, idx, i):
    """binder values that make idx equal to i, when they can be read off syntactically"""
    if i is idx:
        return {}
    if len(binders) == 1:
        k, n = binders[0]
        d = pd(idx)
        m = ((k, 1),)
        if m in d and abs(d[m]) == 1 and not any(k in (x for x, _ in mm) for mm in d if mm != m) and all(k not in free(x) for mm in d if mm != m for x, _ in mm):
            c = d[m]
            v = scale(sub(i, _poly({mm: cc for mm, cc in d.items() if mm != m})), c)
            # inside the written range?
            if ge0(v) is TRUE and gt0(sub(n, v)) is TRUE:
                return {k: v}
    return None


def tsum(k, n, body):
    if body is ZERO:
        return ZERO
    d = pd(body)
    out = {}
    rest = {}
    for m, c in d.items():
        if all(k not in free(x) for x, _ in m):
            _acc(out, m, c)
        else:
            rest[m] = c
    r = mul(_poly(out), n) if out else ZERO
    c = cint(n)
    if rest:
        if c is not None and 0 <= c <= 64:
            b = _poly(rest)
            return add(r, *[subst(b, {k: num(i)}) for i in range(c)])
        # pull k-free factors and constants out of each monomial; k itself sums in closed form
        terms = []
        for m, co in rest.items():
            fo = tuple((x, e) for x, e in m if k not in free(x))
            fi = tuple((x, e) for x, e in m if k in free(x))
            if fi == ((k, 1),):
                terms.append(mul(_poly({fo: co}), scale(sub(mul(n, n), n), Fraction(1, 2))))
                continue
            terms.append(mul(_poly({fo: co}), mk("sum", k, n, _poly({fi: Fraction(1)}))))
        return add(r, *terms)
    return r


# ---------------------------------------------------------------- strings
def cat(*ss):
    out = []
    for s in ss:
        for p in (s.a if s.op == "cat" else (s,)):
            if p.op == "str" and p.a[0] == "":
                continue
            if out and out[-1].op == "str" and p.op == "str":
                out[-1] = mk("str", out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    if not out:
        return mk("str", "")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def string(s):
    return mk("str", s)


def strlen(t):
    if t.op == "str":
        return num(len(t.a[0]))
    if t.op == "cat":
        return add(*[strlen(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], strlen(t.a[1]), strlen(t.a[2]))
    if t.op == "strresize":
        return t.a[1]
    if t.op == "strfill":
        return t.a[0]
    if t.op == "strrev":
        return strlen(t.a[0])
    return mk("strlen", t)


# ---------------------------------------------------------------- traversal
BINDERS = {"gen": 0, "sum": 0, "flat": 0, "fold": 0, "forall": 0}


def children(t):
    """direct subterms (binder variables excluded)"""
    op = t.op
    if op == "poly":
        for m, _ in t.a:
            for x, _e in m:
                yield x
        return
    if op == "struct":
        for _, v in t.a[1]:
            yield v
        return
    if op == "setf":
        yield t.a[0]
        for _, v in t.a[1]:
            yield v
        return
    if op in ("gen", "sum", "flat", "forall", "scat", "l", "trip"):
        for x in t.a[1:]:
            yield x
        return
    if op == "ptr":
        r = t.a[0]
        for x in _rootterms(r):
            yield x
        for st in t.a[1]:
            if st[0] == "i":
                yield st[1]
        return
    if op == "fold":
        k, n, acc, x0, body = t.a
        yield n
        yield x0
        yield body
        return
    for x in t.a:
        if isinstance(x, T):
            yield x


def _rootterms(r):
    for x in r:
        if isinstance(x, T):
            yield x


def bound(t):
    op = t.op
    if op in ("gen", "sum", "flat", "forall", "scat", "l", "trip"):
        return (t.a[0],)
    if op == "fold":
        return (t.a[0], t.a[2])
    return ()


def free(t):
    """free bound-variable / loop-carried symbols of a term"""
    f = t._free
    if f is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._free is not None:
                stack.pop()
                continue
            pend = [c for c in children(x) if c._free is None]
            if pend:
                stack.extend(pend)
                continue
            s = set()
            for c in children(x):
                s |= c._free
            if x.op in ("bv", "lv"):
                s.add(x)
            for b in bound(x):
                s.discard(b)
            x._free = frozenset(s)
            stack.pop()
        f = t._free
    return f


def rebuild(t, f):
    """rebuild t with its children mapped by f (through the smart constructors); what is known of its type stays known"""
    r = rebuild_(t, f)
    if r is not t and r.op == t.op != "poly":
        if t in _bools:
            _bools.add(r)
        if t in _ints:
            _ints.add(r)
    return r


def rebuild_(t, f):
    op = t.op
    if op == "poly":
        ts = []
        for m, c in t.a:
            r = num(c)
            for x, e in m:
                y = f(x)
                r = mul(r, powi(y, e) if e > 0 else powi(inv(y), -e))
            ts.append(r)
        return add(*ts)
    if op == "struct":
        return struct(t.a[0], {k: f(v) for k, v in t.a[1]})
    if op == "setf":
        return setf(f(t.a[0]), {k: f(v) for k, v in t.a[1]})
    if op == "ptr":
        root = tuple(f(x) if isinstance(x, T) else x for x in t.a[0])
        path = tuple((st[0], f(st[1])) if st[0] == "i" else st for st in t.a[1])
        return mk("ptr", root, path)
    a = [f(x) if isinstance(x, T) else x for x in t.a]
    if op in REB:
        return REB[op](*a)
    return mk(op, *a)


def _fold(k, n, acc, x0, body):
    c = cint(n)
    if c is not None and 0 <= c <= 16:
        x = x0
        for i in range(c):
            x = subst(body, {k: num(i), acc: x})
        return x
    return mk("fold", k, n, acc, x0, body)


def max0(p):
    if nonneg(p):
        return p
    c = cval(p)
    if c is not None:
        return p if c > 0 else ZERO
    return mk("max0", p)


def trunc(t):
    c = cval(t)
    if c is not None:
        n = abs(c.numerator) // c.denominator
        return num(n if c >= 0 else -n)
    if is_integer_poly(t):
        return t
    return mk("trunc", t)


def app(name, *a):
    if all(cval(x) is not None for x in a):
        import math
        v = [cval(x) for x in a]
        if name == "pow" and v[1].denominator == 1 and abs(v[1]) < 64 and not (v[0] == 0 and v[1] <= 0):
            return num(v[0] ** int(v[1]))
        if name == "fabs":
            return num(abs(v[0]))
        if name == "sqrt":
            r = math.isqrt(v[0].numerator), math.isqrt(v[0].denominator)
            if v[0] >= 0 and Fraction(r[0] ** 2, r[1] ** 2) == v[0]:
                return num(Fraction(*r))
        if name == "log2" and v[0] > 0 and v[0].denominator == 1 and (v[0].numerator & (v[0].numerator - 1)) == 0:
            return num(v[0].numerator.bit_length() - 1)
        if name == "max":
            return num(max(v))
        if name == "min":
            return num(min(v))
    if name == "pow" and cint(a[1]) is not None and abs(cint(a[1])) <= 6:
        return powi(a[0], cint(a[1])) if cint(a[1]) >= 0 else inv(powi(a[0], -cint(a[1])))
    if name in ("max", "min"):
        f = []
        for x in a:
            if x.op == "app" and x.a[0] == name:
                f += [y for y in x.a[1:] if y not in f]
            elif x not in f:
                f.append(x)
        if len(f) == 1:
            return f[0]
        f.sort(key=lambda x: x.id)
        a = tuple(f)
    if name == "fabs":
        # |p| = |-p|: pick the sign of the leading coefficient
        d = sorted(pd(a[0]).items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
        if d and d[-1][1] < 0:
            a = (neg(a[0]),)
    return mk("app", name, *a)


REB = {}


def _init_reb():
    REB.update({
        "inv": lambda a: inv(a), "paren": lambda a: base_paren(a), "idiv": idiv, "mod": imod,
        "gt": lambda p: gt0(p, True), "gtr": lambda p: gt0(p, False), "eq0": eq0, "not": lnot, "and": land, "or": lor, "ite": ite,
        "fld": fld, "gen": gen, "fill": fill, "list": lst, "concat": concat, "sel": sel, "len": seqlen, "sum": tsum, "cat": cat, "strlen": strlen,
        "fold": _fold, "max0": max0, "trunc": trunc, "app": lambda name, *a: app(name, *a), "flat": flat, "isnull": isnull, "tostr": tostr,
        "resize": resize, "store": store, "mstore": mstore, "scat": scat, "mget": mget, "mapst": mapst, "slice": tslice, "substr": substr, "streq": streq, "padr": ptr_add, "has": mhas, "strrev": strrev, "keyeq?": keyeq,
    })


def base_paren(a):
    return base_atom(a) if a.op == "poly" else a


def flat(k, n, body):
    if body.op == "list" and len(body.a) == 1:
        return gen(k, n, body.a[0])
    if body.op == "list" and not body.a:
        return lst()
    c = cint(n)
    if c is not None and 0 <= c <= 64:
        return concat(*[subst(body, {k: num(i)}) for i in range(c)])
    return mk("flat", k, n, body)


def scat(k, n, body):
    if body.op == "str" and body.a[0] == "":
        return body
    c = cint(n)
    if c is not None and 0 <= c <= 64:
        return cat(*[subst(body, {k: num(i)}) for i in range(c)])
    return mk("scat", k, n, body)


def mget(m, key):
    """value of a map at a key"""
    if m.op == "mapst":
        e = keyeq(m.a[1], key)
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return mget(m.a[0], key)
    if m.op == "ite":
        return ite(m.a[0], mget(m.a[1], key), mget(m.a[2], key))
    return mk("mget", m, key)


def mapst(m, key, v):
    if m.op == "mapst" and keyeq(m.a[1], key) is TRUE:
        return mapst(m.a[0], key, v)
    if v.op == "mget" and v.a[0] is m and v.a[1] is key:
        return m
    return mk("mapst", m, key, v)


def mhas(m, key):
    """does the map contain the key"""
    if m.op == "map0":
        return FALSE
    if m.op == "mapst":
        e = keyeq(m.a[1], key)
        if e is TRUE:
            return TRUE
        if e is FALSE:
            return mhas(m.a[0], key)
        return lor(e, mhas(m.a[0], key))
    if m.op == "ite":
        return lor(land(m.a[0], mhas(m.a[1], key)), land(lnot(m.a[0]), mhas(m.a[2], key)))
    return mk("has", m, key)


def maplen(m):
    """number of entries: counted when every key is known to be there or not"""
    if m.op == "map0":
        return ZERO
    if m.op == "mapst":
        h = mhas(m.a[0], m.a[1])
        if h is TRUE:
            return maplen(m.a[0])
        if h is FALSE:
            return add(maplen(m.a[0]), ONE)
    return mk("maplen", m)


def strfind(how, s, needle, pos):
    if s.op == "str" and needle.op == "str":
        # find, find_first_of ... of constant texts
        last = how in ("rfind", "find_last_of", "find_last_not_of")
        at = len(s.a[0]) if pos.op == "npos" else cval(pos)
        if at is not None and at == int(at) and at >= 0:
            r, at, x, y = -1, int(at), s.a[0], needle.a[0]
            if how == "find":
                r = x.find(y, at) if at <= len(x) else -1
            elif how == "rfind":
                r = x.rfind(y, 0, at + len(y))
            elif how in ("find_first_of", "find_first_not_of"):
                r = next((i for i in range(at, len(x)) if (x[i] in y) != ("not" in how)), -1)
            elif how in ("find_last_of", "find_last_not_of"):
                r = next((i for i in range(min(at, len(x) - 1), -1, -1) if (x[i] in y) != ("not" in how)), -1)
            else:
                return _strfind(how, s, needle, pos)
            return num(2 ** 64 - 1 if r < 0 else r)
    return _strfind(how, s, needle, pos)


def _strfind(how, s, needle, pos):
    r = mk("strfind", how, s, needle, pos)
    _ints.add(r)
    return r


def strrev(s):
    if s.op == "str":
        return string(s.a[0][::-1])
    if s.op == "strrev":
        return s.a[0]
    return mk("strrev", s)


def keyeq(a, b):
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return FALSE
    if cval(a) is not None and cval(b) is not None:
        return FALSE
    return mk("keyeq?", a, b)


def isnull(t):
    if t.op == "nullptr":
        return TRUE
    if t.op in ("ptr", "newobj"):
        return FALSE
    if t.op == "ite":
        return lor(land(t.a[0], isnull(t.a[1])), land(lnot(t.a[0]), isnull(t.a[2])))
    if cval(t) is not None:
        return TRUE if cval(t) == 0 else FALSE
    return mk("isnull", t)


def tostr(t, how="to_string"):
    c = cint(t)
    if c is not None and how == "int":
        return string(str(c))
    return mk("tostr", t, how)


def resize(s, n, v):
    if seqlen(s) is n:
        return s
    if s.op == "list" and not s.a:
        return fill(n, v)
    c = cint(n)
    if s.op == "list" and c is not None and 0 <= c <= 64:
        return lst(*(s.a[:c] + (v,) * (c - len(s.a))))
    return mk("resize", s, n, v)


def tslice(s, a, n):
    if a is ZERO and n is seqlen(s):
        return s
    ca, cn = cint(a), cint(n)
    if s.op == "list" and ca is not None and cn is not None and 0 <= ca <= ca + cn <= len(s.a):
        return lst(*s.a[ca:ca + cn])
    if s.op == "concat":
        off = ZERO
        # a slice that is exactly a run of parts
        for i, p in enumerate(s.a):
            if off is a:
                tot = ZERO
                for j in range(i, len(s.a)):
                    tot = add(tot, seqlen(s.a[j]))
                    if tot is n:
                        return concat(*s.a[i:j + 1])
            off = add(off, seqlen(p))
    if s.op == "slice":
        return tslice(s.a[0], add(s.a[1], a), n)
    if s.op == "fill":
        return fill(n, s.a[1])
    if s.op == "gen":
        k = fresh_bv()
        return gen(k, n, subst(s.a[2], {s.a[0]: add(a, k)}))
    return mk("slice", s, a, n)


def substr(s, a, n):
    ca, cn = cint(a), (cint(n) if n.op != "npos" else None)
    if ca is not None and ca >= 2 ** 64:        # positions are unsigned: npos + 1 is 0
        ca, a = ca - 2 ** 64, num(ca - 2 ** 64)
    if cn is not None and cn >= 2 ** 63:
        cn, n = None, mk("npos")
    if s.op == "str" and ca is not None and 0 <= ca <= len(s.a[0]):
        if n.op == "npos":
            return string(s.a[0][ca:])
        if cn is not None:
            return string(s.a[0][ca:ca + cn])
    if a is ZERO and (n.op == "npos" or n is strlen(s)):
        return s
    if a is ZERO and s.op == "cat" and s.a[-1].op == "str":
        # all but the last few characters
        d = cint(sub(strlen(s), n))
        if d is not None and 0 <= d <= len(s.a[-1].a[0]):
            return cat(*s.a[:-1], string(s.a[-1].a[0][:len(s.a[-1].a[0]) - d]))
    if ca is not None and n.op == "npos" and s.op == "cat" and s.a[0].op == "str" and 0 <= ca <= len(s.a[0].a[0]):
        return cat(string(s.a[0].a[0][ca:]), *s.a[1:])
    return mk("substr", s, a, n)


def streq(a, b):
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "cat":
        a, b = b, a
    if a.op == "str" and b.op == "cat":
        # the pieces that are known do not fit
        x, f, l = a.a[0], b.a[0], b.a[-1]
        if sum(len(p.a[0]) for p in b.a if p.op == "str") > len(x) or f.op == "str" and not x.startswith(f.a[0]) or l.op == "str" and not x.endswith(l.a[0]):
            return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("streq", a, b)


def ptr_add(p, n):
    if n is ZERO:
        return p
    if p.op == "ptr" and p.a[1] and p.a[1][-1][0] == "i":
        return mk("ptr", p.a[0], p.a[1][:-1] + (("i", add(p.a[1][-1][1], n)),))
    if p.op == "ptr":
        return mk("ptr", p.a[0], p.a[1] + (("i", n),))
    if p.op == "ite":
        return ite(p.a[0], ptr_add(p.a[1], n), ptr_add(p.a[2], n))
    if p.op == "padr":
        return ptr_add(p.a[0], add(p.a[1], n))
    return mk("padr", p, n)


_init_reb()


def subst(t, env):
    """capture-free substitution of bv/lv symbols (binder variables are globally fresh)"""
    if not env:
        return t
    keys = frozenset(env)
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in env:
            return env[x]
        if not (free(x) & keys):
            memo[x] = x
            return x
        r = rebuild(x, go)
        memo[x] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def replace(t, env):
    """replace arbitrary subterms (by identity) everywhere"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in env:
            return env[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def contains(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(children(x))
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def alpha(t):
    """rename bound variables canonically (by binder depth) so that alpha-equal terms become identical"""
    memo = {}

    def go(x, env, depth):
        key = (x, tuple(sorted((k.id, v.id) for k, v in env.items() if k in free(x))), depth)
        r = memo.get(key)
        if r is not None:
            return r
        if x in env:
            return env[x]
        bs = bound(x)
        e2, d2 = env, depth
        if bs:
            e2 = dict(env)
            for b in bs:
                e2[b] = mk("bv", "d%d" % d2)
                d2 += 1
        if not bs and not children_any(x):
            memo[key] = x
            return x
        op = x.op
        if op in ("gen", "sum", "flat", "forall", "scat"):
            n = go(x.a[1], env, depth)
            b = go(x.a[2], e2, d2)
            r = mk(op, e2[x.a[0]], n, b)
        elif op == "trip":
            r = mk("trip", e2[x.a[0]], go(x.a[1], e2, d2))
        elif op == "l":
            r = mk("l", e2[x.a[0]], go(x.a[1], env, depth), *[go(y, e2, d2) for y in x.a[2:]])
        elif op == "fold":
            r = mk(op, e2[x.a[0]], go(x.a[1], env, depth), e2[x.a[2]], go(x.a[3], env, depth), go(x.a[4], e2, d2))
        else:
            r = rebuild(x, lambda c: go(c, env, depth))
        memo[key] = r
        return r
    return go(t, {}, 0)


def children_any(x):
    for _ in children(x):
        return True
    return False


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return "…"
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == "poly":
        if not t.a:
            return "0"
        out = []
        for m, c in t.a:
            f = []
            for x, e in m:
                b = s(x)
                f.append(b if e == 1 else "%s^%d" % (b, e))
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append(str(c) + "*" + "*".join(f))
        return "(" + " + ".join(out) + ")"
    if op == "sym":
        return t.a[0]
    if op == "bv":
        return "k%s" % t.a[0]
    if op == "lv":
        return "lv%s" % (t.a[0],)
    if op == "str":
        return repr(t.a[0])
    if op == "bool":
        return str(t.a[0])
    if op == "fld":
        return s(t.a[0]) + "." + t.a[1]
    if op == "sel":
        return s(t.a[0]) + "[" + s(t.a[1]) + "]"
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in t.a)
    if op == "gt":
        return s(t.a[0]) + ">0"
    if op == "eq0":
        return s(t.a[0]) + "==0"
    if op == "struct":
        return t.a[0].split("::")[-1] + "{" + ", ".join("%s=%s" % (k, s(v)) for k, v in t.a[1]) + "}"
    if op == "setf":
        return s(t.a[0]) + "{" + ", ".join("%s:=%s" % (k, s(v)) for k, v in t.a[1]) + "}"
    if op == "ptr":
        return "&" + "/".join(s(x) if isinstance(x, T) else str(x) for x in t.a[0]) + "".join("." + st[1] if st[0] == "f" else "[" + s(st[1]) + "]" for st in t.a[1])
    return op + "(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.a) + ")"
