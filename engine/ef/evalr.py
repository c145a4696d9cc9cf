"""Random interpretation of value-flow terms (Gulwani-Necula style refutation).

Two summaries whose normal forms differ are compared under interpretations that give every opaque input a hashed value.
Only a difference is conclusive (two terms that denote different functions); agreement proves nothing and is reported
as 'unresolved'.  No code of the repository is executed: what is evaluated are the closed terms of the analysis."""
import hashlib
import math
import re
import sys
from fractions import Fraction
from . import terms as T

sys.setrecursionlimit(200000)
NPOS = 2 ** 64 - 1


class Undef(Exception):
    """the term has no value here (undefined read, index out of range, division by zero)"""


class Endless(Undef):
    """a loop comes back to a former state: it never ends"""


class Discard(Exception):
    """this interpretation is outside the domain (budget, precondition)"""


class Unknown(Exception):
    """the analysis could not express the value"""


class Und:
    def __repr__(self):
        return "<undef>"


UND = Und()
UNIT = ("unit",)


class Tok:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return path(self.key)

    def __eq__(self, o):
        return isinstance(o, Tok) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


def path(k):
    if not isinstance(k, tuple):
        return str(k)
    if k and k[0] == "sym":
        return k[1]
    if k and k[0] == ".":
        return path(k[1]) + "." + k[2]
    if k and k[0] == "[":
        return path(k[1]) + "[" + str(k[2]) + "]"
    if k and k[0] == "*":
        return "*" + path(k[1])
    return "%s(%s)" % (k[0], ",".join(path(x) for x in k[1:])) if k else "()"


def shape(k):
    if not isinstance(k, tuple):
        return k if isinstance(k, str) else "#"
    if k and k[0] == "[":
        return ("[", shape(k[1]))
    return tuple(shape(x) for x in k)


class Rec:
    __slots__ = ("cls", "d", "base")

    def __init__(self, cls, d, base=None):
        self.cls, self.d, self.base = cls, d, base

    def __repr__(self):
        return "%s%s{%s}" % (self.cls.split("::")[-1][:20], "|" + repr(self.base) if self.base else "", ", ".join("%s=%r" % (k, v) for k, v in sorted(self.d.items())))


class Ptr:
    __slots__ = ("root", "path")

    def __init__(self, root, path_):
        self.root, self.path = root, path_

    def __repr__(self):
        return "&" + repr(self.root) + "".join("." + str(s[1]) if s[0] == "f" else "[%s]" % (s[1],) for s in self.path)


class Var:
    __slots__ = ("alt", "v")

    def __init__(self, alt, v):
        self.alt, self.v = alt, v

    def __repr__(self):
        return "variant<%s>(%r)" % (self.alt, self.v)


class MapV:
    __slots__ = ("base", "upd")

    def __init__(self, base, upd):
        self.base, self.upd = base, upd

    def __repr__(self):
        return "map(%r, %r)" % (self.base, self.upd)


def hnum(seed, key, lo, hi):
    h = hashlib.blake2b(repr((seed, key)).encode(), digest_size=8).digest()
    return lo + int.from_bytes(h, "big") % (hi - lo + 1)


class Ctx:
    BUDGET = 400000
    LIMIT = 300

    def __init__(self, seed, assign=None, ops=None, intrange=(-1, 6), realrange=(2, 97)):
        self.seed = seed
        self.assign = assign or (lambda p: None)
        self.ops = ops or {}
        self.intrange, self.realrange = intrange, realrange
        self.forced = {}
        self.shapes = set()
        self.lens = {}
        self.strs = {}
        self.memo = {}
        self.held = []
        self.steps = 0
        self.mem = None
        self.mode = None

    # ---------------------------------------------------------- tokens
    def tok(self, key):
        v = self.assign(path(key))
        if v is not None:
            return v
        return Tok(key)

    def num(self, v, isint=False):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, Tok):
            self.shapes.add(shape(v.key))
            r = self.forced.get(v.key)
            if r is None:
                k = v.key
                if k[0] == "." and k[2] in ("size_", "nrows_", "ncols_"):
                    r = self.extent(k)
                elif isint:
                    r = hnum(self.seed, v.key, *self.intrange)
                else:
                    r = self.real(v.key)
                self.forced[v.key] = r
            if isinstance(r, bool):
                return int(r)
            return r
        if v is UND:
            raise Undef("uninitialised value used")
        raise Unknown("number expected, got %r" % (v,))

    def extent(self, k):
        """sizes of a container agree with its data"""
        if k[2] == "size_":
            return self.length(Tok((".", k[1], "data_")))
        return hnum(self.seed, k, 0, 3)

    def real(self, key):
        """a value for an opaque real: mostly generic, in some interpretations degenerate (zeros, ones, equal, negative)"""
        m = self.mode
        if m is None:
            lo, hi = self.realrange
            m = self.mode = hnum(self.seed, "mode", 0, 9) if lo >= 0 else 0
        if m in (0, 1, 2, 3, 4):
            return hnum(self.seed, key, *self.realrange)
        if m == 5:
            return hnum(self.seed, key, -9, 9)
        if m == 6:
            return hnum(self.seed, key, 0, 1)
        g = ("group", shape(key))
        if m == 9 or hnum(self.seed, ("constant", g), 0, 1):
            return hnum(self.seed, g, -1, 2)
        return hnum(self.seed, key, *self.realrange)

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, Tok):
            r = self.forced.get(v.key)
            if r is None:
                r = self.assign(path(v.key))
                r = bool(hnum(self.seed, v.key, 0, 1)) if r is None else r
                self.forced[v.key] = r
            return bool(r)
        if v is UND:
            raise Undef("uninitialised value used")
        raise Unknown("boolean expected")

    def string(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Tok):
            r = self.strs.get(v.key)
            if r is None:
                if self.seed % 4 == 3:
                    r = self.strs[v.key] = "".join(chr(97 + hnum(self.seed, ("letter", i, v.key), 0, 25)) for i in range(hnum(self.seed, ("strlen", v.key), 0, 3)))
                    return r
                r = self.strs[v.key] = "\u00ab" + path(v.key) + "\u00bb" + "~" * hnum(self.seed, ("strlen", v.key), 0, 3)
            return r
        if v is UND:
            raise Undef("uninitialised value used")
        if isinstance(v, list):
            return "".join(chr(int(self.num(x))) if not isinstance(x, str) else x for x in v)
        raise Unknown("string expected, got %r" % (v,))

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Tok):
            n = self.length(v)
            return [self.tok(("[", v.key, i)) for i in range(n)]
        if v is UND:
            raise Undef("uninitialised value used")
        if isinstance(v, str):
            return [ord(c) for c in v]
        raise Unknown("sequence expected, got %r" % (v,))

    def length(self, v):
        if isinstance(v, (list, str)):
            return len(v)
        if isinstance(v, Tok):
            n = self.lens.get(v.key)
            if n is None:
                n = self.assign("len(" + path(v.key) + ")")
                if n is None and v.key[0] == "." and v.key[2] == "data_" and "M.mul" in self.ops:
                    from . import adt
                    m = Tok(v.key[1])
                    n = adt.dim(self, m, "nrows_") * adt.dim(self, m, "ncols_")
                if n is None and v.key[0] == "." and v.key[2] == "data_" and (".", v.key[1], "nrows_") in self.forced:
                    n = self.num(Tok((".", v.key[1], "nrows_"))) * self.num(Tok((".", v.key[1], "ncols_")))
                if n is None:
                    n = hnum(self.seed, ("len", v.key), 0, 4)
                self.lens[v.key] = n
            return n
        if v is UND:
            raise Undef("uninitialised value used")
        raise Unknown("length of %r" % (v,))

    # ---------------------------------------------------------- canonical keys
    def freeze(self, v):
        if isinstance(v, bool):
            return ("n", Fraction(int(v)))
        if isinstance(v, (int, Fraction)):
            return ("n", Fraction(v))
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, Tok):
            if v.key in self.forced:
                r = self.forced[v.key]
                return ("n", Fraction(int(r) if isinstance(r, bool) else r))
            if v.key in self.strs:
                return ("s", self.strs[v.key])
            if v.key in self.lens:
                return ("l",) + tuple(self.freeze(x) for x in self.seq(v))
            if shape(v.key) in self.shapes:
                return ("n", Fraction(self.num(v)))
            return ("t", v.key)
        if isinstance(v, list):
            return ("l",) + tuple(self.freeze(x) for x in v)
        if isinstance(v, Rec):
            d = dict(v.d)
            if v.base is not None:
                b = self.freeze(v.base)
                items = tuple(sorted((k, self.freeze(x)) for k, x in d.items() if self.freeze(x) != self.freeze(self.fld(v.base, k))))
                return ("r", b, items) if items else b
            return ("r", v.cls, tuple(sorted((k, self.freeze(x)) for k, x in d.items())))
        if isinstance(v, Ptr):
            return ("p", v.root, tuple((s[0], s[1]) for s in v.path))
        if isinstance(v, Var):
            return ("v", v.alt, self.freeze(v.v))
        if isinstance(v, MapV):
            return ("m", self.freeze(v.base) if v.base is not None else None, tuple(sorted((repr(k), self.freeze(x[0]) if x is not None else None) for k, x in v.upd.items())))
        if v is UND:
            return ("undef",)
        if isinstance(v, tuple):
            return v
        f = getattr(v, "freeze", None)
        if f:
            return f(self)
        raise Unknown("freeze %r" % (v,))

    # ---------------------------------------------------------- structure
    def fld(self, v, name):
        if isinstance(v, Rec):
            if name in v.d:
                return v.d[name]
            if v.base is not None:
                return self.fld(v.base, name)
            return UND
        if isinstance(v, Tok):
            return self.tok((".", v.key, name))
        if v is UND:
            raise Undef("field %s of an uninitialised object" % name)
        if isinstance(v, tuple) and v and v[0] == "null":
            raise Undef("null dereference")
        if isinstance(v, list) and name in ("size_", "data_"):
            return len(v) if name == "size_" else v
        g = getattr(v, "field", None)
        if g:
            return g(self, name)
        raise Unknown("field %s of %r" % (name, v))

    def sel(self, v, i):
        if isinstance(v, Tok):
            n = self.length(v)
            if not (0 <= i < n):
                raise Undef("index %s outside [0,%s) of %s" % (i, n, path(v.key)))
            return self.tok(("[", v.key, int(i)))
        if isinstance(v, str):
            if i == len(v):
                return 0
            v = [ord(c) for c in v]
        if v is UND:
            raise Undef("element of an uninitialised object")
        if not isinstance(v, list):
            raise Unknown("element of %r" % (v,))
        if isinstance(i, Fraction):
            if i.denominator != 1:
                raise Undef("fractional index")
            i = int(i)
        if not (0 <= i < len(v)):
            raise Undef("index %s outside [0,%d)" % (i, len(v)))
        return v[i]

    def loadptr(self, p):
        """content of an evaluated pointer in the final memory of a summary"""
        if isinstance(p, Ptr):
            v = self.root_value(p.root)
            for s in p.path:
                v = self.fld(v, s[1]) if s[0] == "f" else self.sel(v, s[1]) if s[0] == "i" else self.mget(v, s[1])
            return v
        if isinstance(p, Tok):
            return self.tok(("*", p.key))
        raise Unknown("load of %r" % (p,))

    def root_value(self, root):
        ip, mem = self.mem
        for r, t in mem.items():
            if r[:2] == root[:2]:
                if len(r) == len(root) and all(not isinstance(x, T.T) for x in r[2:]):
                    if self.rootkey(r, {}) == root:
                        return self.ev(t, {})
                elif len(r) == len(root):
                    env = {}
                    ok = True
                    for a, b in zip(r[2:], root[2:]):
                        if isinstance(a, T.T) and a.op == "bv":
                            env[a] = b
                        elif isinstance(a, T.T):
                            ok = ok and self.ev(a, env) == b
                        else:
                            ok = ok and a == b
                    if ok:
                        return self.ev(t, env)
        if root[0] == "h":
            return Tok(("*",) + (root[1][1] if isinstance(root[1], tuple) and root[1][0] == "t" else root[1],))
        for r in ip.rootinit:
            if self.rootkey(r, {}) == root:
                return self.ev(ip.rootinit[r], {})
        raise Unknown("unknown location %r" % (root,))

    def rootkey(self, r, env):
        out = []
        for x in r:
            if isinstance(x, T.T):
                if not (T.free(x) <= env.keys()):
                    out.append(("bv", x.id))
                else:
                    y = self.ev(x, env)
                    out.append(int(y) if isinstance(y, (int, Fraction)) else self.freeze(y))
            else:
                out.append(x)
        return tuple(out)

    # ---------------------------------------------------------- maps
    def mkey(self, k):
        return self.freeze(k)

    def mget(self, m, k):
        kk = self.mkey(k)
        if isinstance(m, MapV):
            if kk in m.upd:
                x = m.upd[kk]
                if x is None:
                    raise Undef("missing map key")
                return x[0]
            if m.base is None:
                raise Undef("missing map key %r" % (k,))
            return self.mget(m.base, k)
        if isinstance(m, Tok):
            return self.tok(("@", m.key, kk))
        if m is UND:
            raise Undef("uninitialised map")
        raise Unknown("map get on %r" % (m,))

    def mhas(self, m, k):
        kk = self.mkey(k)
        if isinstance(m, MapV):
            if kk in m.upd:
                return m.upd[kk] is not None
            return False if m.base is None else self.mhas(m.base, k)
        if isinstance(m, Tok):
            v = self.assign("has(%s,%s)" % (path(m.key), k if isinstance(k, str) else kk))
            return self.boolean(v) if v is not None else bool(hnum(self.seed, ("has", m.key, kk), 0, 1))
        if m is UND:
            raise Undef("uninitialised map")
        raise Unknown("map has on %r" % (m,))

    # ---------------------------------------------------------- terms
    def ev(self, t, env):
        fr = FREE.get(t)
        if fr is None:
            fr = FREE[t] = tuple(sorted(T.free(t), key=lambda z: z.id))
        held = None
        if fr:
            key = [t]
            for b in fr:
                v = env.get(b)
                if isinstance(v, (list, Rec, MapV)):
                    # values are never changed in place: the object itself is the key, kept alive by the entry
                    held = (held or []) + [v]
                    v = ("#", id(v))
                key.append(v)
            key = tuple(key)
        else:
            key = t
        if key is not None:
            try:
                r = self.memo.get(key)
            except TypeError:
                key, r = None, None
            if r is not None:
                return r
        self.steps += 1
        if self.steps > self.BUDGET:
            raise Discard("budget")
        r = self.ev_(t, env)
        if T.is_int_atom(t) and isinstance(r, Tok):
            r = self.num(r, True)
        elif isinstance(r, Tok) and T.isbool(t):
            r = self.boolean(r)
        if key is not None:
            self.memo[key] = r
            if held:
                self.held.append(held)
        return r

    def n(self, t, env):
        v = self.ev(t, env)
        return self.num(v, T.is_int_atom(t))

    def i(self, t, env):
        v = self.num(self.ev(t, env), True)
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Undef("fractional count")
            v = int(v)
        return v

    def count(self, t, env):
        n = self.i(t, env)
        if n > self.LIMIT:
            raise Discard("count %s" % n)
        return max(n, 0)

    def ev_(self, t, env):
        m = getattr(self, "o_" + OPN.get(t.op, t.op), None)
        if m is None:
            raise Unknown("term " + t.op)
        return m(t.a, env, t)

    def o_poly(self, a, env, t):
        s = 0
        for m, c in t.a:
            p = c
            for x, e in m:
                v = self.n(x, env)
                if e < 0:
                    if v == 0:
                        raise Undef("division by zero")
                    p = p * Fraction(1) / (Fraction(v) ** (-e))
                else:
                    p = p * (v ** e)
            s = s + p
        if isinstance(s, Fraction) and s.denominator == 1:
            s = int(s)
        return s

    def o_bool(self, a, env, t):
        return a[0]

    def o_sym(self, a, env, t):
        key = ("sym", a[0])
        if t in T._seqlen and key not in self.lens:
            v = self.assign(a[0])
            if v is None:
                self.lens[key] = self.count(T._seqlen[t], env)
        v = self.tok(key)
        if a[1] == "i" and isinstance(v, Tok):
            if t in T._nonneg:
                v = self.forced.setdefault(key, hnum(self.seed, key, 0, max(self.intrange)))
                return v
            return self.num(v, True)
        if a[1] == "r" and isinstance(v, Tok):
            return self.num(v)
        if a[1] == "b" and isinstance(v, Tok):
            return self.boolean(v)
        return v

    def o_bv(self, a, env, t):
        if t in env:
            return env[t]
        raise Unknown("free variable")
    o_lv = o_bv

    def o_str(self, a, env, t):
        return a[0]

    def o_undef(self, a, env, t):
        return UND

    def o_unk(self, a, env, t):
        raise Unknown(a[0])

    def o_unit(self, a, env, t):
        return UNIT

    def o_nullptr(self, a, env, t):
        return ("null",)

    def o_npos(self, a, env, t):
        return NPOS

    def o_undefseq(self, a, env, t):
        return [UND] * self.count(a[1], env)

    def o_outseq(self, a, env, t):
        o = self.ev(a[0], env)
        n = self.count(a[1], env)
        if isinstance(o, Tok):
            return [self.tok(("[", o.key, i)) for i in range(n)]
        return self.seq(o)

    def o_paren(self, a, env, t):
        return self.ev(a[0], env)

    def o_inv(self, a, env, t):
        v = self.n(a[0], env)
        if v == 0:
            raise Undef("division by zero")
        return Fraction(1) / v

    def o_idiv(self, a, env, t):
        x, y = self.i(a[0], env), self.i(a[1], env)
        if y == 0:
            raise Undef("division by zero")
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q

    def o_mod(self, a, env, t):
        x, y = self.i(a[0], env), self.i(a[1], env)
        if y == 0:
            raise Undef("division by zero")
        r = abs(x) % abs(y)
        return r if x >= 0 else -r

    def o_trunc(self, a, env, t):
        return int(self.n(a[0], env))

    def o_max0(self, a, env, t):
        return max(0, self.n(a[0], env))

    def o_pow2(self, a, env, t):
        n = self.i(a[0], env)
        if not 0 <= n < 64:
            raise Undef("shift")
        return 2 ** n

    def o_gt(self, a, env, t):
        return self.n(a[0], env) > 0
    o_gtr = o_gt

    def o_eq0(self, a, env, t):
        return self.n(a[0], env) == 0

    def o_not(self, a, env, t):
        return not self.boolean(self.ev(a[0], env))

    def o_and(self, a, env, t):
        err = None
        for x in a:
            try:
                if not self.boolean(self.ev(x, env)):
                    return False
            except (Undef, Unknown) as e:
                err = e
        if err:
            raise err
        return True

    def o_or(self, a, env, t):
        err = None
        for x in a:
            try:
                if self.boolean(self.ev(x, env)):
                    return True
            except (Undef, Unknown) as e:
                err = e
        if err:
            raise err
        return False

    def o_ite(self, a, env, t):
        return self.ev(a[1] if self.boolean(self.ev(a[0], env)) else a[2], env)

    def o_same(self, a, env, t):
        return self.freeze(self.ev(a[0], env)) == self.freeze(self.ev(a[1], env))

    def o_keyeq(self, a, env, t):
        return self.freeze(self.ev(a[0], env)) == self.freeze(self.ev(a[1], env))

    def o_streq(self, a, env, t):
        return self.string(self.ev(a[0], env)) == self.string(self.ev(a[1], env))

    def o_isnull(self, a, env, t):
        v = self.ev(a[0], env)
        if isinstance(v, tuple) and v and v[0] == "null":
            return True
        if isinstance(v, Tok):
            return self.null(v)
        if isinstance(v, (int, Fraction)):
            return v == 0
        if v is UND:
            raise Undef("uninitialised pointer")
        return False

    def null(self, v):
        a = self.assign("null(" + path(v.key) + ")")
        if a is not None:
            return bool(a)
        return hnum(self.seed, ("null", v.key), 0, 2) == 0

    def o_struct(self, a, env, t):
        return Rec(a[0], {k: self.lazy(v, env) for k, v in a[1]})

    def lazy(self, t, env):
        try:
            return self.ev(t, env)
        except Undef:
            return UND
        except Unknown as e:
            return Bad(str(e))

    def o_setf(self, a, env, t):
        b = self.ev(a[0], env)
        d = {k: self.lazy(v, env) for k, v in a[1]}
        if isinstance(b, Rec):
            x = dict(b.d)
            x.update(d)
            return Rec(b.cls, x, b.base)
        if b is UND:
            return Rec("?", d)
        g = getattr(b, "setfield", None)
        if g:
            return g(self, d)
        if isinstance(b, list):
            return self.seq(d.get("data_", b))
        return Rec("?", d, b)

    def o_fld(self, a, env, t):
        v = self.fld(self.ev(a[0], env), a[1])
        if isinstance(v, Bad):
            raise Unknown(v.why)
        return v

    def o_deref(self, a, env, t):
        v = self.ev(a[0], env)
        if isinstance(v, Tok):
            return self.tok(("*", v.key))
        if isinstance(v, Ptr):
            return self.loadptr(v)
        if isinstance(v, tuple) and v and v[0] == "null":
            raise Undef("null dereference")
        if v is UND:
            raise Undef("uninitialised pointer")
        raise Unknown("dereference of %r" % (v,))

    def o_padr(self, a, env, t):
        return Ptr(("h", self.freeze(self.ev(a[0], env))), (("i", self.i(a[1], env)),))

    def o_list(self, a, env, t):
        return [self.lazy(x, env) for x in a]

    def o_fill(self, a, env, t):
        n = self.count(a[0], env)
        return [self.lazy(a[1], env)] * n if n else []

    def o_gen(self, a, env, t):
        k, n, b = a
        out = []
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            out.append(self.lazy(b, e))
        return out

    def o_flat(self, a, env, t):
        k, n, b = a
        out = []
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            out += self.seq(self.ev(b, e))
        return out

    def o_scat(self, a, env, t):
        k, n, b = a
        out = []
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            out.append(self.string(self.ev(b, e)))
        return "".join(out)

    def o_concat(self, a, env, t):
        out = []
        for x in a:
            out = out + self.seq(self.ev(x, env))
        return out

    def o_sum(self, a, env, t):
        k, n, b = a
        s = 0
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            s = s + self.n(b, e)
        return s

    def o_fold(self, a, env, t):
        k, n, acc, x0, body = a
        x = self.ev(x0, env)
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            e[acc] = x
            x = self.ev(body, e)
        return x

    def o_trip(self, a, env, t):
        k, c = a
        for i in range(self.LIMIT):
            e = dict(env)
            e[k] = i
            if not self.boolean(self.ev(c, e)):
                return i
        if self.cyclic(k, c, env):
            raise Endless("loop that never ends")
        raise Discard("loop does not end in %d steps" % self.LIMIT)

    def cyclic(self, k, c, env):
        """does the state the condition depends on come back to a former value, without the step number entering it?"""
        states, seen = [], set()

        def go(x):
            if not isinstance(x, T.T) or x in seen:
                return True
            seen.add(x)
            if x is k:
                return False
            if k not in T.free(x):
                return True
            if x.op == "fold" and x.a[1] is k:
                states.append(x)
                return k not in T.free(x.a[3]) and x.a[0] not in T.free(x.a[4]) and k not in T.free(x.a[4])
            return all(go(y) for y in T.children(x))

        def grows(q):
            if q.op not in ("gt", "gtr"):
                return False
            for m, co in T.pd(q.a[0]).items():
                own = any(y is k for y, _ in m)
                if any(k in T.free(y) and y is not k for y, _ in m) or own and (co < 0 or len(m) > 1):
                    return False
            return True
        if not all(grows(q) or go(q) for q in (c.a if c.op == "and" else (c,))):
            return False
        if not states:
            return True
        had = set()
        for i in range(self.LIMIT - 40, self.LIMIT):
            e = dict(env)
            e[k] = i
            v = tuple(self.freeze(self.ev(x, e)) for x in states)
            if v in had:
                return True
            had.add(v)
        return False

    def o_sel(self, a, env, t):
        # element of a write program / generator without building it when possible
        v = self.ev(a[0], env)
        i = self.i(a[1], env)
        r = self.sel(v, i)
        if isinstance(r, Bad):
            raise Unknown(r.why)
        return r

    def o_store(self, a, env, t):
        s = list(self.seq(self.ev(a[0], env)))
        i = self.i(a[1], env)
        if not 0 <= i < len(s):
            raise Undef("write index %s outside [0,%d)" % (i, len(s)))
        s[i] = self.lazy(a[2], env)
        return s

    def o_mstore(self, a, env, t):
        s = list(self.seq(self.ev(a[0], env)))
        self.prog(a[1], env, s)
        return s

    def prog(self, o, env, s):
        if o.op == "w":
            g, idx, val = o.a
            if not self.boolean(self.ev(g, env)):
                return
            i = self.i(idx, env)
            if not 0 <= i < len(s):
                raise Undef("write index %s outside [0,%d)" % (i, len(s)))
            s[i] = self.lazy(val, env)
            return
        k, n, g = o.a[:3]
        for i in range(self.count(n, env)):
            e = dict(env)
            e[k] = i
            if self.boolean(self.ev(g, e)):
                for x in o.a[3:]:
                    self.prog(x, e, s)

    def o_resize(self, a, env, t):
        s = self.seq(self.ev(a[0], env))
        n = self.count(a[1], env)
        return s[:n] + [self.lazy(a[2], env)] * (n - len(s))

    def o_slice(self, a, env, t):
        s = self.ev(a[0], env)
        i, n = self.i(a[1], env), self.i(a[2], env)
        if isinstance(s, str):
            return s[i:i + n]
        s = self.seq(s)
        if n < 0 or i < 0 or i + n > len(s):
            raise Undef("slice")
        return s[i:i + n]

    def o_len(self, a, env, t):
        return self.length(self.ev(a[0], env))

    def o_strlen(self, a, env, t):
        return len(self.string(self.ev(a[0], env)))

    def o_cat(self, a, env, t):
        return "".join(self.string(self.ev(x, env)) for x in a)

    def o_chr(self, a, env, t):
        v = self.ev(a[0], env)
        return v if isinstance(v, str) else chr(int(self.num(v)))

    def o_tostr(self, a, env, t):
        v = self.ev(a[0], env)
        try:
            x = self.num(v, a[1] == "int")
        except Unknown:
            return "\u00ab%s\u00bb" % (self.freeze(v),)
        if a[1] == "int":
            return str(int(x))
        if a[1] == "to_string":
            return "%.6f" % float(x)
        return "<%s:%s>" % (a[1], Fraction(x))

    def o_substr(self, a, env, t):
        s = self.string(self.ev(a[0], env))
        # positions are unsigned: npos + 1 is 0
        i, n = self.i(a[1], env), self.i(a[2], env)
        i, n = i % 2**64, n if n == NPOS else n % 2**64
        if not 0 <= i <= len(s):
            raise Undef("substr position")
        return s[i:] if n >= NPOS else s[i:i + n]

    def o_strerase(self, a, env, t):
        s = self.string(self.ev(a[0], env))
        i, n = self.i(a[1], env) % 2**64, self.i(a[2], env) % 2**64
        if i > len(s):
            raise Undef("erase position")
        return s[:i] + s[i + n:]

    def o_strrev(self, a, env, t):
        return self.string(self.ev(a[0], env))[::-1]

    def o_strfill(self, a, env, t):
        c = self.ev(a[1], env)
        return (c if isinstance(c, str) else chr(int(self.num(c)))) * self.count(a[0], env)

    def o_strprefix(self, a, env, t):
        s, n = self.string(self.ev(a[0], env)), self.i(a[1], env)
        if not 0 <= n <= len(s):
            raise Undef("%d characters read from a string of %d" % (n, len(s)))
        return s[:n]

    def o_strresize(self, a, env, t):
        s, n = self.string(self.ev(a[0], env)), self.i(a[1], env)
        return s[:n] + "\0" * (n - len(s))

    def o_strfilter(self, a, env, t):
        s = self.string(self.ev(a[0], env))
        if "isspace" in a[1]:
            return "".join(c for c in s if not c.isspace())
        raise Unknown("filter")

    def o_strfind(self, a, env, t):
        how, s, nd, pos = a[0], self.string(self.ev(a[1], env)), self.string(self.ev(a[2], env)), self.i(a[3], env) % 2**64
        if how == "find":
            r = s.find(nd, pos) if pos <= len(s) else -1
        elif how == "rfind":
            r = s.rfind(nd) if pos >= len(s) else s.rfind(nd, 0, pos + len(nd))
        else:
            idx = range(min(pos, len(s)), len(s)) if "first" in how else range(min(pos, len(s) - 1), -1, -1)
            r = -1
            for i in idx:
                if (s[i] in nd) != ("not" in how):
                    r = i
                    break
        return NPOS if r < 0 else r

    def o_map0(self, a, env, t):
        return MapV(None, {})

    def o_mapst(self, a, env, t):
        m = self.ev(a[0], env)
        u = dict(m.upd) if isinstance(m, MapV) else {}
        b = m.base if isinstance(m, MapV) else m
        k = self.ev(a[1], env)
        u[self.mkey(k)] = (self.lazy(a[2], env), k)
        return MapV(b, u)

    def o_maperase(self, a, env, t):
        m = self.ev(a[0], env)
        u = dict(m.upd) if isinstance(m, MapV) else {}
        b = m.base if isinstance(m, MapV) else m
        u[self.mkey(self.ev(a[1], env))] = None
        return MapV(b, u)

    def o_mget(self, a, env, t):
        return self.mget(self.ev(a[0], env), self.ev(a[1], env))

    def o_has(self, a, env, t):
        return self.mhas(self.ev(a[0], env), self.ev(a[1], env))

    def o_maplen(self, a, env, t):
        m = self.ev(a[0], env)
        if isinstance(m, MapV) and m.base is None:
            return sum(1 for x in m.upd.values() if x is not None)
        if isinstance(m, Tok):
            return self.length(m)
        raise Unknown("map size")

    def o_mapkey(self, a, env, t):
        m, i = self.ev(a[0], env), self.i(a[1], env)
        if isinstance(m, MapV) and m.base is None:
            ks = sorted((k for k, x in m.upd.items() if x is not None))
            return m.upd[ks[i]][1]
        if isinstance(m, Tok):
            return self.tok(("key", m.key, i))
        raise Unknown("map key")

    def o_var(self, a, env, t):
        return Var(a[0], self.ev(a[1], env))

    def o_func(self, a, env, t):
        return ("func", a[1])

    def o_typeid(self, a, env, t):
        return ("typeid", a[0])

    def o_clos(self, a, env, t):
        return ("clos", a[0]) + tuple(self.freeze(self.lazy(x, env)) for x in a[1:])

    def o_exc(self, a, env, t):
        return ("exc", a[0])

    def o_outarg(self, a, env, t):
        return ("outarg",)

    def o_stream(self, a, env, t):
        return ("stream", self.freeze(self.ev(a[0], env)))

    def o_streamstate(self, a, env, t):
        return ("streamstate", self.freeze(self.ev(a[0], env)))

    def o_ptr(self, a, env, t):
        root = self.rootkey(a[0], env)
        pth = []
        for s in a[1]:
            if s[0] == "i":
                pth.append(("i", self.i(s[1], env)))
            elif s[0] == "k":
                pth.append(("k", self.freeze(self.ev(s[1], env))))
            else:
                pth.append(s)
        return Ptr(root, tuple(pth))

    def o_out(self, a, env, t):
        name, idx, occ = a[:3]
        lv = tuple(self.i(x, env) for x in a[3:])
        return self.tok(("out", name, str(idx), str(occ)) + lv)

    def o_app(self, a, env, t):
        name = a[0]
        h = self.ops.get(name)
        if h:
            return h(self, a[1:], env)
        h = APPS.get(name)
        if h:
            return h(self, *[self.n(x, env) for x in a[1:]])
        vals = [self.ev(x, env) if isinstance(x, T.T) else x for x in a[1:]]
        if name in ("seqmin", "seqmax"):
            s = [self.num(x) for x in self.seq(vals[0])]
            if not s:
                raise Undef("extremum of an empty range")
            return min(s) if name == "seqmin" else max(s)
        if name == "seqeq":
            x, y = self.seq(vals[0]), self.seq(vals[1])
            return len(x) == len(y) and all(self.freeze(p) == self.freeze(q) for p, q in zip(x, y))
        if name == "strlt":
            return self.string(vals[0]) < self.string(vals[1])
        if name in ("starts_with", "ends_with", "contains"):
            x, y = self.string(vals[0]), self.string(vals[1])
            return y in x if name == "contains" else x.startswith(y) if name == "starts_with" else x.endswith(y)
        if name == "strcmp":
            x, y = self.string(vals[0]), self.string(vals[1])
            return (x > y) - (x < y)
        if name == "holds":
            if isinstance(vals[1], Var):
                return vals[1].alt == vals[0]
        if name == "varval":
            if isinstance(vals[1], Var):
                if vals[1].alt != vals[0]:
                    raise Undef("wrong alternative")
                return vals[1].v
        if name == "ptrdiff" and all(isinstance(v, Ptr) for v in vals):
            p, q = vals
            if p.root == q.root and p.path[:-1] == q.path[:-1]:
                return p.path[-1][1] - q.path[-1][1]
        if name == "isdigit":
            v = self.num(vals[0])
            return 48 <= v <= 57
        if name == "isspace":
            v = self.num(vals[0])
            return v in (32, 9, 10, 11, 12, 13)
        if name in ("stoi", "stod", "strtod", "strtod-len", "strtol", "strtol-len"):
            s = self.string(vals[0])
            m = (INTTEXT if name[-1] == "i" or "tol" in name else REALTEXT).match(s)
            if name.endswith("-len"):
                return m.end() if m else 0
            if not m:
                if "\u00ab" in s:
                    return self.tok((name, s))
                if name.startswith("strto"):
                    return 0
                raise Undef(name)
            if len(m.group(1)) > 12 or abs(int((re.search(r"[eE](.*)", m.group(1)) or [0, 0])[1] or 0)) > 300:
                raise Undef(name)
            x = Fraction(m.group(1))
            return int(x) if name in ("stoi", "strtol") else x
        if name == "filelines":
            v = self.assign("lines")
            return v if v is not None else ["line %d" % i for i in range(hnum(self.seed, ("lines", self.freeze(vals[0])), 0, 3))]
        if name == "fileopen":
            v = self.assign("open")
            return True if v is None else v
        return self.tok(("app", name) + tuple(self.freeze(v) for v in vals))


# the decimal part of the C library's grammar (no hexadecimal, infinity or NaN)
INTTEXT = re.compile(r"[ \t\n\v\f\r]*([+-]?[0-9]+)")
REALTEXT = re.compile(r"[ \t\n\v\f\r]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)")


class Bad:
    """a value the analysis could not express (only an error when it is needed)"""

    def __init__(self, why):
        self.why = why

    def freeze(self, ctx):
        raise Unknown(self.why)

    def __repr__(self):
        return "<unk %s>" % self.why


def _log2(c, x):
    if x <= 0:
        raise Undef("log2")
    if Fraction(x).denominator == 1 and (int(x) & (int(x) - 1)) == 0:
        return int(x).bit_length() - 1
    return Fraction(math.log2(x))


def _sqrt(c, x):
    if x < 0:
        raise Undef("sqrt")
    x = Fraction(x)
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(a, b) if a * a == x.numerator and b * b == x.denominator else Fraction(math.sqrt(x))


def _pow(c, x, y):
    y = Fraction(y)
    if y.denominator == 1 and abs(y) < 64:
        if x == 0 and y < 0:
            raise Undef("pow")
        r = Fraction(x) ** int(y)
        return int(r) if r.denominator == 1 else r
    if x < 0:
        raise Undef("pow")
    return Fraction(float(x) ** float(y))


def tofloat(c, x):
    """a number stored in single precision: the value of a real input stands for a generic real number, so it is not representable"""
    return x * (1 + Fraction(1, 3 << 24))


def _bit(f):
    return lambda c, x, y: f(int(x), int(y))


APPS = {
    "fabs": lambda c, x: abs(x), "max": lambda c, *v: max(v), "min": lambda c, *v: min(v), "floor": lambda c, x: math.floor(x), "ceil": lambda c, x: math.ceil(x),
    "log2": _log2, "sqrt": _sqrt, "pow": _pow, "bit&": _bit(lambda x, y: x & y), "bit|": _bit(lambda x, y: x | y), "bit^": _bit(lambda x, y: x ^ y),
    "tofloat": tofloat,
    "isnan": lambda c, x: False, "isfinite": lambda c, x: True,
}
OPN = {"and": "and", "or": "or", "not": "not", "keyeq?": "keyeq"}


FREE = {}


class Thrown(Exception):
    def __init__(self, ev):
        self.ev = ev


def trace(ctx, evs, keep, env=None, out=None):
    """the events of a summary under an interpretation; raises Thrown when an exception leaves the function"""
    env = env or {}
    out = [] if out is None else out
    for e in evs:
        if not all(ctx.boolean(ctx.ev(p, env)) for p in e.pc):
            continue
        if e.kind == "loop":
            k, n = e.args
            for i in range(ctx.count(n, env)):
                e2 = dict(env)
                e2[k] = i
                trace(ctx, e.sub, keep, e2, out)
            continue
        if e.kind == "throw":
            raise Thrown(e)
        if e.kind == "unk":
            raise Unknown(e.args[0].a[0])
        if keep(e):
            out.append((e, [ctx.lazy(a, env) for a in e.args], env))
    return out
