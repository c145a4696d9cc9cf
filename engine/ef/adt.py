"""Vectors and matrices as abstract values: the operations of Vector/Matrix become operators of the term domain.

Used by the obligations above the containers (merge, upwards, split, root solve, leaf operators). What each operator
means is its mathematical definition; that the containers implement exactly these definitions is decided separately
(C09, C10, C11)."""
from fractions import Fraction
from . import terms as T
from .terms import mk, num, add, sub, mul, neg, sel, fld, lst, fill, seqlen, concat, cint, ZERO, ONE, TRUE
from .flow import UNIT, base_type, is_ref, is_seq, is_flt, is_int
from . import evalr, lapack
from .evalr import Thrown, Undef, Unknown, Tok

E = "EllipticForest::"


# ------------------------------------------------------------------ shapes
def rows(A):
    r = shape(A)
    return r[0] if r else fld(A, "nrows_")


def cols(A):
    r = shape(A)
    return r[1] if r else fld(A, "ncols_")


def shape(A):
    if A.op == "ite":
        a, b = shape(A.a[1]), shape(A.a[2])
        return a if a and b and a[0] is b[0] and a[1] is b[1] else None
    if A.op != "app":
        return None
    n, a = A.a[0], A.a[1:]
    if n in ("M.new", "M.data"):
        return a[0], a[1]
    if n in ("M.eye", "M.diag"):
        k = a[0] if n == "M.eye" else seqlen(a[0])
        return k, k
    if n == "M.f2c":
        return a[0], mul(num(2), a[0])
    if n in ("M.neg", "M.add", "M.sub", "M.adds", "M.scale", "M.setblock", "M.setrow", "M.setcol", "M.perm"):
        return rows(a[0]), cols(a[0])
    if n == "M.mul":
        return rows(a[0]), cols(a[1])
    if n == "M.T":
        return cols(a[0]), rows(a[0])
    if n == "M.block":
        return a[3], a[4]
    if n == "M.gather":
        return seqlen(a[1]), seqlen(a[2])
    if n == "M.solve":
        return rows(a[1]), cols(a[1])
    if n == "M.bd" and a[0].op == "list":
        return add(ZERO, *[rows(x) for x in a[0].a]), add(ZERO, *[cols(x) for x in a[0].a])
    return None


def app(n, *a):
    return mk("app", n, *a)


def vapp(n, length, *a):
    t = mk("app", n, *a)
    return T.set_len(t, length) if length is not None else t


# ------------------------------------------------------------------ models
def val(ip, st, fr, e):
    return ip.ev(e, st, fr)


def obj(ip, st, this):
    return ip.load(st, this)


def kindof(e):
    t = base_type(e.get("t") or e.get("cls") or "")
    if t.startswith(E + "Vector<"):
        return "V"
    if t.startswith(E) and any(t.startswith(E + x) for x in ("Matrix<", "IdentityMatrix<", "DiagonalMatrix<", "InterpolationMatrix")):
        return "M"
    if is_flt(t) or is_int(t) or t == "bool":
        return "s"
    if is_seq(t):
        return "q"
    return "?"


def vctor(ip, st, fr, e, args, this):
    args = [a for a in args]
    if not args:
        return "r", lst()
    k = kindof(args[0])
    v = ip.ev(args[0], st, fr)
    if k in ("V", "q"):
        return "r", v
    if k == "s":
        x = ip.ev(args[1], st, fr) if len(args) > 1 else ZERO
        return "r", fill(v, x)
    return NotImplemented


def mctor(ip, st, fr, e, args, this):
    if not args:
        return "r", app("M.new", ZERO, ZERO, ZERO)
    if kindof(args[0]) == "M":
        return "r", ip.ev(args[0], st, fr)
    v = [ip.ev(a, st, fr) for a in args]
    if len(v) == 2:
        return "r", app("M.new", v[0], v[1], ZERO)
    if kindof(args[2]) == "s":
        return "r", app("M.new", *v)
    return "r", app("M.data", *v)


def sctor(op):
    def h(ip, st, fr, e, args, this):
        if args and kindof(args[0]) == "M":
            return "r", ip.ev(args[0], st, fr)
        return "r", app(op, ip.ev(args[0], st, fr))
    return h


def vmethod(name):
    def h(ip, st, fr, e, args, this):
        n = name
        if n == "size":
            return "r", seqlen(obj(ip, st, this))
        if n in ("data", "dataNoConst"):
            return "l", this
        if n == "dataPointer":
            return "r", ip.extend(this, ("i", ZERO))
        if n in ("operator[]", "getEntry") or n == "operator()" and len(args) == 1 and kindof(args[0]) == "s":
            i = ip.ev(args[0], st, fr)
            return "l", ip.extend(this, ("i", i))
        if n == "operator=":
            v = ip.ev(args[0], st, fr)
            ip.store(st, this, v)
            return "l", this
        v = obj(ip, st, this)
        a = [ip.ev(x, st, fr) for x in args]
        if n == "getSegment":
            # rejected when it does not fit
            return "r", vapp("V.seg", a[1], v, a[0], a[1]) if T.tslice(v, a[0], a[1]).op == "slice" else T.tslice(v, a[0], a[1])
        if n == "getRange" or n == "operator()" and len(a) == 2:
            c = add(sub(a[1], a[0]), ONE)
            return "r", vapp("V.seg", c, v, a[0], c)
        if n in ("getFromIndexSet", "operator()"):
            return "r", vapp("V.gather", seqlen(a[0]), v, a[0])
        if n == "setSegment":
            ip.store(st, this, vapp("V.setseg", seqlen(v), v, a[0], a[1]))
            return "r", UNIT
        if n == "append":
            ip.store(st, this, concat(v, a[0]))
            return "r", UNIT
        if n == "blockPermute":
            return "r", vapp("V.perm", seqlen(v), v, a[0], a[1])
        if n == "operator-" and not a:
            return "r", vapp("V.neg", seqlen(v), v)
        if n in ("operator+", "operator-", "operator+=", "operator-=", "operator*=", "operator/=", "operator*") and len(a) == 1:
            o = n[8]
            s = kindof(args[0]) == "s"
            if n == "operator*":
                return "r", app("V.dot", v, a[0])
            r = vapp({"+": "V.add", "-": "V.sub", "*": "V.scale", "/": "V.divs"}[o] + ("s" if s and o in "+-" else ""), seqlen(v), v, a[0])
            if n.endswith("="):
                ip.store(st, this, r)
                return "l", this
            return "r", r
        return NotImplemented
    return h


def mmethod(name):
    def h(ip, st, fr, e, args, this):
        n = name
        if n in ("nrows", "nRows"):
            return "r", rows(obj(ip, st, this))
        if n in ("ncols", "nCols"):
            return "r", cols(obj(ip, st, this))
        if n in ("data", "dataNoConst"):
            return "l", ip.extend(this, ("f", "data_"))
        if n == "dataPointer":
            return "r", ip.extend(this, ("f", "data_"), ("i", ZERO))
        if n == "getEntry" or n == "operator()" and len(args) == 2 and kindof(args[0]) == "s":
            i, j = (ip.ev(x, st, fr) for x in args)
            return "l", ip.extend(this, ("f", "data_"), ("i", add(mul(i, cols(obj(ip, st, this))), j)))
        if n == "operator=":
            v = ip.ev(args[0], st, fr)
            ip.store(st, this, v)
            return "l", this
        A = obj(ip, st, this)
        a = [ip.ev(x, st, fr) for x in args]
        if n in ("getFromIndexSet", "operator()") and len(a) == 2:
            return "r", app("M.gather", A, a[0], a[1])
        if n == "operator()" and len(a) == 4:
            return "r", app("M.block", A, a[0], a[2], add(sub(a[1], a[0]), ONE), add(sub(a[3], a[2]), ONE))
        if n == "getBlock":
            return "r", app("M.block", A, *a)
        if n == "getRow":
            return "r", vapp("M.row", cols(A), A, a[0])
        if n == "getCol":
            return "r", vapp("M.col", rows(A), A, a[0])
        if n in ("setRow", "setColumn", "setBlock"):
            ip.store(st, this, app({"setRow": "M.setrow", "setColumn": "M.setcol", "setBlock": "M.setblock"}[n], A, *a))
            return "r", UNIT
        if n == "blockPermute":
            return "r", app("M.perm", A, *a)
        if n == "T":
            return "r", app("M.T", A)
        if n == "operator-" and not a:
            return "r", app("M.neg", A)
        if n in ("operator+=", "operator-=", "operator*=") and len(a) == 1:
            s = kindof(args[0]) == "s"
            r = app({"+": "M.add", "-": "M.sub", "*": "M.scale"}[n[8]] + ("s" if s and n[8] in "+-" else ""), A, a[0])
            ip.store(st, this, r)
            return "l", this
        return NotImplemented
    return h


def free(name):
    def h(ip, st, fr, e, args, this):
        k = "".join(kindof(x) for x in args)
        a = [ip.ev(x, st, fr) for x in args]
        if name == "concatenate":
            s = a[0]
            if s.op == "list":
                return "r", concat(*s.a)
            return "r", app("V.concat", s)
        if name == "vectorRange":
            n = add(sub(a[1], a[0]), ONE)
            return "r", vapp("V.range", n, a[0], a[1])
        if name == "blockDiagonalMatrix":
            return "r", app("M.bd", a[0])
        if name == "solve":
            return "r", app("M.solve", *a) if k == "MM" else vapp("M.solvev", seqlen(a[1]), *a)
        if name == "operator*":
            if k == "MM":
                return "r", app("M.mul", *a)
            if k == "MV":
                return "r", vapp("M.mv", rows(a[0]), *a)
            if k == "sM":
                return "r", app("M.scale", a[1], a[0])
            if k == "sV":
                return "r", vapp("V.scale", seqlen(a[1]), a[1], a[0])
            if k == "VV":
                return "r", vapp("V.mul", seqlen(a[0]), *a)
        if name == "operator/" and k == "VV":
            return "r", vapp("V.div", seqlen(a[0]), *a)
        if name in ("operator+", "operator-") and k == "MM":
            return "r", app("M.add" if name[-1] == "+" else "M.sub", *a)
        return NotImplemented
    return h


VM = ["size", "data", "dataNoConst", "dataPointer", "operator[]", "operator()", "getEntry", "operator=", "getSegment", "getRange", "getFromIndexSet", "setSegment", "append", "blockPermute", "operator-", "operator+", "operator+=",
      "operator-=", "operator*=", "operator/=", "operator*"]
MM = ["nrows", "nRows", "ncols", "nCols", "data", "dataNoConst", "dataPointer", "getEntry", "operator()", "operator=", "getFromIndexSet", "getBlock", "getRow", "getCol", "setRow", "setColumn", "setBlock", "blockPermute", "T",
      "operator-", "operator+=", "operator-=", "operator*="]
MODELS = {}
for t in ("double", "int"):
    MODELS[E + "Vector<%s>::(ctor)" % t] = vctor
    for n in VM:
        MODELS[E + "Vector<%s>::%s" % (t, n)] = vmethod(n)
MODELS[E + "Matrix<double>::(ctor)"] = mctor
for n in MM:
    MODELS[E + "Matrix<double>::" + n] = mmethod(n)
for n, o in (("IdentityMatrix", "M.eye"), ("DiagonalMatrix", "M.diag"), ("InterpolationMatrixFine2Coarse", "M.f2c"), ("InterpolationMatrixCoarse2Fine", "M.c2f")):
    MODELS[E + n + "<double>::(ctor)"] = sctor(o)
for n in ("concatenate", "vectorRange", "blockDiagonalMatrix", "solve", "operator*", "operator/", "operator+", "operator-"):
    MODELS[E + n] = free(n)

OPAQUE = {E + "Matrix<double>", E + "IdentityMatrix<double>", E + "DiagonalMatrix<double>"}
SEQS = {E + "Vector<double>", E + "Vector<int>"}


def setup(ip):
    """vectors are sequences, matrices are opaque values"""
    ip.opaque_classes |= OPAQUE
    old = ip.make_sym
    olddef = ip.default_value

    def make_sym(t, name):
        b = base_type(t)
        if b in SEQS:
            return T.sym(name, "seq")
        return old(t, name)

    def default_value(t, st, fr):
        b = base_type(t)
        if b in SEQS:
            return lst()
        if b == E + "Matrix<double>":
            return app("M.new", ZERO, ZERO, ZERO)
        return olddef(t, st, fr)
    oldtyped = ip.typed_view

    def typed_view(t, v):
        if base_type(t) in SEQS:
            return v
        return oldtyped(t, v)
    ip.make_sym, ip.default_value, ip.typed_view = make_sym, default_value, typed_view


# ------------------------------------------------------------------ evaluation
class MV:
    """a matrix of numbers"""
    __slots__ = ("n", "m", "d")

    def __init__(self, n, m, d):
        self.n, self.m, self.d = n, m, d

    def freeze(self, ctx):
        return ("M", self.n, self.m) + tuple(ctx.freeze(x) for x in self.d)

    def field(self, ctx, name):
        if name == "nrows_":
            return self.n
        if name == "ncols_":
            return self.m
        if name == "data_":
            return self.d
        raise Unknown("field %s of a matrix" % name)

    def setfield(self, ctx, d):
        n, m, x = d.get("nrows_", self.n), d.get("ncols_", self.m), d.get("data_", self.d)
        return MV(n, m, ctx.seq(x))

    def at(self, i, j):
        return self.d[i * self.m + j]

    def rows(self):
        return [self.d[i * self.m:(i + 1) * self.m] for i in range(self.n)]


def M(ctx, v):
    if isinstance(v, MV):
        return v
    if isinstance(v, Tok):
        r = ctx.memo.get(("mv", v.key))
        if r is None:
            n = dim(ctx, v, "nrows_")
            m = dim(ctx, v, "ncols_")
            r = MV(n, m, [ctx.num(ctx.tok(("[", (".", v.key, "data_"), i))) for i in range(n * m)])
            ctx.memo[("mv", v.key)] = r
        return r
    if isinstance(v, evalr.Rec):
        return MV(int(ctx.num(ctx.fld(v, "nrows_"))), int(ctx.num(ctx.fld(v, "ncols_"))), ctx.seq(ctx.fld(v, "data_")))
    if v is evalr.UND:
        raise Undef("uninitialised matrix")
    raise Unknown("matrix expected, got %r" % (v,))


def dim(ctx, v, f):
    x = ctx.tok((".", v.key, f))
    if isinstance(x, Tok):
        p = evalr.path(v.key)
        d = ctx.assign(p + "." + f)
        x = d if d is not None else evalr.hnum(ctx.seed, ("dim", v.key, f), 1, 3)
        ctx.forced[(".", v.key, f)] = x
    return int(x)


def V(ctx, v):
    return ctx.seq(v)


def N(ctx, v):
    return [ctx.num(x) for x in ctx.seq(v)]


def nz(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def fits(c, what):
    if not c:
        raise Thrown(None)


def ix(ctx, x):
    x = ctx.num(x, True)
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise Undef("fractional index")
        x = int(x)
    return x


def idx(ctx, v, n, what="index set"):
    out = [ix(ctx, x) for x in ctx.seq(v)]
    fits(len(out) <= n and all(0 <= i < n for i in out), what)
    return out


def ev1(f):
    """operator over evaluated arguments"""
    def h(ctx, a, env):
        return f(ctx, *[ctx.ev(x, env) if isinstance(x, T.T) else x for x in a])
    return h


def opnew(ctx, n, m, v):
    n, m = ix(ctx, n), ix(ctx, m)
    if n < 0 or m < 0:
        raise Undef("negative dimension")
    if n * m > 4000:
        raise evalr.Discard("large matrix")
    return MV(n, m, [v] * (n * m))


def opdata(ctx, n, m, d):
    n, m, d = ix(ctx, n), ix(ctx, m), ctx.seq(d)
    if len(d) != n * m:
        raise Undef("matrix of %dx%d from %d values" % (n, m, len(d)))
    return MV(n, m, d)


def opmul(ctx, A, B):
    A, B = M(ctx, A), M(ctx, B)
    fits(A.m == B.n, "product")
    Bc = [[B.at(k, j) for k in range(B.n)] for j in range(B.m)]
    return MV(A.n, B.m, [nz(sum((ctx.num(x) * ctx.num(y) for x, y in zip(r, c)), 0)) for r in A.rows() for c in Bc])


def opmv(ctx, A, x):
    A, x = M(ctx, A), N(ctx, x)
    fits(A.m == len(x), "product")
    return [nz(sum((ctx.num(p) * q for p, q in zip(r, x)), 0)) for r in A.rows()]


def opsolve(ctx, A, B):
    A, B = M(ctx, A), M(ctx, B)
    fits(A.n == A.m and A.n == B.n, "solve")
    X = lapack.gauss([[ctx.num(x) for x in r] for r in A.rows()], [[ctx.num(x) for x in r] for r in B.rows()])
    if X is None:
        raise evalr.Discard("singular system")
    return MV(B.n, B.m, [nz(x) for r in X for x in r])


def opsolvev(ctx, A, b):
    A, b = M(ctx, A), N(ctx, b)
    fits(A.n == A.m and A.n == len(b), "solve")
    X = lapack.gauss([[ctx.num(x) for x in r] for r in A.rows()], [[x] for x in b])
    if X is None:
        raise evalr.Discard("singular system")
    return [nz(r[0]) for r in X]


def elem(f, g=lambda ctx, x: x):
    def h(ctx, A, B):
        A, B = M(ctx, A), M(ctx, B)
        fits(A.n == B.n and A.m == B.m, "shape")
        return MV(A.n, A.m, [nz(f(ctx.num(x), ctx.num(y))) for x, y in zip(A.d, B.d)])
    return h


def velem(f):
    def h(ctx, a, b):
        a, b = N(ctx, a), N(ctx, b)
        fits(len(a) == len(b), "size")
        return [nz(f(x, y)) for x, y in zip(a, b)]
    return h


def vs(f):
    return lambda ctx, a, s: [nz(f(x, ctx.num(s))) for x in N(ctx, a)]


def ms(f):
    def h(ctx, A, s):
        A = M(ctx, A)
        return MV(A.n, A.m, [nz(f(ctx.num(x), ctx.num(s))) for x in A.d])
    return h


def divide(x, y):
    if y == 0:
        raise evalr.Discard("division by zero")
    return Fraction(x) / y


def opblock(ctx, A, i, j, r, c):
    A = M(ctx, A)
    i, j, r, c = (ix(ctx, x) for x in (i, j, r, c))
    fits(i >= 0 and j >= 0 and r >= 0 and c >= 0 and i + r <= A.n and j + c <= A.m, "block")
    return MV(r, c, [A.at(i + p, j + q) for p in range(r) for q in range(c)])


def opsetblock(ctx, A, i, j, B):
    A, B = M(ctx, A), M(ctx, B)
    i, j = ix(ctx, i), ix(ctx, j)
    fits(i >= 0 and j >= 0 and i + B.n <= A.n and j + B.m <= A.m, "block")
    d = list(A.d)
    for p in range(B.n):
        for q in range(B.m):
            d[(i + p) * A.m + j + q] = B.at(p, q)
    return MV(A.n, A.m, d)


def opgather(ctx, A, I, J):
    A = M(ctx, A)
    I, J = idx(ctx, I, A.n), idx(ctx, J, A.m)
    return MV(len(I), len(J), [A.at(i, j) for i in I for j in J])


def opT(ctx, A):
    A = M(ctx, A)
    return MV(A.m, A.n, [A.at(i, j) for j in range(A.m) for i in range(A.n)])


def opbd(ctx, s):
    s = [M(ctx, x) for x in ctx.seq(s)]
    n, m = sum(x.n for x in s), sum(x.m for x in s)
    d = [0] * (n * m)
    r = c = 0
    for x in s:
        for i in range(x.n):
            for j in range(x.m):
                d[(r + i) * m + c + j] = x.at(i, j)
        r += x.n
        c += x.m
    return MV(n, m, d)


def order(ctx, I, S, total):
    S = [ix(ctx, x) for x in ctx.seq(S)]
    I = [ix(ctx, x) for x in ctx.seq(I)]
    fits(sum(S) == total, "block sizes")
    if sorted(I) != list(range(len(S))):
        raise Undef("not a permutation of the blocks")
    st = [sum(S[:k]) for k in range(len(S))]
    return [st[k] + q for k in I for q in range(S[k])]


def opperm(ctx, A, I, J, R, C):
    A = M(ctx, A)
    ri, ci = order(ctx, I, R, A.n), order(ctx, J, C, A.m)
    return MV(A.n, A.m, [A.at(i, j) for i in ri for j in ci])


def opvperm(ctx, v, I, S):
    v = V(ctx, v)
    return [v[i] for i in order(ctx, I, S, len(v))]


def opseg(ctx, v, a, n):
    v = V(ctx, v)
    a, n = ix(ctx, a), ix(ctx, n)
    fits(a >= 0 and n >= 0 and a + n <= len(v), "segment")
    return v[a:a + n]


def opsetseg(ctx, v, a, w):
    v, w, a = list(V(ctx, v)), V(ctx, w), ix(ctx, a)
    fits(a >= 0 and a + len(w) <= len(v), "segment")
    v[a:a + len(w)] = w
    return v


def opvgather(ctx, v, I):
    v = V(ctx, v)
    return [v[i] for i in idx(ctx, I, len(v))]


def oprange(ctx, a, b):
    a, b = ix(ctx, a), ix(ctx, b)
    if b < a - 1:
        raise Undef("range")
    return list(range(a, b + 1))


def opeye(ctx, n):
    n = ix(ctx, n)
    return MV(n, n, [1 if i == j else 0 for i in range(n) for j in range(n)])


def opdiag(ctx, v):
    v = V(ctx, v)
    n = len(v)
    return MV(n, n, [v[i] if i == j else 0 for i in range(n) for j in range(n)])


def opf2c(ctx, n):
    n = ix(ctx, n)
    return MV(n, 2 * n, [Fraction(1, 2) if j // 2 == i else 0 for i in range(n) for j in range(2 * n)])


def opc2f(ctx, nf):
    """prolongation: a generic operator that tells its rows apart (its entries are C10's business)"""
    nf = ix(ctx, nf)
    nc = nf // 2
    if nf % 2 or nf < 2:
        raise Undef("coarse-to-fine of %d" % nf)
    return MV(nf, nc, [evalr.hnum(ctx.seed, ("c2f", nf, i, j), 1, 9) for i in range(nf) for j in range(nc)])


def oprow(ctx, A, i):
    A, i = M(ctx, A), ix(ctx, i)
    fits(0 <= i < A.n, "row")
    return A.rows()[i]


def opcol(ctx, A, j):
    A, j = M(ctx, A), ix(ctx, j)
    fits(0 <= j < A.m, "column")
    return [A.at(i, j) for i in range(A.n)]


def opsetrow(ctx, A, i, v):
    A, i, v = M(ctx, A), ix(ctx, i), V(ctx, v)
    fits(0 <= i < A.n and len(v) == A.m, "row")
    d = list(A.d)
    d[i * A.m:(i + 1) * A.m] = v
    return MV(A.n, A.m, d)


def opsetcol(ctx, A, j, v):
    A, j, v = M(ctx, A), ix(ctx, j), V(ctx, v)
    fits(0 <= j < A.m and len(v) == A.n, "column")
    d = list(A.d)
    for i in range(A.n):
        d[i * A.m + j] = v[i]
    return MV(A.n, A.m, d)


OPS = {k: ev1(f) for k, f in {
    "M.new": opnew, "M.data": opdata, "M.mul": opmul, "M.mv": opmv, "M.solve": opsolve, "M.solvev": opsolvev, "M.add": elem(lambda x, y: x + y), "M.sub": elem(lambda x, y: x - y),
    "M.adds": ms(lambda x, y: x + y), "M.subs": ms(lambda x, y: x - y), "M.scale": ms(lambda x, y: x * y), "M.neg": lambda ctx, A: ms(lambda x, y: -x)(ctx, A, 0),
    "M.block": opblock, "M.setblock": opsetblock, "M.gather": opgather, "M.T": opT, "M.bd": opbd, "M.perm": opperm, "M.eye": opeye, "M.diag": opdiag, "M.f2c": opf2c, "M.c2f": opc2f,
    "M.row": oprow, "M.col": opcol, "M.setrow": opsetrow, "M.setcol": opsetcol,
    "V.seg": opseg, "V.setseg": opsetseg, "V.gather": opvgather, "V.perm": opvperm, "V.range": oprange, "V.add": velem(lambda x, y: x + y), "V.sub": velem(lambda x, y: x - y), "V.mul": velem(lambda x, y: x * y),
    "V.div": velem(divide), "V.adds": vs(lambda x, y: x + y), "V.subs": vs(lambda x, y: x - y), "V.scale": vs(lambda x, y: x * y), "V.divs": vs(divide), "V.neg": lambda ctx, v: [-x for x in N(ctx, v)],
    "V.dot": lambda ctx, a, b: nz(sum(velem(lambda x, y: x * y)(ctx, a, b), 0)), "V.concat": lambda ctx, s: [y for x in ctx.seq(s) for y in ctx.seq(x)],
}.items()}
