"""C12, C13: the leaf solver and its boundary operators."""
from fractions import Fraction
from .oblig import Ob
from .evalr import hnum
from . import adt, common, evalr, petsc, stdmodel as S, terms as T
from .terms import mk, num, ite, ZERO

E = "EllipticForest::"
OBS = []


def grid(seed, square=False):
    nx = hnum(seed, "nx", 2, 4)
    ny = nx if square or seed % 3 == 0 else hnum(seed, "ny", 2, 4)
    xl, yl = hnum(seed, "xl", -2, 2), hnum(seed, "yl", -2, 2)
    lx, ly = hnum(seed, "lx", 1, 4), hnum(seed, "ly", 1, 4)
    m = 2 * (nx + ny)
    return {"g.nx_": nx, "g.ny_": ny, "g.x_lower_": xl, "g.y_lower_": yl, "g.x_upper_": xl + lx, "g.y_upper_": yl + ly, "g.dx_": Fraction(lx, nx), "g.dy_": Fraction(ly, ny),
            "len(d)": m, "len(f)": nx * ny, "len(d.data_)": m, "d.size_": m, "len(f.data_)": nx * ny, "f.size_": nx * ny}


def assign(seed):
    d = grid(seed)
    return lambda p: d.get(p)


# ---------------------------------------------------------------- the solve as a random linear operation
def h_solve(ip, st, fr, e, args, this):
    g, d, f = (ip.load(st, a[1] if isinstance(a, tuple) else ip.lv(a, st, fr)) for a in args)
    s = ip.load(st, this) if not isinstance(this, str) else this
    t = mk("app", "LSOLVE", g, d, f)
    T.set_len(t, T.seqlen(f))
    return "r", t


def o_lsolve(ctx, a, env):
    k = ctx.freeze(ctx.ev(a[0], env))
    d, f = ([ctx.num(x) for x in ctx.seq(ctx.ev(x, env))] for x in a[1:3])
    g = ctx.ev(a[0], env)
    nx, ny = (int(ctx.num(ctx.fld(g, n), True)) for n in ("nx_", "ny_"))
    if len(f) != nx * ny or len(d) != 2 * (nx + ny):
        raise evalr.Undef("solve with %d boundary and %d right-hand side values on a %d x %d grid" % (len(d), len(f), nx, ny))

    def c(*z):
        return evalr.hnum(ctx.seed, ("LSOLVE", k) + z, -7, 7)
    return [sum(c("g", i, j) * x for j, x in enumerate(d) if x) + sum(c("f", i, j) * x for j, x in enumerate(f) if x) for i in range(nx * ny)]


def h_fish(ip, st, fr, e, args, this):
    """hstcrt_(A,B,M,MBDCND,BDA,BDB,C,D,N,NBDCND,BDC,BDD,ELMBDA,F,IDIMF,PERTRB,IERROR): column-major F(IDIMF,N)"""
    p = [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]

    def val(k):
        return ip.load(st, ip.deref(p[k]))

    def arr(k):
        loc, i = S.seq_at(p[k])
        s = ip.load(st, loc)
        return s if i is ZERO else T.tslice(s, i, T.sub(T.seqlen(s), i))
    loc, i = S.seq_at(p[13])
    F = ip.load(st, loc)
    t = mk("app", "HSTCRT", *[val(k) for k in (0, 1, 2, 3)], arr(4), arr(5), *[val(k) for k in (6, 7, 8, 9)], arr(10), arr(11), val(12), F, val(14), i)
    T.set_len(t, T.seqlen(F))
    ip.store(st, loc, t)
    ip.store(st, ip.deref(p[15]), ip.outterm("hstcrt_", 15, "double"))
    ip.store(st, ip.deref(p[16]), ip.outterm("hstcrt_", 16, "int"))
    return "r", ZERO


def o_fish(ctx, a, env):
    v = [ctx.ev(x, env) for x in a]

    def n(k):
        return ctx.num(v[k])

    def sq(k):
        return [ctx.num(x) for x in ctx.seq(v[k])]
    A, B, M, mb, bda, bdb, C, D, N, nb, bdc, bdd, lam, F, ld, off = n(0), n(1), int(n(2)), n(3), sq(4), sq(5), n(6), n(7), int(n(8)), n(9), sq(10), sq(11), n(12), sq(13), int(n(14)), int(n(15))
    if not (A < B and C < D and M > 2 - 1 and N > 2 - 1 and ld >= M and mb == 1 and nb == 1):
        raise evalr.Undef("hstcrt_ outside the five-point Dirichlet problem (M=%s N=%s IDIMF=%s MBDCND=%s NBDCND=%s)" % (M, N, ld, mb, nb))
    if min(len(bda), len(bdb)) < N or min(len(bdc), len(bdd)) < M or len(F) - off < ld * (N - 1) + M:
        raise evalr.Undef("hstcrt_ reads past the end of its data")
    dx, dy = Fraction(B - A) / M, Fraction(D - C) / N
    w, s = 1 / (dx * dx), 1 / (dy * dy)
    from .lapack import gauss, norm
    Z = [[0] * (M * N) for _ in range(M * N)]
    b = []
    for i in range(M):
        for j in range(N):
            k = i * N + j
            diag, r = lam - 2 * w - 2 * s, F[off + i + j * ld]
            for di, dj, c, g in ((-1, 0, w, bda[j]), (1, 0, w, bdb[j]), (0, -1, s, bdc[i]), (0, 1, s, bdd[i])):
                if 0 <= i + di < M and 0 <= j + dj < N:
                    Z[k][(i + di) * N + j + dj] = c
                else:
                    diag -= c
                    r -= 2 * c * g
            Z[k][k] = diag
            b.append([r])
    X = gauss(Z, b)
    if X is None:
        raise evalr.Discard("singular system")
    out = list(F)
    for i in range(M):
        for j in range(N):
            out[off + i + j * ld] = norm(X[i * N + j][0])
    return out


BASE = dict(adt.MODELS, **common.MODELS)
LIB = dict(BASE, **petsc.MODELS)
LIB["hstcrt_"] = LIB[E + "hstcrt_"] = h_fish
ABS = dict(BASE)
ABS[E + "FiniteVolumeSolver::solve"] = h_solve
from . import lapack
for m in (LIB, ABS):
    m["ef_linsolve"] = lapack.linsolve
OPS = dict(adt.OPS, linsolve=lapack.op_linsolve, LSOLVE=o_lsolve, HSTCRT=o_fish, **petsc.OPS)


def ob(cat, name, about, code, spec, models, **k):
    k.setdefault("trials", 1.0)
    OBS.append(Ob(name, "efs::leaf::" + code, "leaf::" + spec, None, cat=cat, models=models, ops=OPS, setup=adt.setup, about=about, assign=assign, keep=lambda e: False, **k))


Q = E + "FiniteVolumeSolver::"
ob("C12", "five-point solve", Q + "solve", "t_solve", "r_solve", LIB)
ob("C12", "constant-coefficient solve", Q + "solve", "t_fish", "r_fish", LIB)
ob("C12", "library objects", Q + "solve", "t_lib", "r_lib", LIB)
ob("C13", "boundary map", Q + "mapD2N", "t_map", "r_map", ABS)
ob("C13", "particular data", Q + "particularNeumannData", "t_part", "r_part", ABS)
ob("C13", "operator", Q + "buildD2N", "t_op", "r_op", ABS)
ob("C13", "operator and data compose", Q + "buildD2N", "t_use", "r_use", ABS)
