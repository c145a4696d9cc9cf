"""PETSc objects as handles with a state: what each call requires and what it leaves behind.

A handle is a pointer to an abstract object {live, kind, data, nrows, ncols, built}. The library's bookkeeping
("lib live": objects created and not destroyed, "lib illegal": calls outside the contract) is part of the state."""
import re
from . import flow, stdmodel as S, terms as T
from .terms import mk, num, ite, add, eq0, sub, mul, lst, fld, seqlen, cint, ZERO, ONE, TRUE, FALSE

STATE = {"live": "int", "illegal": "int", "borrowed": "int", "wide": "int"}


def root(ip, name):
    r = ("g", "lib " + name)
    if r not in ip.rootinit:
        ip.rootinit[r] = ZERO
        ip.roottype[r] = STATE[name]
    return mk("ptr", r, ())


def get(ip, st, name):
    return ip.load(st, root(ip, name))


def put(ip, st, name, v):
    ip.store(st, root(ip, name), v)


def bump(ip, st, name, d, cond=TRUE):
    cond = ip.known(st, cond)
    if cond is FALSE:
        return
    v = get(ip, st, name)
    w = plus(v, d)
    put(ip, st, name, w if cond is TRUE else ite(cond, w, v))


def plus(v, d, n=6):
    """v + d with the sum taken inside a choice"""
    return ite(v.a[0], plus(v.a[1], d, n - 1), plus(v.a[2], d, n - 1)) if v.op == "ite" and n else add(v, d)


def need(ip, st, ok):
    bump(ip, st, "illegal", ONE, T.lnot(ok))


def args_(ip, st, fr, args):
    return [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]


def isobj(h):
    return h.op == "ptr" and h.a[0][0] == "g" and str(h.a[0][1]).startswith("petsc ") and not h.a[1]


def new(ip, st, kind, comm, cond=TRUE):
    """a fresh object (alive where cond)"""
    n = getattr(ip, "npetsc", 0)
    ip.npetsc = n + 1
    r = ("g", "petsc %d" % n)
    ip.roottype[r] = "Petsc"
    ip.rootinit[r] = T.struct("Petsc", {"live": ZERO, "kind": T.string(kind), "nrows": ZERO, "ncols": ZERO, "data": lst(), "comm": comm, "state": T.string("new")})
    p = mk("ptr", r, ())
    f(ip, st, p, "live", ite(cond, ONE, ZERO))
    bump(ip, st, "live", ONE, cond)
    # creation is collective on the communicator
    if not (comm.op == "ptr" and "comm_self" in str(comm.a[0])):
        bump(ip, st, "wide", ONE)
    return p


def f(ip, st, h, name, v=None):
    p = ip.extend(h, ("f", name))
    if v is None:
        return ip.load(st, p)
    ip.store(st, p, v)


def each(h):
    """a handle: the objects it may denote, with their conditions; None for a value that is no handle"""
    if h.op == "ite":
        return [(T.land(h.a[0], c), o) for c, o in each(h.a[1])] + [(T.land(T.lnot(h.a[0]), c), o) for c, o in each(h.a[2])]
    return [(TRUE, h if isobj(h) else None)]


def use(ip, st, h, kind):
    """a call on the object: it must be live and of the right kind; the object, or None when it cannot be told"""
    r = None
    for c, o in each(h):
        if o is None:
            need(ip, st, T.lnot(c))
            continue
        k = f(ip, st, o, "kind")
        good = T.land(T.lnot(eq0(f(ip, st, o, "live"))), TRUE if k is T.string(kind) else FALSE)
        need(ip, st, T.lor(T.lnot(c), good))
        r = o
    return r if len(each(h)) == 1 else None


def creator(kind, out, comm=0):
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        ip.store(st, ip.deref(v[out]), new(ip, st, kind, v[comm]))
        return "r", ZERO
    return h


def destroyer(kind):
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        loc = ip.deref(v[0])
        h = ip.load(st, loc)
        for c, o in each(h):
            if o is None:
                # a null handle is accepted, anything else was never created
                x = h
                while x.op == "ite":
                    x = x.a[2]
                if x.op not in ("null", "nullptr") and not (cint(x) == 0):
                    need(ip, st, T.lnot(c))
                continue
            good = T.land(T.lnot(eq0(f(ip, st, o, "live"))), TRUE if f(ip, st, o, "kind") is T.string(kind) else FALSE)
            need(ip, st, T.lor(T.lnot(c), good))
            d = ip.known(st, T.land(c, good))
            bump(ip, st, "live", num(-1), d)
            n = f(ip, st, o, "live")
            f(ip, st, o, "live", ite(d, sub(n, ONE), n))
        ip.store(st, loc, mk("nullptr"))
        return "r", ZERO
    return h


def reference(d):
    """PetscObjectReference / PetscObjectDereference: "live" counts the references to an object that is alive"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        for c, o in each(v[0]):
            if o is None:
                need(ip, st, T.lnot(c))
                continue
            n = f(ip, st, o, "live")
            need(ip, st, T.lor(T.lnot(c), T.lnot(eq0(n))))
            w = ip.known(st, T.land(c, T.lnot(eq0(n))))
            bump(ip, st, "live", num(d), w)
            f(ip, st, o, "live", ite(w, add(n, num(d)), n))
        return "r", ZERO
    return h


def mat_dims(*which):
    """MatGetSize, MatGetLocalSize, MatGetOwnershipRange: sizes of the part this rank holds are the library's choice"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        o = use(ip, st, v[0], "Mat")
        for k, w in enumerate(which):
            if len(v) > k + 1 and v[k + 1].op not in ("null", "nullptr"):
                x = f(ip, st, o, w) if w in ("nrows", "ncols") and o is not None else T.declare_nonneg(mk("app", e["q"], num(k), *[v[0]])) or mk("app", e["q"], num(k), v[0])
                ip.store(st, ip.deref(v[k + 1]), x)
        return "r", ZERO
    return h


def is_reuse(ip, st, t, out, kind):
    """MatReuse: MAT_INITIAL_MATRIX makes an object, MAT_REUSE_MATRIX needs the one made before"""
    if cint(t) == 1:
        use(ip, st, ip.load(st, ip.deref(out)), kind)
        return True
    return False


def submatrix(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    use(ip, st, v[0], "Mat")
    for x in v[1:3]:
        if x.op not in ("null", "nullptr"):
            use(ip, st, x, "IS")
    if not is_reuse(ip, st, v[3], v[4], "Mat"):
        ip.store(st, ip.deref(v[4]), new(ip, st, "Mat", v[0]))
    return "r", ZERO


def submatrices(ip, st, fr, e, args, this):
    """MatCreateSubMatrices(mat, n, irow[], icol[], scall, &submat[]): n matrices in an array the library allocates"""
    v = args_(ip, st, fr, args)
    use(ip, st, v[0], "Mat")
    n = cint(v[1])
    if n is None:
        ip.store(st, ip.deref(v[5]), ip.unk("MatCreateSubMatrices of a varying number"))
        return "r", ZERO
    for k in range(n):
        for x in v[2:4]:
            use(ip, st, at(ip, st, x, k), "IS")
    if cint(v[4]) == 1:
        return "r", ZERO
    a = new(ip, st, "Mats", ZERO)
    f(ip, st, a, "data", lst(*[new(ip, st, "Mat", ZERO) for k in range(n)]))
    ip.store(st, ip.deref(v[5]), ip.extend(a, ("f", "data"), ("i", ZERO)))
    return "r", ZERO


def destroy_submatrices(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    loc = ip.deref(v[1])
    p = ip.load(st, loc)
    n = cint(v[0])
    if p.op in ("null", "nullptr"):
        return "r", ZERO
    a = mk("ptr", p.a[0], ()) if p.op == "ptr" else None
    if n is None or a is None or not isobj(a):
        need(ip, st, FALSE)
        return "r", ZERO
    use(ip, st, a, "Mats")
    d = f(ip, st, a, "data")
    for k in range(n):
        o = T.sel(d, num(k))
        use(ip, st, o, "Mat")
        bump(ip, st, "live", num(-1))
        if isobj(o):
            f(ip, st, o, "live", ZERO)
    bump(ip, st, "live", num(-1))
    f(ip, st, a, "live", ZERO)
    ip.store(st, loc, mk("nullptr"))
    return "r", ZERO


def derive(kind, src, out):
    """a new object from an existing one"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        use(ip, st, v[src], kind)
        ip.store(st, ip.deref(v[out]), new(ip, st, kind, v[0]))
        return "r", ZERO
    return h


def concatenate(ip, st, fr, e, args, this):
    """MatCreateMPIMatConcatenateSeqMat(comm, seqmat, n, scall, &mpimat)"""
    v = args_(ip, st, fr, args)
    use(ip, st, v[1], "Mat")
    if not is_reuse(ip, st, v[3], v[4], "Mat"):
        ip.store(st, ip.deref(v[4]), new(ip, st, "Mat", v[0]))
    return "r", ZERO


def diagonal(ip, st, fr, e, args, this):
    """MatCreateConstantDiagonal(comm, m, n, M, N, diag, &J)"""
    v = args_(ip, st, fr, args)
    p = new(ip, st, "Mat", v[0])
    f(ip, st, p, "nrows", v[3])
    f(ip, st, p, "ncols", v[4])
    ip.store(st, ip.deref(v[6]), p)
    return "r", ZERO


def mat_get(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    use(ip, st, v[0], "Mat")
    return "r", ZERO


# ------------------------------------------------------------------ communicators and groups
def commok(ip, st, h):
    """whether a value is a communicator that can be used: predefined, given by the caller, or created and not freed"""
    if h.op == "ite":
        return T.land(T.lor(T.lnot(h.a[0]), commok(ip, st, h.a[1])), T.lor(h.a[0], commok(ip, st, h.a[2])))
    if isobj(h):
        return T.land(T.lnot(eq0(f(ip, st, h, "live"))), TRUE if f(ip, st, h, "kind") is T.string("Comm") else FALSE)
    if h.op in ("null", "nullptr", "undef", "undefseq") or cint(h) is not None or "comm_null" in str(h):
        return FALSE
    return TRUE


def commuse(*out):
    """a local query: the rank or the size of a communicator are fixed by the communicator"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        need(ip, st, commok(ip, st, v[0]))
        for k in out:
            t = mk("app", e["q"], v[0])
            T.declare_nonneg(t)
            ip.store(st, ip.deref(v[k]), t)
        return "r", ZERO
    return h


def comm_name(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    need(ip, st, commok(ip, st, v[0]))
    if e["q"].endswith("get_name"):
        loc, i = S.seq_at(v[1])
        ip.store(st, ip.deref(v[2]), T.declare_nonneg(mk("app", "commnamelen", v[0])) or mk("app", "commnamelen", v[0]))
        if loc is not None:
            ip.store(st, loc, mk("app", "commname", v[0]))
    return "r", ZERO


def comm_group(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    need(ip, st, commok(ip, st, v[0]))
    p = new(ip, st, "Group", v[0])
    f(ip, st, p, "member", TRUE)
    ip.store(st, ip.deref(v[1]), p)
    return "r", ZERO


def group_range(ip, st, fr, e, args, this):
    """MPI_Group_range_incl(group, n, ranges[][3], &newgroup): whether this process is in it"""
    v = args_(ip, st, fr, args)
    g = use(ip, st, v[0], "Group")
    n = cint(v[1])
    p = new(ip, st, "Group", f(ip, st, g, "comm") if g is not None else ZERO)
    member = FALSE
    if n is not None and g is not None:
        me = mk("app", "MPI_Comm_rank", f(ip, st, g, "comm"))
        T.declare_nonneg(me)
        for k in range(n):
            row = [row3(ip, st, v[2], k, j) for j in range(3)]
            lo, hi, step = row
            if cint(step) == -1:
                lo, hi, step = hi, lo, ONE
            inr = T.land(T.ge0(sub(me, lo)), T.ge0(sub(hi, me)))
            if cint(step) != 1:
                inr = T.land(inr, mk("app", "onstep", me, lo, step))
            member = T.lor(member, inr)
    else:
        member = mk("app", "ingroup", v[0])
    f(ip, st, p, "member", member)
    ip.store(st, ip.deref(v[3]), p)
    return "r", ZERO


def row3(ip, st, p, k, j):
    loc, i = S.seq_at(p)
    x = T.sel(ip.load(st, loc), add(i, num(k)))
    return T.sel(x, num(j))


def comm_create(ip, st, fr, e, args, this):
    """MPI_Comm_create_group / MPI_Comm_create(comm, group, [tag,] &newcomm): MPI_COMM_NULL for the others"""
    v = args_(ip, st, fr, args)
    need(ip, st, commok(ip, st, v[0]))
    g = use(ip, st, v[1], "Group")
    m = f(ip, st, g, "member") if g is not None else TRUE
    ip.store(st, ip.deref(v[-1]), newcomm(ip, st, v[0], m))
    return "r", ZERO


def newcomm(ip, st, comm, member):
    member = ip.known(st, member)
    p = new(ip, st, "Comm", comm, member)
    return p if member is TRUE else ite(member, p, COMM_NULL)


COMM_NULL = mk("ptr", ("g", "ompi_mpi_comm_null"), ())


def comm_split(ip, st, fr, e, args, this):
    """MPI_Comm_split(comm, color, key, &newcomm): MPI_UNDEFINED gives MPI_COMM_NULL"""
    v = args_(ip, st, fr, args)
    need(ip, st, commok(ip, st, v[0]))
    c = v[1] if e["q"] == "MPI_Comm_split" else ZERO
    ip.store(st, ip.deref(v[-1]), newcomm(ip, st, v[0], T.lnot(eq0(sub(c, num(-32766)))) if e["q"] != "MPI_Comm_dup" else TRUE))
    return "r", ZERO


def mpi_free(kind, null):
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        loc = ip.deref(v[0])
        for c, o in each(ip.load(st, loc)):
            if o is None:
                need(ip, st, T.lnot(c))
                continue
            good = T.land(T.lnot(eq0(f(ip, st, o, "live"))), TRUE if f(ip, st, o, "kind") is T.string(kind) else FALSE)
            need(ip, st, T.lor(T.lnot(c), good))
            d = ip.known(st, T.land(c, good))
            bump(ip, st, "live", num(-1), d)
            f(ip, st, o, "live", ite(d, ZERO, f(ip, st, o, "live")))
        ip.store(st, loc, null)
        return "r", ZERO
    return h


def simple(kind, k=0):
    """a call that needs a live object and changes nothing the properties read"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        use(ip, st, v[k], kind)
        return "r", ZERO
    return h


def mat_sizes(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Mat")
    if o is not None:
        r, c = (v[3], v[4])
        r = v[1] if cint(r) == -1 else r
        c = v[2] if cint(c) == -1 else c
        f(ip, st, o, "nrows", r)
        f(ip, st, o, "ncols", c)
        f(ip, st, o, "data", T.fill(mul(r, c), ZERO))
    return "r", ZERO


def vec_sizes(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    if o is not None:
        n = v[1] if cint(v[2]) == -1 else v[2]
        f(ip, st, o, "nrows", n)
        f(ip, st, o, "data", T.fill(n, ZERO))
    return "r", ZERO


def vec_dup(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    p = new(ip, st, "Vec", f(ip, st, o, "comm") if o is not None else ZERO)
    if o is not None:
        n = f(ip, st, o, "nrows")
        f(ip, st, p, "nrows", n)
        f(ip, st, p, "data", T.fill(n, ZERO))
    ip.store(st, ip.deref(v[1]), p)
    return "r", ZERO


def at(ip, st, p, k):
    loc, i = S.seq_at(p)
    if loc is None:
        return ip.load(st, ip.deref(p)) if k == 0 else ip.unk("element %d of a single value" % k)
    return T.sel(ip.load(st, loc), add(i, num(k)))


def capacity(ip, st, p, a=None):
    """number of elements behind a pointer: the declared extent of an array, or the length of the sequence"""
    loc, i = S.seq_at(p)
    if isinstance(a, dict) and a.get("k") == "cast" and a.get("ck") == "ArrayToPointerDecay" and cint(i) is not None:
        m = re.search(r"\[(\d+)\]$", flow.base_type(a["c"].get("t", "")))
        if m:
            return int(m.group(1)) - cint(i)
    if loc is None:
        return 1
    n = cint(sub(seqlen(ip.load(st, loc)), i))
    return n


def isadd(m):
    return {1: False, 2: True}.get(cint(m))


def put_at(ip, st, o, i, n, x, cond, plus, what):
    """data[i] (+)= x where cond; an index outside the object is refused by the library"""
    d = f(ip, st, o, "data")
    inr = T.land(T.ge0(i), T.gt0(sub(n, i)))
    need(ip, st, T.lor(T.lnot(cond), T.lor(inr, T.lt0(i)) if hasattr(T, "lt0") else T.lor(inr, T.lnot(T.ge0(i)))))
    c = ip.known(st, T.land(cond, inr))
    nv = add(T.sel(d, i), x) if plus else x
    new = T.store(d, i, nv)
    f(ip, st, o, "data", new if c is TRUE else ite(c, new, d))


def mat_set(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Mat")
    if o is None:
        return "r", ZERO
    m, idxm, n, idxn, vals, mode = v[1:7]
    plus = isadd(mode)
    cm, cn = cint(m), cint(n)
    if cm is None:
        cm = capacity(ip, st, idxm, args[2])
    if cn is None:
        cn = capacity(ip, st, idxn, args[4])
    if plus is None or cm is None or cn is None:
        f(ip, st, o, "data", ip.unk("MatSetValues with an unbounded index set or unknown mode"))
        return "r", ZERO
    nr, nc = f(ip, st, o, "nrows"), f(ip, st, o, "ncols")
    for a in range(cm):
        for b in range(cn):
            cond = TRUE
            if cint(m) is None:
                cond = T.land(cond, T.gt0(sub(m, num(a))))
            if cint(n) is None:
                cond = T.land(cond, T.gt0(sub(n, num(b))))
            r, c = at(ip, st, idxm, a), at(ip, st, idxn, b)
            k = num(a * cn + b) if cint(n) is not None else None
            x = at(ip, st, vals, a * cn + b) if k is not None or a == 0 else None
            if x is None:
                x = ip.unk("MatSetValues of several rows with a varying number of columns")
            # negative indices are ignored, indices past the end are refused
            need(ip, st, T.lor(T.lnot(cond), T.land(T.gt0(sub(nr, r)), T.gt0(sub(nc, c)))))
            inr = T.land(cond, T.ge0(r), T.ge0(c), T.gt0(sub(nr, r)), T.gt0(sub(nc, c)))
            d = f(ip, st, o, "data")
            i = add(mul(r, nc), c)
            w = T.store(d, i, add(T.sel(d, i), x) if plus else x)
            inr = ip.known(st, inr)
            f(ip, st, o, "data", w if inr is TRUE else ite(inr, w, d))
    return "r", ZERO


def mat_set1(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Mat")
    if o is None:
        return "r", ZERO
    r, c, x, plus = v[1], v[2], v[3], isadd(v[4])
    nr, nc = f(ip, st, o, "nrows"), f(ip, st, o, "ncols")
    need(ip, st, T.land(T.gt0(sub(nr, r)), T.gt0(sub(nc, c))))
    inr = ip.known(st, T.land(T.ge0(r), T.ge0(c), T.gt0(sub(nr, r)), T.gt0(sub(nc, c))))
    d = f(ip, st, o, "data")
    i = add(mul(r, nc), c)
    w = T.store(d, i, add(T.sel(d, i), x) if plus else x)
    f(ip, st, o, "data", w if inr is TRUE else ite(inr, w, d))
    return "r", ZERO


def vec_set1(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    if o is None:
        return "r", ZERO
    i, x, plus = v[1], v[2], isadd(v[3])
    vec_put(ip, st, o, i, x, plus, TRUE)
    return "r", ZERO


def vec_put(ip, st, o, i, x, plus, cond):
    n = f(ip, st, o, "nrows")
    need(ip, st, T.lor(T.lnot(cond), T.gt0(sub(n, i))))
    inr = ip.known(st, T.land(cond, T.ge0(i), T.gt0(sub(n, i))))
    d = f(ip, st, o, "data")
    w = T.store(d, i, add(T.sel(d, i), x) if plus else x)
    f(ip, st, o, "data", w if inr is TRUE else ite(inr, w, d))


def vec_set(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    if o is None:
        return "r", ZERO
    n, idx, vals, plus = v[1], v[2], v[3], isadd(v[4])
    c = cint(n)
    if c is None:
        c = capacity(ip, st, idx, args[2])
    if c is None:
        d = f(ip, st, o, "data")
        loc, i0 = S.seq_at(idx)
        loc2, j0 = S.seq_at(vals)
        if loc is None or loc2 is None:
            f(ip, st, o, "data", ip.unk("VecSetValues from unknown storage"))
            return "r", ZERO
        k = T.fresh_bv()
        t = T.sel(ip.load(st, loc), add(i0, k))
        x = T.sel(ip.load(st, loc2), add(j0, k))
        f(ip, st, o, "data", T.mstore(d, T.l_op(k, n, TRUE, T.w_op(TRUE, t, add(T.sel(d, t), x) if plus else x))))
        return "r", ZERO
    for a in range(c):
        vec_put(ip, st, o, at(ip, st, idx, a), at(ip, st, vals, a), plus, TRUE if cint(n) is not None else T.gt0(sub(n, num(a))))
    return "r", ZERO


def vec_all(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    if o is not None:
        f(ip, st, o, "data", T.fill(f(ip, st, o, "nrows"), v[1]))
    return "r", ZERO


def is_create(ip, st, fr, e, args, this):
    """ISCreateGeneral(comm, n, idx[], mode, IS*)"""
    v = args_(ip, st, fr, args)
    p = new(ip, st, "IS", v[0])
    loc, i = S.seq_at(v[2])
    s = ip.load(st, loc) if loc is not None else ip.load(st, ip.deref(v[2]))
    if loc is not None:
        need(ip, st, T.ge0(sub(sub(seqlen(s), i), v[1])))
        if not (i is ZERO and seqlen(s) is v[1]):
            s = T.tslice(s, i, v[1])
    else:
        s = lst(s)
        need(ip, st, T.ge0(sub(ONE, v[1])))
    f(ip, st, p, "nrows", v[1])
    f(ip, st, p, "data", s)
    ip.store(st, ip.deref(v[4]), p)
    return "r", ZERO


def is_stride(ip, st, fr, e, args, this):
    """ISCreateStride(comm, n, first, step, IS*)"""
    v = args_(ip, st, fr, args)
    p = new(ip, st, "IS", v[0])
    k = T.fresh_bv()
    f(ip, st, p, "nrows", v[1])
    f(ip, st, p, "data", T.gen(k, v[1], add(v[2], mul(k, v[3]))))
    ip.store(st, ip.deref(v[4]), p)
    return "r", ZERO


def factor(ip, st, fr, e, args, this):
    """MatLUFactor(A, row, col, info): A becomes its factors, solved with later"""
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Mat")
    for x in v[1:3]:
        if x.op in ("null", "nullptr"):
            continue
        i = use(ip, st, x, "IS")
        if i is not None and o is not None:
            n = f(ip, st, o, "nrows")
            need(ip, st, eq0(sub(f(ip, st, i, "nrows"), n)))
            f(ip, st, o, "perm", mk("app", "isperm", n, f(ip, st, i, "data")))
            need(ip, st, T.lnot(eq0(mk("app", "isperm", n, f(ip, st, i, "data")))))
    if o is not None:
        need(ip, st, TRUE if f(ip, st, o, "state") is T.string("new") else FALSE)
        f(ip, st, o, "state", T.string("factored"))
    return "r", ZERO


def solve(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    A, b, x = use(ip, st, v[0], "Mat"), use(ip, st, v[1], "Vec"), use(ip, st, v[2], "Vec")
    if A is None or b is None or x is None:
        return "r", ZERO
    need(ip, st, TRUE if f(ip, st, A, "state") is T.string("factored") else FALSE)
    need(ip, st, TRUE if b is not x else FALSE)
    n = f(ip, st, A, "nrows")
    for t in (f(ip, st, A, "ncols"), f(ip, st, b, "nrows"), f(ip, st, x, "nrows")):
        need(ip, st, eq0(sub(t, n)))
    s = mk("app", "linsolve", n, ONE, f(ip, st, A, "data"), f(ip, st, b, "data"))
    T.set_len(s, n)
    f(ip, st, x, "data", s)
    return "r", ZERO


def getarray(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    o = use(ip, st, v[0], "Vec")
    if o is not None:
        ip.store(st, ip.deref(v[1]), ip.extend(o, ("f", "data"), ("i", ZERO)))
        bump(ip, st, "borrowed", ONE)
    return "r", ZERO


def restorearray(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    use(ip, st, v[0], "Vec")
    ip.store(st, ip.deref(v[1]), mk("nullptr"))
    bump(ip, st, "borrowed", num(-1))
    return "r", ZERO


def info(ip, st, fr, e, args, this):
    args_(ip, st, fr, args)
    return "r", ZERO


def reader(name):
    return lambda ip, st, fr, e, args, this: ("r", get(ip, st, name))


def op_isperm(ctx, a, env):
    n = ctx.i(a[0], env)
    return 1 if sorted(int(ctx.num(x)) for x in ctx.seq(ctx.ev(a[1], env))) == list(range(n)) else 0


MODELS = {"MatCreate": creator("Mat", 1), "VecCreate": creator("Vec", 1), "MatDestroy": destroyer("Mat"), "VecDestroy": destroyer("Vec"), "ISDestroy": destroyer("IS"),
          "MatSetSizes": mat_sizes, "VecSetSizes": vec_sizes, "MatSetValues": mat_set, "MatSetValue": mat_set1, "VecSetValue": vec_set1, "VecSetValues": vec_set, "VecSet": vec_all, "VecDuplicate": vec_dup,
          "ISCreateGeneral": is_create, "ISCreateStride": is_stride, "MatLUFactor": factor, "MatSolve": solve, "VecGetArray": getarray, "VecRestoreArray": restorearray,
          "VecGetArrayRead": getarray, "VecRestoreArrayRead": restorearray, "MatFactorInfoInitialize": info,
          "ef_live": reader("live"), "ef_illegal": reader("illegal"), "ef_borrowed": reader("borrowed"), "ef_wide": reader("wide")}
for n in ("MatSetFromOptions", "MatSetType", "MatSetUp", "MatAssemblyBegin", "MatAssemblyEnd"):
    MODELS[n] = simple("Mat")
for n in ("VecSetFromOptions", "VecSetType", "VecSetUp", "VecAssemblyBegin", "VecAssemblyEnd"):
    MODELS[n] = simple("Vec")
OPS = {"isperm": op_isperm}

MODELS.update({"PetscObjectReference": reference(1), "PetscObjectDereference": reference(-1), "MatGetSize": mat_dims("nrows", "ncols"), "MatGetLocalSize": mat_dims("m", "n"), "MatGetOwnershipRange": mat_dims("lo", "hi"),
               "MatCreateSubMatrix": submatrix, "MatCreateSubMatrices": submatrices, "MatDestroySubMatrices": destroy_submatrices, "MatDestroyMatrices": destroy_submatrices,
               "MatCreateMPIMatConcatenateSeqMat": concatenate, "MatCreateConstantDiagonal": diagonal, "MatDuplicate": derive("Mat", 0, 2), "MatGetValue": mat_get, "MatGetValues": mat_get})
# objects whose contents the properties do not read: the handle contract only
CONTRACT = {"MatSetValues": simple("Mat"), "MatSetValue": simple("Mat"), "VecSetValue": simple("Vec"), "VecSetValues": simple("Vec"),
            "MPI_Comm_rank": commuse(1), "MPI_Comm_size": commuse(1), "MPI_Comm_get_name": comm_name, "MPI_Comm_set_name": comm_name, "MPI_Barrier": commuse(),
            "MPI_Comm_group": comm_group, "MPI_Group_range_incl": group_range, "MPI_Comm_create_group": comm_create, "MPI_Comm_create": comm_create, "MPI_Comm_split": comm_split, "MPI_Comm_dup": comm_split,
            "MPI_Comm_free": mpi_free("Comm", COMM_NULL), "MPI_Group_free": mpi_free("Group", mk("ptr", ("g", "ompi_mpi_group_null"), ()))}
