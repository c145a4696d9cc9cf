"""C05: both ends of every message against the contract of a first-in-first-out channel."""
from .oblig import Ob
from . import adt, common, flow, stdmodel as S, terms as T
from .terms import mk, num, ite, add, eq0, sub, lst, fld, seqlen, cint, ZERO, ONE, TRUE, FALSE

E = "EllipticForest::"
OBS = []
STATE = {"rank": "int", "illegal": "int", "channel": "chan"}
# the C++ types each MPI datatype describes: (category, size)
DT = {"char": ("char", "signed char"), "signed_char": ("signed char", "char"), "unsigned_char": ("unsigned char",), "wchar": ("wchar_t",), "short": ("short",), "unsigned_short": ("unsigned short",),
      "int": ("int",), "unsigned": ("unsigned int",), "long": ("long",), "unsigned_long": ("unsigned long",), "long_long_int": ("long long", "long"), "long_long": ("long long", "long"),
      "unsigned_long_long": ("unsigned long long", "unsigned long"), "float": ("float",), "double": ("double",), "long_double": ("long double",), "cxx_bool": ("bool",), "c_bool": ("bool",),
      "int8_t": ("signed char", "char"), "uint8_t": ("unsigned char",), "int16_t": ("short",), "uint16_t": ("unsigned short",), "int32_t": ("int",), "uint32_t": ("unsigned int",),
      "int64_t": ("long", "long long"), "uint64_t": ("unsigned long", "unsigned long long")}


def root(ip, name):
    r = ("g", "lib " + name)
    if r not in ip.rootinit:
        ip.rootinit[r] = lst() if name == "channel" else ZERO if name == "illegal" else ip.make_sym(STATE[name], "lib " + name)
        ip.roottype[r] = STATE[name]
    return mk("ptr", r, ())


def get(ip, st, name):
    return ip.load(st, root(ip, name))


def put(ip, st, name, v):
    ip.store(st, root(ip, name), v)


def need(ip, st, ok):
    ok = ip.known(st, ok)
    if ok is not TRUE:
        put(ip, st, "illegal", ite(ok, get(ip, st, "illegal"), add(get(ip, st, "illegal"), ONE)))


def args_(ip, st, fr, args):
    return [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]


def ltype(ip, p):
    return (ip.loc_type(p.a) or "") if p.op == "ptr" and not any(s[0] == "i" for s in p.a[1]) else ""


def elemtype(a):
    """element type of a buffer argument as the caller wrote it"""
    while isinstance(a, dict) and a.get("k") in ("cast", "paren") and flow.base_type(a.get("t", "")).replace("const ", "").startswith("void"):
        a = a.get("e") or a.get("x")
    t = (a.get("t") or "") if isinstance(a, dict) else ""
    t = t.replace("const ", "").strip()
    if t.endswith("*"):
        return t[:-1].strip()
    if "[" in t:
        return t.split("[")[0].strip()
    return None


def dtype(t):
    """name of a predefined datatype"""
    while t.op == "cast":
        t = t.a[-1]
    s = str(t.a[0][-1]) if t.op == "ptr" and isinstance(t.a[0], tuple) else ""
    return s[len("ompi_mpi_"):] if s.startswith("ompi_mpi_") else None


class Buf:
    pass


def buffer(ip, st, fr, a, count):
    """the storage a buffer argument points to"""
    b = Buf()
    p = a[1] if isinstance(a, tuple) else ip.ev(a, st, fr)
    b.p = p
    b.loc, b.i = S.seq_at(p)
    if b.loc is None:
        b.loc = ip.deref(p)
        b.seq = None
        b.cap = ONE
        return b
    b.seq = ip.load(st, b.loc)
    t = ltype(ip, b.loc)
    b.str = flow.is_str(t) or b.seq.op in ("str", "cat", "substr", "strresize", "tostr")
    b.cap = sub(T.strlen(b.seq) if b.str else seqlen(b.seq), b.i)
    return b


def payload(ip, st, b, count):
    if b.seq is None:
        return lst(ip.load(st, b.loc))
    if b.str:
        return T.substr(b.seq, b.i, count) if not (b.i is ZERO and count is T.strlen(b.seq)) else b.seq
    if b.i is ZERO and count is seqlen(b.seq):
        return b.seq
    return T.tslice(b.seq, b.i, count)


def fill(ip, st, b, ok, data, isstr, n):
    """store received data"""
    if b.seq is None:
        old = ip.load(st, b.loc)
        new = T.sel(data, ZERO) if not isstr else ip.unk("character data received into a scalar")
    elif b.str != isstr:
        old, new = b.seq, ip.unk("characters received as numbers")
    elif b.str:
        old = b.seq
        new = data if b.i is ZERO and T.strlen(b.seq) is n else T.cat(T.substr(b.seq, ZERO, b.i), data, T.substr(b.seq, add(b.i, n), mk("npos")))
    else:
        old, new = b.seq, S.put(b.seq, b.i, data)
    ip.store(st, b.loc, new if ok is TRUE else old if ok is FALSE else ite(ok, new, old))


def fits(ip, st, a, b, count, ty):
    """the buffer holds `count` elements of the datatype"""
    need(ip, st, T.ge0(sub(b.cap, count)))
    need(ip, st, T.ge0(count))
    et, dt = elemtype(a) if not isinstance(a, tuple) else None, dtype(ty)
    if et and dt:
        need(ip, st, TRUE if et in DT.get(dt, (et,)) else FALSE)


def msg(**k):
    return T.struct("Msg", k)


def push(c, m):
    if c.op == "ite":
        return ite(c.a[0], push(c.a[1], m), push(c.a[2], m))
    return lst(*c.a, m) if c.op == "list" else c


def head(c, miss):
    """(message available, the message, the rest)"""
    if c.op == "ite":
        a, b = head(c.a[1], miss), head(c.a[2], miss)
        return ite(c.a[0], a[0], b[0]), a[1] if a[1] is b[1] else ite(c.a[0], a[1], b[1]) if a[1] is not None and b[1] is not None else a[1] or b[1], ite(c.a[0], a[2], b[2])
    if c.op == "list" and c.a:
        return TRUE, c.a[0], lst(*c.a[1:])
    return FALSE, None, c


def left(c):
    if c.op == "ite":
        return ite(c.a[0], left(c.a[1]), left(c.a[2]))
    return num(len(c.a)) if c.op == "list" else mk("app", "left", c)


def h_send(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = buffer(ip, st, fr, ("r", v[0]), v[1])
    fits(ip, st, args[0], b, v[1], v[2])
    data = payload(ip, st, b, v[1])
    put(ip, st, "channel", push(get(ip, st, "channel"), msg(data=data, str=T.TRUE if b.seq is not None and b.str else T.FALSE, n=v[1], ty=v[2], src=get(ip, st, "rank"), dst=v[3], tag=v[4], comm=v[5])))
    return "r", ZERO


def same(a, b, wild=None):
    if wild is not None and cint(a) == wild:
        return TRUE
    return TRUE if a is b else eq0(sub(a, b))


def sameobj(a, b):
    """handles: equal terms, or two different constants"""
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        x = a if a.op == "ite" else b
        y = b if x is a else a
        return ite(x.a[0], sameobj(x.a[1], y), sameobj(x.a[2], y))
    if a.op == "ptr" and b.op == "ptr":
        return FALSE
    return mk("app", "samehandle", *sorted((a, b), key=id))


def status(ip, st, p, e):
    if p.op == "ptr" or p.op == "padr":
        t = ltype(ip, ip.deref(p))
        if t:
            ip.store(st, ip.deref(p), ip.outterm("status", 0, t))


def h_recv(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = buffer(ip, st, fr, ("r", v[0]), v[1])
    fits(ip, st, args[0], b, v[1], v[2])
    got, m, rest = head(get(ip, st, "channel"), None)
    if m is None:
        need(ip, st, FALSE)
        return "r", ZERO
    f = lambda n: fld(m, n)
    ok = T.land(got, same(v[3], f("src"), -1 if cint(v[3]) == -1 else None), same(v[4], f("tag"), -1), same(get(ip, st, "rank"), f("dst")), sameobj(v[5], f("comm")), sameobj(v[2], f("ty")), T.ge0(sub(v[1], f("n"))))
    ok = ip.known(st, ok)
    need(ip, st, ok)
    fill(ip, st, b, ok, f("data"), f("str") is T.TRUE, f("n"))
    put(ip, st, "channel", rest if ok is TRUE else ite(ok, rest, get(ip, st, "channel")))
    return "r", ZERO


def h_bcast(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = buffer(ip, st, fr, ("r", v[0]), v[1])
    fits(ip, st, args[0], b, v[1], v[2])
    isroot = ip.known(st, same(get(ip, st, "rank"), v[3]))
    c = get(ip, st, "channel")
    data = payload(ip, st, b, v[1])
    mine = push(c, msg(data=data, str=T.TRUE if b.seq is not None and b.str else T.FALSE, n=v[1], ty=v[2], src=v[3], dst=ZERO, tag=ZERO, comm=v[4]))
    if isroot is TRUE:
        put(ip, st, "channel", mine)
        return "r", ZERO
    got, m, rest = head(c, None)
    if m is None:
        need(ip, st, isroot)
        put(ip, st, "channel", ite(isroot, mine, c))
        return "r", ZERO
    f = lambda n: fld(m, n)
    ok = T.land(got, same(v[3], f("src")), sameobj(v[4], f("comm")), sameobj(v[2], f("ty")), same(v[1], f("n")))
    ok = ip.known(st, ok)
    need(ip, st, T.lor(isroot, ok))
    fill(ip, st, b, T.land(T.lnot(isroot), ok), f("data"), f("str") is T.TRUE, f("n"))
    put(ip, st, "channel", ite(isroot, mine, ite(ok, rest, c)))
    return "r", ZERO


def h_rank(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    ip.store(st, ip.deref(v[1]), get(ip, st, "rank"))
    return "r", ZERO


def h_size(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    ip.store(st, ip.deref(v[1]), T.declare_nonneg(mk("app", "MPI_Comm_size", v[0])) or mk("app", "MPI_Comm_size", v[0]))
    return "r", ZERO


def h_setrank(ip, st, fr, e, args, this):
    put(ip, st, "rank", args_(ip, st, fr, args)[0])
    return "r", flow.UNIT


def h_channel(ip, st, fr, e, args, this):
    put(ip, st, "channel", lst())
    put(ip, st, "illegal", ZERO)
    return "r", flow.UNIT


def counted(v):
    return S


def collect(name, ci, ti, ri, extra):
    """a gathering or reducing call: the receive buffer becomes a function of everything it is handed"""
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        sb = buffer(ip, st, fr, ("r", v[0]), v[ci])
        rb = buffer(ip, st, fr, ("r", v[ri]), None)
        fits(ip, st, args[0], sb, v[ci], v[ti])
        et = elemtype(args[ri])
        rest = []
        for k in extra:
            x = v[k]
            loc, i = S.seq_at(x)
            if loc is not None:
                x = ip.load(st, loc)
                if i is not ZERO:
                    x = T.tslice(x, i, sub(seqlen(x), i))
            rest.append(x)
        data = payload(ip, st, sb, v[ci])
        t = mk("app", name, data, v[ci], mk("dt", dtype(v[ti]) or v[ti]) if False else T.string(dtype(v[ti]) or "?"), *[T.string(dtype(x) or "?") if x.op == "ptr" and dtype(x) else x for x in rest])
        if rb.seq is None:
            ip.store(st, rb.loc, t)
        else:
            n = seqlen(rb.seq)
            T.set_len(t, n)
            ip.store(st, rb.loc, t if rb.i is ZERO else ip.unk("gather into the middle of a buffer"))
        return "r", ZERO
    return h


MODELS = dict(common.MODELS)
MODELS.update({"MPI_Send": h_send, "MPI_Ssend": h_send, "MPI_Recv": h_recv, "MPI_Bcast": h_bcast, "MPI_Comm_rank": h_rank, "MPI_Comm_size": h_size,
               "MPI_Allgather": collect("allgather", 1, 2, 3, (4, 5, 6)), "MPI_Allgatherv": collect("allgatherv", 1, 2, 3, (4, 5, 6, 7)), "MPI_Allreduce": collect("allreduce", 2, 3, 1, (4, 5)),
               "ef_rank": h_setrank, "ef_channel": h_channel,
               "ef_left": lambda ip, st, fr, e, args, this: ("r", left(get(ip, st, "channel"))),
               "ef_illegal": lambda ip, st, fr, e, args, this: ("r", get(ip, st, "illegal"))})


def ob(name, about, code, spec, **k):
    k.setdefault("trials", 0.5)
    k.setdefault("obs", ["ret"])
    OBS.append(Ob(name, "efs::comm::" + code, "comm::" + spec, None, cat="C05", models=MODELS, about=about, keep=lambda e: False, **k))


M = E + "MPI::"
PRIM = ["char", "wchar", "short", "int", "long", "schar", "uchar", "ushort", "uint", "ulong", "ulonglong", "float", "double", "longdouble", "bool"]
for n in PRIM + ["string", "stdvec", "stdivec", "vec", "ivec", "mat", "nodevec", "grid", "patch", "nodepatch"]:
    if n not in ("grid", "patch", "nodepatch"):
        ob("send and receive of " + n, M + "receive", "t_p2p_" + n, "r_p2p_" + n)
    ob("broadcast of " + n, M + "broadcast", "t_bcast_" + n, "r_bcast_" + n)
    ob("broadcast of %s to a lower rank" % n, M + "broadcast", "t_bcastlow_" + n, "r_bcastlow_" + n)
ob("three values on one tag", M + "receive", "t_sequence", "r_sequence")
for n in ("stdvec", "stdivec", "vec", "double"):
    ob("allgather of " + n, M + "allgather", "t_gather_" + n, "r_gather_" + n)
    ob("allgatherv of " + n, M + "allgatherv", "t_gatherv_" + n, "r_gatherv_" + n)
for n in ("int", "double", "stdvec"):
    ob("allreduce of " + n, M + "allreduce", "t_reduce_" + n, "r_reduce_" + n)
