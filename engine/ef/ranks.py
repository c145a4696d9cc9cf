"""Several ranks at once: the same program is followed on every rank of a small machine.

Ranks are followed one after the other, over and over, until what each contributes to every collective operation and
message no longer changes; then every operation must have been entered by all members of its communicator, in the same
way, and the orders in which the ranks enter them must be compatible (otherwise some rank waits for ever)."""
from . import flow, p_comm, stdmodel as S, terms as T
from .terms import mk, num, ite, add, sub, lst, seqlen, cint, ZERO, ONE, TRUE, FALSE

WORLD = mk("ptr", ("g", "ompi_mpi_comm_world"), ())
SELF = mk("ptr", ("g", "ompi_mpi_comm_self"), ())
COMM_NULL = mk("ptr", ("g", "ompi_mpi_comm_null"), ())
GROUP_NULL = mk("ptr", ("g", "ompi_mpi_group_null"), ())
UNDEFINED = -32766


class Machine:
    def __init__(self, n):
        self.n = n
        self.before = {}
        self.data = {}
        self.begin()

    def begin(self):
        self.pc = frozenset()
        self.members = {}
        self.order = []
        self.faults = []
        self.calls = {}

    def at(self, r):
        self.rank = r
        self.seq = {}
        self.order.append([])


def of(ip):
    return ip.machine


def args_(ip, st, fr, args):
    v = [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]
    under(ip, st)
    return v


def under(ip, st):
    """the conditions the next operation stands under (those whose other side gives up do not count)"""
    M = of(ip)
    M.pc = frozenset(x for p in st.pc for x in (p.a if p.op == "and" else (p,)) if T.lnot(x) not in ip.raised)


def named(t):
    s = str(t.a[0][-1]) if t.op == "ptr" and isinstance(t.a[0], tuple) else ""
    return s.split("::")[-1]


def members(ip, c):
    M = of(ip)
    if named(c) == "ompi_mpi_comm_world":
        return list(range(M.n))
    if named(c) == "ompi_mpi_comm_self":
        return [M.rank]
    return M.members.get(c)


def fault(ip, text):
    of(ip).faults.append("rank %d: %s" % (of(ip).rank, text))


def enter(ip, kind, comm, sig, data):
    """join a collective operation; what all ranks contributed in the last round, by rank"""
    M = of(ip)
    m = members(ip, comm)
    if m is None or M.rank not in m:
        fault(ip, "%s on a communicator this rank is not part of" % kind)
        return {}
    if named(comm) == "ompi_mpi_comm_self":
        return {M.rank: data}
    k = M.seq.get(comm, 0)
    M.seq[comm] = k + 1
    key = (comm, k)
    M.calls.setdefault(key, {})[M.rank] = (kind, sig, M.pc)
    M.order[M.rank].append(key)
    M.data[(key, M.rank)] = (kind, data)
    # what ranks contribute that stand in another operation is of no use (they are reported when the ranks are matched)
    r = {q: M.before[(key, q)][1] for q in m if (key, q) in M.before and M.before[(key, q)][0] == kind}
    r[M.rank] = data
    return r


def newcomm(ip, parent, k, who):
    c = mk("ptr", ("g", "comm %s of %s (%s)" % (k, named(parent), ",".join(map(str, who)))), ())
    of(ip).members[c] = who
    return c


def h_group(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    m = members(ip, v[0])
    if m is None:
        fault(ip, "MPI_Comm_group of an unknown communicator")
        m = []
    ip.store(st, ip.deref(v[1]), mk("app", "group", *[num(r) for r in m]))
    return "r", ZERO


def group(g):
    return [cint(x) for x in g.a[1:]] if g.op == "app" and g.a[0] == "group" else []


def ints(ip, st, p, n):
    loc, i = S.seq_at(p)
    if loc is None:
        return [ip.load(st, ip.deref(p))] if n == 1 else None
    v = ip.load(st, loc)
    return [T.sel(v, add(i, num(k))) for k in range(n)]


def h_range_incl(ip, st, fr, e, args, this):
    from . import petsc
    v = args_(ip, st, fr, args)
    g = group(v[0])
    out = []
    for k in range(cint(v[1]) or 0):
        a, b, s = [cint(petsc.row3(ip, st, v[2], k, j)) for j in range(3)]
        if a is None or b is None or not s:
            return "r", ip.unk("a range of ranks that is not a constant")
        out += [g[x] for x in (range(a, b + 1, s) if s > 0 else range(a, b - 1, s)) if 0 <= x < len(g)]
    ip.store(st, ip.deref(v[3]), mk("app", "group", *[num(r) for r in out]))
    return "r", ZERO


def h_incl(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    g, n = group(v[0]), cint(v[1])
    xs = [cint(x) for x in ints(ip, st, v[2], n)] if n is not None else [None]
    if None in xs:
        return "r", ip.unk("a list of ranks that is not a constant")
    ip.store(st, ip.deref(v[3]), mk("app", "group", *[num(g[x]) for x in xs]))
    return "r", ZERO


def h_create(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    who = group(v[1])
    M = of(ip)
    if e["q"] == "MPI_Comm_create":
        enter(ip, "MPI_Comm_create", v[0], None, None)
    c = COMM_NULL
    if M.rank in who:
        # entered by the group only
        k = M.seq.get(("create", tuple(who)), 0)
        M.seq[("create", tuple(who))] = k + 1
        key = (("create", v[0]) + tuple(who), k)
        M.calls.setdefault(key, {})[M.rank] = (e["q"], v[2] if e["q"] == "MPI_Comm_create_group" else None, M.pc)
        M.members[key[0]] = who
        M.order[M.rank].append(key)
        c = newcomm(ip, v[0], "created %d" % k, who)
    ip.store(st, ip.deref(v[-1]), c)
    return "r", ZERO


def h_split(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    M = of(ip)
    dup = e["q"] == "MPI_Comm_dup"
    col, key = (ZERO, ZERO) if dup else (v[1], v[2])
    k = M.seq.get(v[0], 0)
    d = enter(ip, e["q"], v[0], None, (col, key))
    if cint(col) is None:
        return "r", ip.unk("a colour that is not a constant")
    if cint(col) == UNDEFINED:
        c = COMM_NULL
    else:
        who = sorted((r for r in d if d[r][0] is col), key=lambda r: (cint(d[r][1]) or 0, r))
        c = newcomm(ip, v[0], "split %d" % k, who)
    ip.store(st, ip.deref(v[-1]), c)
    return "r", ZERO


def h_rank(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    m = members(ip, v[0])
    if m is None or of(ip).rank not in m:
        fault(ip, "MPI_Comm_rank on a communicator this rank is not part of")
        m = [of(ip).rank]
    ip.store(st, ip.deref(v[1]), num(m.index(of(ip).rank)))
    return "r", ZERO


def h_size(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    ip.store(st, ip.deref(v[1]), num(len(members(ip, v[0]) or [0])))
    return "r", ZERO


def h_barrier(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    enter(ip, "MPI_Barrier", v[0], None, None)
    return "r", ZERO


def short(ip, st, b, count):
    n = cint(ip.known(st, T.ge0(sub(b.cap, count)))) if False else T.ge0(sub(b.cap, count))
    if n is not TRUE:
        fault(ip, "a buffer that may be shorter than the count handed over")


def h_bcast(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = p_comm.buffer(ip, st, fr, ("r", v[0]), v[1])
    root = cint(v[3])
    isstr = b.seq is not None and b.str
    m = members(ip, v[4]) or []
    d = enter(ip, "MPI_Bcast", v[4], (v[3], named(v[2]), v[1]), (p_comm.payload(ip, st, b, v[1]), isstr, v[1]))
    short(ip, st, b, v[1])
    if root is None:
        return "r", ip.unk("a root that is not a constant")
    if not 0 <= root < len(m):
        fault(ip, "a root outside the communicator")
        return "r", ZERO
    src = m[root]
    if src != of(ip).rank and src in d and d[src][2] is v[1]:
        p_comm.fill(ip, st, b, TRUE, d[src][0], d[src][1], v[1])
    return "r", ZERO


def combine(op, xs):
    if not xs:
        return ZERO
    r = xs[0]
    for x in xs[1:]:
        r = {"max": lambda: ite(T.gt0(sub(x, r)), x, r), "min": lambda: ite(T.gt0(sub(r, x)), x, r), "sum": lambda: add(r, x)}[op]()
    return r


def h_reduce(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    allr = e["q"] == "MPI_Allreduce"
    comm = v[-1]
    n = cint(v[2])
    rb = p_comm.buffer(ip, st, fr, ("r", v[1]), v[2])
    inplace = cint(v[0]) == 1
    sb = rb if inplace else p_comm.buffer(ip, st, fr, ("r", v[0]), v[2])
    op = named(v[4]).split("_")[-1]
    d = enter(ip, e["q"], comm, (named(v[3]), op, v[2], None if allr else v[5]), p_comm.payload(ip, st, sb, v[2]))
    if n is None or op not in ("max", "min", "sum"):
        return "r", ip.unk("reduction")
    xs = [d[r] for r in (members(ip, comm) or []) if r in d]
    out = lst(*[combine(op, [T.sel(x, num(k)) for x in xs]) for k in range(n)])
    if allr or (members(ip, comm) or [None]).index(of(ip).rank) == cint(v[5]):
        p_comm.fill(ip, st, rb, TRUE, out, False, v[2])
    return "r", ZERO


def h_gather(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    sb = p_comm.buffer(ip, st, fr, ("r", v[0]), v[1])
    rb = p_comm.buffer(ip, st, fr, ("r", v[3]), v[4])
    d = enter(ip, e["q"], v[-1], (named(v[2]), v[1]), p_comm.payload(ip, st, sb, v[1]))
    xs = [d[r] for r in (members(ip, v[-1]) or []) if r in d]
    out = T.concat(*xs) if len(xs) > 1 else xs[0]
    p_comm.fill(ip, st, rb, TRUE, out, False, T.seqlen(out))
    return "r", ZERO


def message(ip, comm, src, dst, tag, sig, data=None):
    """one end of a message; the other end is met in rank order"""
    M = of(ip)
    ch = ("message", comm, src, dst, tag)
    side = "send" if data is not None else "receive"
    k = M.seq.get((ch, side), 0)
    M.seq[(ch, side)] = k + 1
    key = (ch, k)
    M.members[ch] = sorted({src, dst})
    M.calls.setdefault(key, {})[M.rank] = (side, sig, M.pc)
    M.order[M.rank].append(key)
    if data is not None:
        M.data[(key, src)] = data
    return M.before.get((key, src))


def h_send(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = p_comm.buffer(ip, st, fr, ("r", v[0]), v[1])
    short(ip, st, b, v[1])
    m = members(ip, v[5]) or []
    dst = cint(v[3])
    if dst is None or not 0 <= dst < len(m) or of(ip).rank not in m:
        fault(ip, "a message to a rank outside the communicator")
        return "r", ZERO
    message(ip, v[5], of(ip).rank, m[dst], v[4], (named(v[2]), v[1]), (p_comm.payload(ip, st, b, v[1]), b.seq is not None and b.str, v[1]))
    return "r", ZERO


def h_recv(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    b = p_comm.buffer(ip, st, fr, ("r", v[0]), v[1])
    short(ip, st, b, v[1])
    m = members(ip, v[5]) or []
    src = cint(v[3])
    if src is None or not 0 <= src < len(m) or of(ip).rank not in m:
        fault(ip, "a message from a rank outside the communicator")
        return "r", ZERO
    d = message(ip, v[5], m[src], of(ip).rank, v[4], (named(v[2]), v[1]))
    if d is not None and d[2] is v[1]:
        p_comm.fill(ip, st, b, TRUE, d[0], d[1], v[1])
    return "r", ZERO


def settle(M):
    """why the ranks may wait for ever, or use an operation in different ways"""
    out = list(M.faults)
    for (c, k), who in M.calls.items():
        m = M.members.get(c)
        if m is None:
            m = list(range(M.n))
        missing = [r for r in m if r not in who]
        what = sorted({w[0] for w in who.values()})
        if missing:
            out.append("%s entered by ranks %s, never by %s" % ("/".join(what), sorted(who), missing))
        elif isinstance(c, tuple) and c[0] == "message" and len({w[1] for w in who.values()}) > 1:
            out.append("a message sent and received with different layouts")
        elif not (isinstance(c, tuple) and c[0] == "message") and len({w[:2] for w in who.values()}) > 1:
            out.append("ranks %s enter one operation in different ways (%s)" % (sorted(who), ", ".join(what)))
        elif len({w[2] for w in who.values()}) > 1:
            out.append("%s under a condition that differs between ranks %s" % ("/".join(what), sorted(who)))
    if not out:
        # blocking operations: ranks advance only when all members of an operation stand in front of it
        pos = [0] * len(M.order)
        moved = True
        while moved:
            moved = False
            for r, o in enumerate(M.order):
                while pos[r] < len(o):
                    key = o[pos[r]]
                    m = M.members.get(key[0])
                    m = list(range(M.n)) if m is None else m
                    if not all(pos[q] < len(M.order[q]) and M.order[q][pos[q]] == key for q in m):
                        break
                    for q in m:
                        pos[q] += 1
                    moved = True
        stuck = [r for r, o in enumerate(M.order) if pos[r] < len(o)]
        if stuck:
            out.append("ranks %s wait for each other" % stuck)
    return out


def alike(a, b):
    """two rounds contributed the same, whatever stands in what was never given a value"""
    if a == b:
        return True
    if set(a) != set(b):
        return False
    any_ = mk("undef", "any")

    def canon(v):
        if isinstance(v, tuple):
            return tuple(canon(x) for x in v)
        if isinstance(v, T.T):
            return T.replace(v, {x: any_ for x in T.subterms(v) if x.op == "undef"})
        return v
    return all(a[k] == b[k] or canon(a[k]) == canon(b[k]) for k in a)


def everywhere(ip, st, program, e, fr, n, rounds=8):
    """follow `program` on every rank; the state left is the last rank's, the events those of the last round"""
    M = ip.machine = Machine(n)
    for k in range(rounds):
        x = st.copy()
        occ = dict(ip.occ)
        M.begin()
        for r in range(n):
            M.at(r)
            ip.event(x, "call", "ef_on_rank", [num(r)], e["l"])
            ip.call_value(program, [("r", num(r))], e, x, fr)
            if x.dead:
                break
        same = k > 0 and alike(M.data, M.before)
        M.before, M.data = M.data, {}
        if same or x.dead or not M.before:
            break
        ip.occ = occ
    else:
        ip.taint(x, "contributions of the ranks that keep changing")
    for f in settle(M):
        ip.event(x, "call", "ef_stuck", [T.string(f)], e["l"])
    st.become(x)


MODELS = {"MPI_Comm_rank": h_rank, "MPI_Comm_size": h_size, "MPI_Barrier": h_barrier, "MPI_Bcast": h_bcast, "MPI_Allreduce": h_reduce, "MPI_Reduce": h_reduce,
          "MPI_Allgather": h_gather, "MPI_Send": h_send, "MPI_Ssend": h_send, "MPI_Recv": h_recv,
          "MPI_Comm_group": h_group, "MPI_Group_range_incl": h_range_incl, "MPI_Group_incl": h_incl, "MPI_Comm_create_group": h_create, "MPI_Comm_create": h_create,
          "MPI_Comm_split": h_split, "MPI_Comm_dup": h_split}


def _ok(ip, st, fr, e, args, this):
    args_(ip, st, fr, args)
    return "r", ZERO


def _free(null):
    def h(ip, st, fr, e, args, this):
        v = args_(ip, st, fr, args)
        ip.store(st, ip.deref(v[0]), null)
        return "r", ZERO
    return h


def _name(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    loc, i = S.seq_at(v[1])
    ip.store(st, loc if loc is not None else ip.deref(v[1]), T.string("c"))
    ip.store(st, ip.deref(v[2]), ONE)
    return "r", ZERO


MODELS.update({"MPI_Group_free": _free(GROUP_NULL), "MPI_Comm_free": _free(COMM_NULL), "MPI_Comm_set_name": _ok, "MPI_Comm_get_name": _name})


def collective(ip, st, fr, e, args, this):
    """a collective operation whose results nobody reads here"""
    v = args_(ip, st, fr, args)
    enter(ip, e["q"], v[-1], None, None)
    for t, x in zip(e["pt"], v):
        if t.rstrip().endswith("*") and not t.startswith("const") and x.op == "ptr":
            ip.store(st, ip.deref(x), ip.unk("result of " + e["q"]))
    return "r", ZERO


MODELS.update({n: collective for n in ("MPI_Gather", "MPI_Gatherv", "MPI_Scatter", "MPI_Scatterv", "MPI_Allgatherv", "MPI_Alltoall", "MPI_Alltoallv", "MPI_Scan", "MPI_Exscan", "MPI_Reduce_scatter", "MPI_Reduce_scatter_block")})
