"""C18: application lifetime and timers, over the libraries' start/stop contract and an abstract clock."""
from .oblig import Ob
from .evalr import hnum
from . import adt, common, flow, stdmodel, terms as T
from .terms import mk, num, string, ite, add, eq0, sub, ZERO, ONE

E = "EllipticForest::"
OBS = []
STATE = {"mpi": "int", "petsc": "int", "own": "bool", "illegal": "int", "time": "double"}


def root(ip, name):
    r = ("g", "lib " + name)
    if r not in ip.rootinit:
        ip.rootinit[r] = ZERO if name == "illegal" else ip.make_sym(STATE[name], "lib " + name)
        ip.roottype[r] = STATE[name]
    return mk("ptr", r, ())


def get(ip, st, name):
    return ip.load(st, root(ip, name))


def put(ip, st, name, v):
    ip.store(st, root(ip, name), v)


def isn(v, k):
    return eq0(sub(v, num(k)))


def need(ip, st, ok):
    """a call outside the library's contract is counted"""
    put(ip, st, "illegal", ite(ok, get(ip, st, "illegal"), add(get(ip, st, "illegal"), ONE)))


def args_(ip, st, fr, args):
    return [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]


def mpi_init(ip, st, fr, e, args, this):
    m = get(ip, st, "mpi")
    need(ip, st, isn(m, 0))
    put(ip, st, "mpi", ite(isn(m, 0), ONE, m))
    return "r", ZERO


def mpi_final(ip, st, fr, e, args, this):
    m, p = get(ip, st, "mpi"), get(ip, st, "petsc")
    need(ip, st, T.land(isn(m, 1), T.lnot(isn(p, 1))))
    put(ip, st, "mpi", ite(isn(m, 1), num(2), m))
    return "r", ZERO


def petsc_init(ip, st, fr, e, args, this):
    m, p = get(ip, st, "mpi"), get(ip, st, "petsc")
    need(ip, st, T.lnot(isn(m, 2)))
    # PETSc starts MPI when nobody has, and then finishes it
    starts = T.land(isn(p, 0), isn(m, 0))
    put(ip, st, "own", ite(isn(p, 0), ite(isn(m, 0), T.TRUE, T.FALSE), T.tobool(get(ip, st, "own"))))
    put(ip, st, "mpi", ite(starts, ONE, m))
    put(ip, st, "petsc", ONE)
    return "r", ZERO


def petsc_final(ip, st, fr, e, args, this):
    m, p, o = get(ip, st, "mpi"), get(ip, st, "petsc"), T.tobool(get(ip, st, "own"))
    need(ip, st, T.land(isn(p, 1), isn(m, 1)))
    put(ip, st, "mpi", ite(T.land(isn(p, 1), o, isn(m, 1)), num(2), m))
    put(ip, st, "petsc", ZERO)
    put(ip, st, "own", T.FALSE)
    return "r", ZERO


def flag(lib, test):
    def h(ip, st, fr, e, args, this):
        p = args_(ip, st, fr, args)[0]
        ip.store(st, ip.deref(p), ite(test(get(ip, st, lib)), ONE, ZERO))
        return "r", ZERO
    return h


def mpi_query(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    need(ip, st, isn(get(ip, st, "mpi"), 1))
    ip.store(st, ip.deref(v[1]), mk("app", e["q"], v[0]))
    return "r", ZERO


def mpi_any(ip, st, fr, e, args, this):
    need(ip, st, isn(get(ip, st, "mpi"), 1))
    return "r", ZERO


def petsc_any(ip, st, fr, e, args, this):
    need(ip, st, isn(get(ip, st, "petsc"), 1))
    return "r", ZERO


def getter(name):
    return lambda ip, st, fr, e, args, this: ("r", get(ip, st, name))


def h_libs(ip, st, fr, e, args, this):
    for n, v in zip(("mpi", "petsc", "own"), args_(ip, st, fr, args)):
        put(ip, st, n, T.tobool(v) if n == "own" else v)
    put(ip, st, "illegal", ZERO)
    return "r", flow.UNIT


def h_time(ip, st, fr, e, args, this):
    put(ip, st, "time", args_(ip, st, fr, args)[0])
    return "r", flow.UNIT


def h_parser(ip, st, fr, e, args, this):
    return "r", ip.make_sym(E + "InputParser", "parser")


MODELS = dict(adt.MODELS)
MODELS.update({
    "MPI_Init": mpi_init, "MPI_Init_thread": mpi_init, "MPI_Finalize": mpi_final, "PetscInitialize": petsc_init, "PetscInitializeNoArguments": petsc_init, "PetscFinalize": petsc_final,
    "MPI_Initialized": flag("mpi", lambda m: T.lnot(isn(m, 0))), "MPI_Finalized": flag("mpi", lambda m: isn(m, 2)), "PetscInitialized": flag("petsc", lambda p: isn(p, 1)),
    "PetscFinalized": flag("petsc", lambda p: isn(p, 2)), "MPI_Comm_rank": mpi_query, "MPI_Comm_size": mpi_query, "MPI_Barrier": mpi_any, "PetscGetArgs": petsc_any,
    "ef_mpi": getter("mpi"), "ef_petsc": getter("petsc"), "ef_illegal": getter("illegal"), "ef_libs": h_libs, "ef_time": h_time,
    "std::chrono::steady_clock::now": getter("time"), "std::chrono::system_clock::now": getter("time"), "MPI_Wtime": getter("time"),
    E + "InputParser::(ctor)": h_parser, E + "InputParser::parse": common.skip,
})


def ob(name, about, code, spec, params=None, **k):
    k.setdefault("trials", 0.6)
    OBS.append(Ob(name, "efs::" + code, spec, params, cat="C18", models=MODELS, about=about, keep=lambda e: False, **k))


A = E + "EllipticForestApp::"
ob("application alone", A + "(dtor)", "t_app", "r_app", ranges=[(0, 1)], trials=2)
ob("application outlived by its libraries", A + "(dtor)", "t_app_after", "r_app_after", ranges=[(0, 1)], trials=2)
ob("application outlived by one library", A + "(dtor)", "t_app_ends", "r_app_ends", ranges=[(0, 1), (0, 2)], trials=2)
ob("two applications at once", A + "(dtor)", "t_pair", "r_pair", ranges=[(0, 1)], trials=2)
ob("two applications in turn", A + "(dtor)", "t_two", "r_two", ranges=[(0, 1)])
ob("default application", A + "(ctor)", "t_default", "r_default", ranges=[(0, 2)], trials=2)
ob("instance after the end", A + "(dtor)", "t_instance", "r_instance", ranges=[(1, 3)])
ob("timer cycles", E + "Timer::stop", "t_timer", "r_timer")
ob("timer read between cycles", E + "Timer::stop", "t_cycles", "r_cycles")


# ---------------------------------------------------------------- messages
def h_print(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    ip.event(st, "call", "print", [stdmodel.as_str(ip, st, v[0])] + v[1:], e["l"])
    return "r", ZERO


def h_rank(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    r = ("g", "world rank")
    if r not in ip.rootinit:
        ip.rootinit[r] = ip.make_sym("int", "world rank")
        ip.roottype[r] = "int"
    ip.store(st, ip.deref(v[1]), ip.load(st, mk("ptr", r, ())))
    return "r", ZERO


PM = dict(adt.MODELS)
PM.update({"printf": h_print, "ef_print": h_print, "MPI_Comm_rank": h_rank})
for n_, c_ in (("log", "Logger::log"), ("log_head", "Logger::logHead"), ("log_app", "EllipticForestApp::logHead")):
    OBS.append(Ob("messages: " + n_, "efs::t_" + n_, "r_" + n_, None, cat="C18", models=PM, about=E + c_, keep=lambda e: e.name == "print", ranges=[(0, 1), (0, 3)], trials=2))


# ---------------------------------------------------------------- the stages' timers
def timer(what):
    def h(ip, st, fr, e, args, this):
        p = ip.deref(this)
        k = p.a[1][-1][1] if p.op == "ptr" and p.a[1] else p
        ip.event(st, "call", "timer", [string(what), k], e["l"])
        return "r", ip.make_sym("double", "timer value") if what == "stop" else flow.UNIT
    return h


def h_timer(ip, st, fr, e, args, this):
    v = args_(ip, st, fr, args)
    ip.event(st, "call", "timer", [x if x.op == "str" else x for x in v], e["l"])
    return "r", flow.UNIT


def h_work(ip, st, fr, e, args, this):
    ip.event(st, "call", "work", [], e["l"])
    return "r", flow.UNIT


SM = dict(adt.MODELS, **common.STAGES)
SM.update({E + "Timer::start": timer("start"), E + "Timer::stop": timer("stop"), "ef_timer": h_timer, "ef_work": h_work})
for q in (E + "Quadtree<%sFiniteVolumePatch>" % E,):
    for n in ("merge", "split"):
        SM[q + "::" + n] = h_work
H = E + "HPSAlgorithm<EllipticForest::FiniteVolumeGrid, EllipticForest::FiniteVolumeSolver, EllipticForest::FiniteVolumePatch, double>::"
PFN = r"std::function<void\(FiniteVolumePatch&\)>"


def stage(name, code, spec, params, **k):
    OBS.append(Ob(name, H + code, spec, params, cat="C18", models=SM, ops=dict(adt.OPS, **common.OPS), setup=adt.setup, obs=[], keep=lambda e: e.name in ("timer", "work"), **k))


stage("setup timer", "setupStage", "l_setup", [])
stage("build timer", "buildStage", "l_build", [])
stage("upwards timer (patch)", "upwardsStage", "l_upwards", [PFN])
stage("upwards timer (function)", "upwardsStage", "l_upwards_fn", [r"std::function<double\(double,double\)>"])
stage("solve timer (patch)", "solveStage", "l_solve", [PFN])
stage("solve timer (function)", "solveStage", "l_solve_fn", [r"std::function<double\(int,double,double,double\*,double\*\)>"])
