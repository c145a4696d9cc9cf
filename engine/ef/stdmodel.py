"""Meaning of the standard-library surface in the value-flow domain."""
import re
from . import terms as T
from .terms import mk, num, add, sub, mul, ite, land, lor, lnot, gt0, ge0, eq0, cint, sel, fld, struct, lst, concat, fill, seqlen, store, string, cat, TRUE, FALSE, ZERO, ONE
from .flow import base_type, is_ref, is_ptr, is_str, is_seq, is_map, is_int, is_flt, targs, elem_type, INTS, FLTS, MAP0, NULL, UNIT

NPOS = num(2 ** 64 - 1)


def rng(ip, st, a, b):
    """sequence of the elements in the iterator range [a, b)"""
    if a.op == "rev" and b.op == "rev":
        s = rng(ip, st, b.a[0], a.a[0])
        return None if s is None else reverse(s)
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0] and a.a[1] and b.a[1] and a.a[1][:-1] == b.a[1][:-1] and a.a[1][-1][0] == "i" and b.a[1][-1][0] == "i":
        base = ip.load(st, mk("ptr", a.a[0], a.a[1][:-1]))
        i, j = a.a[1][-1][1], b.a[1][-1][1]
        if base.op in ("str", "cat", "substr", "strset") or getattr(base, "a", None) and base.op == "sym" and base.a[1] == "str":
            if i is ZERO and j is T.strlen(base):
                return base
            return T.substr(base, i, sub(j, i))
        return T.tslice(base, i, sub(j, i))
    if a.op == "ptr" and not (a.a[1] and a.a[1][-1][0] == "i"):
        return None
    d = ip.ptrdiff(b, a)
    if a.op == "ptr" and cint(d) is not None:
        base = ip.load(st, mk("ptr", a.a[0], a.a[1][:-1]))
        return T.tslice(base, a.a[1][-1][1], d)
    if d.op != "app" or d.a[0] != "ptrdiff":
        p, i = (a.a[0], a.a[1]) if a.op == "padr" else (a, ZERO)
        return T.tslice(ip.load(st, mk("ptr", ("h", p), ())), i, d)
    return None


def reverse(s):
    if s.op in STRINGY or s.op == "sym" and s.a[1] == "str":
        return T.strrev(s)
    k = T.fresh_bv()
    n = seqlen(s)
    return T.gen(k, n, sel(s, sub(sub(n, ONE), k)))


def seq_at(p):
    """(sequence location, index) of an iterator"""
    if p.op == "ptr" and p.a[1] and p.a[1][-1][0] == "i":
        return mk("ptr", p.a[0], p.a[1][:-1]), p.a[1][-1][1]
    return None, None


def write_range(ip, st, out, seq):
    """copy a sequence to an output iterator; returns the end iterator"""
    loc, i = seq_at(out)
    n = seqlen(seq)
    if loc is None:
        p = out
        base_l = mk("ptr", ("h", p), ()) if p.op != "padr" else mk("ptr", ("h", p.a[0]), ())
        i = p.a[1] if p.op == "padr" else ZERO
        loc = base_l
    base = ip.load(st, loc)
    ip.store(st, loc, put(base, i, seq))
    return T.ptr_add(out, n)


def put(base, i, seq):
    """base with base[i .. i+len) := seq"""
    n = seqlen(seq)
    if i is ZERO and n is seqlen(base):
        return seq
    c = cint(n)
    if c is not None and c <= 64:
        r = base
        for k in range(c):
            r = store(r, add(i, num(k)), sel(seq, num(k)))
        return r
    k = T.fresh_bv()
    return T.mstore(base, T.l_op(k, n, TRUE, T.w_op(TRUE, add(i, k), sel(seq, k))))


def as_str(ip, st, v):
    """string value of a string or char pointer"""
    if v.op == "ptr":
        loc, i = seq_at(v)
        if loc is not None and i is ZERO:
            return ip.load(st, loc)
        if loc is not None:
            w = ip.load(st, loc)
            if w.op in STRINGY:
                return T.substr(w, i, mk("npos"))
        return ip.load(st, v)
    if v.op == "ite":
        return ite(v.a[0], as_str(ip, st, v.a[1]), as_str(ip, st, v.a[2]))
    return v


def default_of(ip, t, st, fr):
    return ip.zero_value(t, st, fr)


def ctor(ip, e, cls, st, fr):
    args = e["args"]
    b = cls
    if b.startswith("std::allocator<") or b.startswith("std::lock_guard") or b.startswith("std::unique_lock") or b == "std::mutex":
        return UNIT
    if is_str(b):
        args = [a for a in args if not (a.get("t", "").startswith("std::allocator") or (a.get("cls") or "").startswith("std::allocator"))]
        if not args:
            return string("")
        if len(args) == 1:
            return as_str(ip, st, ip.ev(args[0], st, fr))
        vals = [ip.ev(a, st, fr) for a in args]
        t0 = args[0].get("t", "")
        if is_int(t0) and is_int(args[1].get("t", "")):
            return mk("strfill", vals[0], vals[1])
        if is_str(t0):
            n = vals[2] if len(vals) > 2 else mk("npos")
            return T.substr(vals[0], vals[1], n)
        if is_ptr(args[1].get("t", "")) or "iterator" in args[1].get("t", ""):
            r = rng(ip, st, vals[0], vals[1])
            return r if r is not None else mk("app", "str-range", *vals)
        s = as_str(ip, st, vals[0])
        return mk("strprefix", s, vals[1]) if T.strlen(s) is not vals[1] else s
    if is_seq(b):
        args = [a for a in args if not a.get("t", "").startswith("std::allocator") and not (a.get("cls") or "").startswith("std::allocator")]
        if not args:
            return lst()
        if e.get("copy") or e.get("move") or is_seq(args[0].get("t", "")):
            return ip.ev(args[0], st, fr)
        vals = [ip.ev(a, st, fr) for a in args]
        et = elem_type(b)
        t0 = args[0].get("t", "")
        if len(vals) == 1:
            if is_int(t0):
                if vals[0].op in ("list",):
                    return vals[0]
                z = ip.zero_value(et, st, fr)
                return fill(vals[0], z)
            return vals[0]
        if is_int(t0) and not (is_ptr(args[1].get("t", "")) or "iterator" in args[1].get("t", "")) or (is_flt(t0)):
            return fill(vals[0], ip.coerce(vals[1], args[1].get("t", ""), et))
        r = rng(ip, st, vals[0], vals[1])
        return r if r is not None else ip.unk("vector range constructor")
    if is_map(b):
        if not args or (args[0].get("t") or "").startswith("std::allocator"):
            return MAP0
        return ip.ev(args[0], st, fr)
    if b.startswith("std::function<"):
        if not args:
            return NULL
        kind, v = ip.ex(args[0], st, fr)
        return ip.load(st, v) if kind == "l" else v
    if b.startswith("std::pair<"):
        if len(args) == 2:
            return struct("std::pair", {"first": ip.ev(args[0], st, fr), "second": ip.ev(args[1], st, fr)})
        if len(args) == 1:
            return ip.ev(args[0], st, fr)
        return ip.default_value(b, st, fr)
    if b.startswith("std::variant<"):
        if not args:
            return ip.default_value(b, st, fr)
        t = args[0].get("t", "")
        v = ip.ev(args[0], st, fr)
        if base_type(t).startswith("std::variant<"):
            return v
        return mk("var", alt_of(b, t), as_str(ip, st, v) if alt_of(b, t).startswith("std::basic_string") else v)
    if b.startswith("__gnu_cxx::__normal_iterator") or "iterator" in b:
        return ip.ev(args[0], st, fr) if args else mk("undef", "iterator")
    if b.startswith("std::initializer_list"):
        return ip.ev(args[0], st, fr) if args else lst()
    if "basic_ofstream" in b or "basic_ostringstream" in b or "basic_stringstream" in b or "basic_ifstream" in b or "basic_fstream" in b:
        vals = [as_str(ip, st, ip.ev(a, st, fr)) for a in args]
        if "ostringstream" in b or "basic_stringstream" in b:
            return struct("ostream", {"buf": vals[0] if vals and vals[0].op in ("str", "cat") else string("")})
        ip.event(st, "call", "open:" + b.split("<")[0], vals, e["l"])
        if "basic_ifstream" in b:
            return istream(vals[0]) if vals else struct("istream", {"path": string(""), "pos": ZERO, "ok": TRUE})
        v = struct("ostream", {"buf": string(""), "path": vals[0] if vals else string(""), "tag": mk("stream", vals[0] if vals else UNIT)})
        return written(ip, st, T.setf(v, {"buf": kept(ip, st, vals)})) if vals else v
    if b.startswith("std::chrono"):
        vals = [ip.ev(a, st, fr) for a in args]
        if "duration" in b:
            return mk("app", "chrono-cast", vals[0]) if False else (vals[0] if vals else ZERO)
        return vals[0] if vals else ZERO
    if "exception" in b or "error" in b or b in ("std::out_of_range", "std::invalid_argument", "std::bad_variant_access", "std::bad_alloc"):
        for a in args:
            ip.ev(a, st, fr)
        return mk("exc", b)
    vals = [ip.ev(a, st, fr) for a in args]
    if len(vals) == 1 and (e.get("copy") or e.get("move")):
        return vals[0]
    m = re.match(r"std::(\w+)\b", b)
    if m and m.group(1) in ip.FUNCTORS and not vals:
        return struct(b, {})
    ip.taint(st, "std constructor " + b)
    return mk("app", "ctor:" + b, *vals)


FILES = mk("ptr", ("g", "lib files"), ())


def files(ip, st):
    """what the files hold, by name"""
    ip.rootinit.setdefault(FILES.a[0], mk("map0"))
    return ip.load(st, FILES)


def kept(ip, st, vals):
    """what a file that is opened starts with"""
    if not ip.files or len(vals) < 2:
        return string("")
    mode = cint(vals[1])
    if mode is None:
        return ip.unk("open mode")
    f = files(ip, st)
    return ite(T.mhas(f, vals[0]), T.mget(f, vals[0]), string("")) if mode & 1 else string("")


def written(ip, st, v):
    """the file of a stream holds what was written to it"""
    if ip.files and v.op == "struct" and v.a[0] == "ostream" and "path" in dict(v.a[1]) and fld(v, "path") is not string(""):
        ip.store(st, FILES, T.mapst(files(ip, st), fld(v, "path"), fld(v, "buf")))
    return v


def attr(v, name, default):
    return fld(v, name) if v.op == "struct" and name in dict(v.a[1]) else default


def istream(path):
    return struct("istream", {"path": path, "pos": ZERO, "ok": fileopen(path)})


def fileopen(path):
    r = mk("app", "fileopen", path)
    T.declare_bool(r)
    return r


STRINGY = {"str", "strerase", "cat", "substr", "strfilter", "strprefix", "strfill", "strresize", "strrev", "tostr", "chr"}


def alt_of(vt, t):
    """the alternative a converting construction of variant vt from type t selects"""
    t = base_type(t)
    alts = [base_type(x) for x in targs(vt)]
    if t in alts:
        return t
    if t.startswith("char[") or t in ("const char *", "char *") or is_str(t) or t.startswith("const char["):
        for a in alts:
            if a.startswith("std::basic_string"):
                return a
    if t in INTS:
        for a in alts:
            if a in INTS:
                return a
    if t in FLTS:
        for a in alts:
            if a in FLTS:
                return a
    return t


def vals_of(ip, args, st, fr):
    return [ip.ev(a, st, fr) for a in args]


def method(ip, e, this, args, st, fr):
    n = e["n"]
    cls = base_type(e["ot"])
    q = e["q"]
    if is_str(cls):
        return str_method(ip, e, n, this, args, st, fr)
    if is_seq(cls):
        return seq_method(ip, e, n, this, args, st, fr, cls)
    if is_map(cls):
        return map_method(ip, e, n, this, args, st, fr, cls)
    if "stream" in cls or "basic_ios" in cls or cls == "std::ios_base":
        vals = [as_str(ip, st, x) for x in vals_of(ip, args, st, fr)]
        if n == "str" and not args:
            return "r", fld(ip.load(st, this), "buf")
        if "basic_ifstream" in cls and n == "open":
            ip.store(st, this, istream(vals[0]))
            return "r", UNIT
        v = ip.load(st, this) if "basic_istream" in cls or "basic_ifstream" in cls or "basic_ios" in cls else None
        if v is not None and v.op == "struct" and v.a[0] == "istream":
            if n == "close":
                return "r", UNIT
            if n == "is_open":
                return "r", fileopen(fld(v, "path"))
            if n in ("(conv)", "good", "operator bool"):
                return "r", T.tobool(fld(v, "ok"))
            if n in ("fail", "operator!"):
                return "r", lnot(T.tobool(fld(v, "ok")))
            if n == "eof":
                return "r", ge0(sub(fld(v, "pos"), seqlen(mk("app", "filelines", fld(v, "path")))))
        if n == "open":
            ip.store(st, ip.extend(this, ("f", "path")), vals[0])
            ip.store(st, ip.extend(this, ("f", "buf")), kept(ip, st, vals))
            written(ip, st, ip.load(st, this))
            ip.event(st, "call", "open", vals, e["l"])
            return "r", UNIT
        if n == "close":
            v = ip.load(st, this)
            ip.event(st, "call", "close", [fld(v, "path"), fld(v, "buf")], e["l"])
            return "r", UNIT
        if n in ("write", "put"):
            b = ip.extend(this, ("f", "buf"))
            ip.store(st, b, cat(ip.load(st, b), vals[0] if n == "write" else mk("chr", vals[0])))
            written(ip, st, ip.load(st, this))
            return "l", this
        if n == "precision" and vals:
            setattr_(ip, st, this, "prec", vals[0])
            return "r", num(6)
        if n in ("(conv)", "good", "is_open", "operator bool", "fail", "eof"):
            r = mk("app", "stream-" + n, ip.load(st, this))
            T.declare_bool(r)
            return "r", r
        if n in ("flush", "precision", "width", "setf"):
            return "l", this
        return "r", ip.unk("stream method " + n)
    if cls.startswith("std::function<"):
        v = ip.load(st, this)
        if n == "operator()":
            return ip.call_value(v, args, e, st, fr)
        if n in ("(conv)", "operator bool"):
            return "r", lnot(T.isnull(v))
        if n == "operator=":
            ip.store(st, this, ip.ev(args[0], st, fr))
            return "l", this
    if cls.startswith("std::chrono"):
        v = ip.load(st, this)
        if n == "count" or n == "time_since_epoch":
            return "r", v
        if n == "operator=":
            ip.store(st, this, ip.ev(args[0], st, fr))
            return "l", this
    if n == "operator=" or (n == "emplace" and False):
        v = ip.ev(args[0], st, fr)
        if cls.startswith("std::variant<"):
            t = base_type(args[0].get("t", ""))
            if not t.startswith("std::variant<"):
                v = mk("var", alt_of(cls, t), v)
        ip.store(st, this, v)
        return "l", this
    if cls.startswith("std::variant<"):
        v = ip.load(st, this)
        if n == "index":
            if v.op == "var":
                alts = [base_type(x) for x in targs(cls)]
                if v.a[0] in alts:
                    return "r", num(alts.index(v.a[0]))
            r = mk("app", "var-index", v)
            T.declare_int(r)
            return "r", r
    if cls.startswith("std::mutex") or cls.startswith("std::unique_lock"):
        return "r", UNIT
    if cls.startswith("std::pair"):
        if n == "swap":
            pass
    if n == "what":
        return "r", mk("app", "what", ip.load(st, this))
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("std method " + q)


CSTR = True


def str_method(ip, e, n, this, args, st, fr):
    v = ip.load(st, this)
    if n in ("length", "size"):
        return "r", T.strlen(v)
    if n == "empty":
        return "r", T.streq(v, string(""))
    if n in ("c_str",):
        return "r", ip.extend(this, ("i", ZERO)) if this is not None and this.op == "ptr" and CSTR else v
    if n == "data":
        if e.get("cm"):
            return "r", v
        return "r", ip.extend(this, ("i", ZERO))
    if n == "substr":
        vals = vals_of(ip, args, st, fr)
        a = vals[0] if vals else ZERO
        c = vals[1] if len(vals) > 1 else mk("npos")
        if c is NPOS:
            c = mk("npos")
        return "r", T.substr(v, a, c)
    if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        vals = vals_of(ip, args, st, fr)
        needle = as_str(ip, st, vals[0])
        if is_int(args[0].get("t", "")):
            needle = chrstr(needle)
        pos = vals[1] if len(vals) > 1 else (NPOS if n in ("rfind", "find_last_of", "find_last_not_of") else ZERO)
        return "r", T.strfind(n, v, needle, pos)
    if n in ("begin", "cbegin"):
        return "r", ip.extend(this, ("i", ZERO))
    if n in ("end", "cend"):
        return "r", ip.extend(this, ("i", T.strlen(v)))
    if n in ("rbegin", "crbegin", "rend", "crend"):
        return "r", mk("rev", ip.extend(this, ("i", ZERO if n.endswith("end") else T.strlen(v))))
    if n in ("at", "operator[]"):
        return "l", ip.extend(this, ("i", ip.ev(args[0], st, fr)))
    if n == "front":
        return "l", ip.extend(this, ("i", ZERO))
    if n == "back":
        return "l", ip.extend(this, ("i", sub(T.strlen(v), ONE)))
    if n == "pop_back":
        ip.store(st, this, T.substr(v, ZERO, sub(T.strlen(v), ONE)))
        return "r", UNIT
    if n == "remove_prefix":
        ip.store(st, this, T.substr(v, ip.ev(args[0], st, fr), mk("npos")))
        return "r", UNIT
    if n == "remove_suffix":
        ip.store(st, this, T.substr(v, ZERO, sub(T.strlen(v), ip.ev(args[0], st, fr))))
        return "r", UNIT
    if n == "(conv)" or n.startswith("operator basic_string_view"):
        return "r", v
    if n == "push_back":
        ip.store(st, this, cat(v, chrstr(ip.ev(args[0], st, fr))))
        return "r", UNIT
    if n == "append":
        vals = vals_of(ip, args, st, fr)
        if len(vals) == 1:
            ip.store(st, this, cat(v, as_str(ip, st, vals[0])))
        elif len(vals) == 2 and is_int(args[0].get("t", "")):
            ip.store(st, this, cat(v, mk("strfill", vals[0], vals[1])))
        else:
            ip.store(st, this, ip.unk("string append"))
        return "l", this
    if n == "clear":
        ip.store(st, this, string(""))
        return "r", UNIT
    if n == "resize":
        c = ip.ev(args[0], st, fr)
        ip.store(st, this, v if T.strlen(v) is c else mk("strresize", v, c))
        return "r", UNIT
    if n == "erase":
        vals = vals_of(ip, args, st, fr)
        if not vals:
            ip.store(st, this, string(""))
            return "l", this
        if "iterator" in args[0].get("t", ""):
            la, i = seq_at(vals[0])
            if vals[0].op == "strit-remove":
                ip.store(st, this, vals[0].a[0])
                return "r", ip.extend(this, ("i", ZERO))
            j = seq_at(vals[1])[1] if len(vals) > 1 else None
            if i is not None:
                if j is None:
                    j = add(i, ONE)
                ip.store(st, this, cat(T.substr(v, ZERO, i), T.substr(v, j, mk("npos"))))
                return "r", ip.extend(this, ("i", i))
            ip.store(st, this, ip.unk("string erase"))
            return "r", ip.extend(this, ("i", ZERO))
        a = vals[0]
        c = vals[1] if len(vals) > 1 else NPOS
        if c is NPOS:
            ip.store(st, this, T.substr(v, ZERO, a))
        else:
            ip.store(st, this, mk("strerase", v, a, c))
        return "l", this
    if n == "compare" and len(args) == 1:
        o = as_str(ip, st, ip.ev(args[0], st, fr))
        r = mk("app", "strcmp", v, o)
        T.declare_int(r)
        return "r", r
    if n == "compare" and len(args) == 3:
        i, k, o = [ip.ev(a, st, fr) for a in args]
        r = mk("app", "strcmp", T.substr(v, i, k), as_str(ip, st, o))
        T.declare_int(r)
        return "r", r
    if n in ("starts_with", "ends_with", "contains"):
        o = as_str(ip, st, ip.ev(args[0], st, fr))
        if is_int(args[0].get("t", "")):
            o = chrstr(o)
        r = mk("app", n, v, o)
        T.declare_bool(r)
        return "r", r
    if n in ("reserve", "shrink_to_fit"):
        return "r", UNIT
    if n in ("operator=", "assign") and len(args) == 1:
        o = ip.ev(args[0], st, fr)
        ip.store(st, this, as_str(ip, st, o) if not is_int(args[0].get("t", "")) else chrstr(o))
        return "l", this
    if n in ("operator+=",):
        o = ip.ev(args[0], st, fr)
        ip.store(st, this, cat(v, as_str(ip, st, o) if not is_int(args[0].get("t", "")) else chrstr(o)))
        return "l", this
    if n == "insert":
        vals = vals_of(ip, args, st, fr)
        if is_int(args[0].get("t", "")) and len(vals) == 2:
            ip.store(st, this, cat(T.substr(v, ZERO, vals[0]), as_str(ip, st, vals[1]), T.substr(v, vals[0], mk("npos"))))
            return "l", this
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("string method " + n)


def chrstr(c):
    v = cint(c)
    if v is not None and 0 <= v < 256:
        return string(chr(v))
    return mk("chr", c)


def ins_conv(ip, a, et, st, fr):
    v = ip.ev(a, st, fr)
    v = ip.coerce(v, a.get("t", ""), et)
    if is_str(et):
        v = as_str(ip, st, v)
    return v


def emplaced(ip, et, args, st, fr, line):
    """the element a container builds in place from these arguments"""
    cls = base_type(et)
    if len(args) == 1 and not cls.startswith("std::variant<") and (cls not in ip.db.records or base_type(args[0].get("t", "")) == cls):
        return ins_conv(ip, args[0], et, st, fr)
    if cls.startswith("std::pair<") and len(args) == 2:
        t = targs(cls)
        return struct("std::pair", {"first": ins_conv(ip, args[0], t[0], st, fr), "second": emplaced(ip, t[1], args[1:], st, fr, line)})
    if not args and not cls in ip.db.records:
        return ip.zero_value(et, st, fr)
    if cls.startswith("std::"):
        return ctor(ip, {"k": "ctor", "args": args, "cls": cls, "t": cls, "l": line, "q": cls}, cls, st, fr)
    r = ip.db.records.get(cls)
    fs = [ip.db.fn(m["key"]) for m in (r or {}).get("methods") or [] if m["kind"] in ("dc", "ctor") and not m["del"] and len(m["params"]) == len(args)]
    fs = [f for f in fs if f is not None and f.get("body") is not None]
    if len(fs) > 1:
        fs = [f for f in fs if [base_type(p["t"]) for p in f["params"]] == [base_type(a.get("t", "")) for a in args]]
    if len(fs) == 1:
        return ip.construct(cls, fs[0], args, st, fr, {"l": line})
    for a in args:
        ip.ev(a, st, fr)
    return ip.unk("object built in place")


def seq_method(ip, e, n, this, args, st, fr, cls):
    v = ip.load(st, this)
    et = elem_type(cls)
    if n == "size":
        return "r", seqlen(v)
    if n == "empty":
        return "r", eq0(seqlen(v))
    if n in ("begin", "cbegin", "data"):
        return "r", ip.extend(this, ("i", ZERO))
    if n in ("end", "cend"):
        return "r", ip.extend(this, ("i", seqlen(v)))
    if n in ("rbegin", "rend", "crbegin", "crend"):
        return "r", mk("rev", ip.extend(this, ("i", ZERO if n.endswith("end") else seqlen(v))))
    if n == "front":
        return "l", ip.extend(this, ("i", ZERO))
    if n == "back":
        return "l", ip.extend(this, ("i", sub(seqlen(v), ONE)))
    if n in ("at", "operator[]"):
        i = ip.ev(args[0], st, fr)
        if n == "at":
            ok = land(ge0(i), gt0(sub(seqlen(v), i)))
            ok = ip.known(st, ok)
            if ok is not TRUE:
                pc = st.pc
                st.pc = pc + (lnot(ok),)
                ip.event(st, "throw", "out_of_range", (), e["l"])
                st.pc = pc + (ok,)
                if ok is FALSE:
                    st.dead = True
        return "l", ip.extend(this, ("i", i))
    if n in ("push_back", "emplace_back"):
        if n == "emplace_back":
            x = emplaced(ip, et, args, st, fr, e["l"])
            v = ip.load(st, this)
        else:
            x = ins_conv(ip, args[0], et, st, fr)
            v = ip.load(st, this)
        ip.store(st, this, concat(v, lst(x)))
        return ("r", UNIT) if n == "push_back" else ("l", ip.extend(this, ("i", seqlen(v))))
    if n == "pop_back":
        ip.store(st, this, T.tslice(v, ZERO, sub(seqlen(v), ONE)))
        return "r", UNIT
    if n in ("reserve", "shrink_to_fit"):
        for a in args:
            ip.ev(a, st, fr)
        return "r", UNIT
    if n == "clear":
        ip.store(st, this, lst())
        return "r", UNIT
    if n == "resize":
        c = ip.ev(args[0], st, fr)
        x = ins_conv(ip, args[1], et, st, fr) if len(args) > 1 else ip.zero_value(et, st, fr)
        ip.store(st, this, T.resize(v, c, x))
        return "r", UNIT
    if n == "assign":
        vals = vals_of(ip, args, st, fr)
        if len(vals) == 2 and not (is_ptr(args[0].get("t", "")) or "iterator" in args[0].get("t", "")):
            ip.store(st, this, fill(vals[0], ip.coerce(vals[1], args[1].get("t", ""), et)))
        elif len(vals) == 2:
            r = rng(ip, st, *vals)
            ip.store(st, this, r if r is not None else ip.unk("vector assign"))
        else:
            ip.store(st, this, vals[0])
        return "r", UNIT
    if n == "fill":
        ip.store(st, this, fill(seqlen(v), ip.ev(args[0], st, fr)))
        return "r", UNIT
    if n == "insert":
        vals = vals_of(ip, args, st, fr)
        loc, i = seq_at(vals[0])
        if i is None:
            ip.store(st, this, ip.unk("vector insert"))
            return "r", ip.unk("iterator")
        if len(vals) == 2:
            mid = lst(vals[1]) if not is_seq(args[1].get("t", "")) or is_seq(et) else vals[1]
        elif len(vals) == 3 and is_int(args[1].get("t", "")):
            mid = fill(vals[1], vals[2])
        else:
            mid = rng(ip, st, vals[1], vals[2])
            if mid is None:
                mid = ip.unk("vector insert range")
        v = ip.load(st, this)
        ip.store(st, this, concat(T.tslice(v, ZERO, i), mid, T.tslice(v, i, sub(seqlen(v), i))))
        return "r", ip.extend(this, ("i", i))
    if n == "erase":
        vals = vals_of(ip, args, st, fr)
        loc, i = seq_at(vals[0])
        if i is not None:
            j = add(i, ONE) if len(vals) == 1 else seq_at(vals[1])[1]
            if j is not None:
                ip.store(st, this, concat(T.tslice(v, ZERO, i), T.tslice(v, j, sub(seqlen(v), j))))
                return "r", ip.extend(this, ("i", i))
        ip.store(st, this, ip.unk("vector erase"))
        return "r", ip.unk("iterator")
    if n == "operator=":
        x = ip.ev(args[0], st, fr)
        ip.store(st, this, x)
        return "l", this
    if n == "swap":
        p = ip.lv(args[0], st, fr)
        o = ip.load(st, p)
        ip.store(st, p, v)
        ip.store(st, this, o)
        return "r", UNIT
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("vector method " + n)


def map_method(ip, e, n, this, args, st, fr, cls):
    v = ip.load(st, this)
    if n in ("contains", "count"):
        k = as_str(ip, st, ip.ev(args[0], st, fr))
        r = T.mhas(v, k)
        return "r", r if n == "contains" else ite(r, ONE, ZERO)
    if n == "at":
        k = as_str(ip, st, ip.ev(args[0], st, fr))
        ok = ip.known(st, T.mhas(v, k))
        if ok is not TRUE:
            pc = st.pc
            st.pc = pc + (lnot(ok),)
            ip.event(st, "throw", "out_of_range", (), e["l"])
            st.pc = pc + (ok,)
            if ok is FALSE:
                st.dead = True
        return "l", ip.extend(this, ("k", k))
    if n == "find":
        k = as_str(ip, st, ip.ev(args[0], st, fr))
        return "r", mk("mapit", this, k, v)
    if n in ("end", "cend"):
        return "r", mk("mapend", this)
    if n in ("begin", "cbegin"):
        return "r", mk("mapbegin", this)
    if n == "size":
        r = T.maplen(v)
        return "r", r
    if n == "empty":
        return "r", eq0(T.maplen(v)) if v.op != "map0" else TRUE
    if n == "clear":
        ip.store(st, this, MAP0)
        return "r", UNIT
    if n == "operator=":
        ip.store(st, this, ip.ev(args[0], st, fr))
        return "l", this
    if n == "operator[]":
        return "l", map_index(ip, st, this, as_str(ip, st, ip.ev(args[0], st, fr)), cls, fr)
    if n == "erase":
        k = ip.ev(args[0], st, fr)
        ip.store(st, this, mk("maperase", v, k))
        return "r", UNIT
    if n in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        t = targs(base_type(cls))
        if len(args) == 1:
            x = ip.ev(args[0], st, fr)
            k, x = as_str(ip, st, fld(x, "first")), fld(x, "second")
        elif n == "insert" or len(t) < 2:
            return "r", ip.unk("map method " + n)
        else:
            k = as_str(ip, st, ins_conv(ip, args[0], t[0], st, fr))
            x = emplaced(ip, t[1], args[1:], st, fr, e["l"])
        v = ip.load(st, this)
        had = T.mhas(v, k)
        ip.store(st, this, T.mapst(v, k, x if n == "insert_or_assign" else ite(had, T.mget(v, k), x)))
        return "r", struct("std::pair", {"first": mk("mapit", this, k, v), "second": lnot(had)})
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("map method " + n)


def map_index(ip, st, this, k, cls, fr):
    v = ip.load(st, this)
    has = T.mhas(v, k)
    if has is not TRUE:
        # operator[] default-constructs what is missing
        vt = targs(cls)[1]
        z = ip.zero_value(vt, st, fr)
        if has is FALSE:
            ip.store(st, this, T.mapst(v, k, z))
        else:
            ip.store(st, this, T.mapst(v, k, ite(has, T.mget(v, k), z)))
    return ip.extend(this, ("k", k))


def setattr_(ip, st, p, name, v):
    s = ip.load(st, p)
    if s.op == "struct":
        ip.store(st, p, struct(s.a[0], dict(s.a[1], **{name: v})))


PRINTF = re.compile(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?(?:hh|h|ll|l|z|j|t)?([diusxXc%])")


def printf(ip, st, fmt, vals):
    """text of a printf format; the longest it can be"""
    parts, most, at = [], 0, 0
    vals = list(vals)
    for m in PRINTF.finditer(fmt):
        if "%" in fmt[at:m.start()]:
            return None, None
        parts.append(string(fmt[at:m.start()]))
        most += m.start() - at
        at = m.end()
        flags, width, prec, conv = m.groups()
        if conv == "%":
            parts.append(string("%"))
            most += 1
            continue
        if not vals:
            return None, None
        v = vals.pop(0)
        if conv == "s":
            v = as_str(ip, st, v)
            if width or prec:
                return None, None
            parts.append(v)
            most += len(v.a[0]) if v.op == "str" else 10**9
        elif conv in "diuxX":
            c = cint(v)
            if c is not None:
                t = string(("%" + flags + width + ("." + prec if prec else "") + ("d" if conv in "diu" else conv)) % c)
                most += len(t.a[0])
            elif not flags and not width and not prec and conv in "diu":
                t, most = T.tostr(v, "int"), most + 20
            else:
                t, most = mk("app", "printf %s%s%s%s" % (flags, width, prec or "", "d" if conv in "diu" else conv), v), most + max(20, int(width or 0))
            parts.append(t)
        else:
            return None, None
    if "%" in fmt[at:]:
        return None, None
    parts.append(string(fmt[at:]))
    return cat(*parts), most + len(fmt) - at


DIGITS = {"double": 17, "float": 9, "long double": 21}


def tostream(ip, st, v, t, to=None):
    """text a value is written as"""
    b = base_type(t)
    if is_str(b) or b.startswith("char[") or b in ("const char *", "char *") or v.op in ("str", "cat", "tostr"):
        return as_str(ip, st, v)
    if b == "char":
        return chrstr(v)
    if b == "bool":
        return T.tostr(T.tonum(v), "int")
    if b in INTS:
        return T.tostr(v, "int")
    prec, fmt = attr(to, "prec", num(6)) if to is not None else num(6), attr(to, "fmt", string("")) if to is not None else string("")
    if b in DIGITS and cint(prec) is not None and fmt.op == "str":
        if fmt.a[0] == "hexfloat" or fmt.a[0] in ("", "scientific") and cint(prec) + (fmt.a[0] != "") >= DIGITS[b]:
            return T.tostr(v, "exact")
        if cint(prec) != 6 or fmt.a[0]:
            return T.tostr(v, "stream%d%s" % (cint(prec), fmt.a[0]))
    return T.tostr(v, "stream")


def operator(ip, e, st, fr):
    op = e["op"]
    args = e["args"]
    t0 = base_type(args[0].get("t", ""))
    if op == "()":
        f = ip.ev(args[0], st, fr)
        return ip.call_value(f, args[1:], e, st, fr)
    if op in ("<<", ">>") and ("stream" in t0 or "basic_ios" in t0):
        this = ip.lv(args[0], st, fr)
        if op == "<<":
            a = args[1]
            v = ip.ev(a, st, fr)
            at = a.get("t", "")
            if st.dead:
                return "r", mk("undef", "dead")
            if v.op == "func":
                nm = v.a[1]
                x = string("\n") if nm.endswith("endl") else string("")
                if nm.split("::")[-1] in ("fixed", "scientific", "hexfloat", "defaultfloat"):
                    setattr_(ip, st, this, "fmt", string(nm.split("::")[-1].replace("defaultfloat", "")))
            elif "basic_ostream" in base_type(at) and "(" in base_type(at):
                x = string("\n") if "endl" in str(a.get("n")) else string("")
            elif v.op == "app" and v.a[0] == "setprecision":
                setattr_(ip, st, this, "prec", v.a[1])
                x = string("")
            elif base_type(at).startswith("std::_Set"):
                x = string("")
            else:
                x = tostream(ip, st, v, at, ip.load(st, this))
            tag = this.a[0] if this.op == "ptr" else None
            if tag and tag[0] == "g" and tag[1] in ("std::cout", "std::cerr", "std::clog"):
                return "l", this
            b = ip.extend(this, ("f", "buf"))
            ip.store(st, b, cat(ip.load(st, b), x))
            written(ip, st, ip.load(st, this))
            return "l", this
        p = ip.lv(args[1], st, fr)
        o = ip.outterm("extract", 0, args[1].get("t", ""))
        ip.store(st, p, o)
        return "l", this
    if op == "=":
        p = ip.lv(args[0], st, fr)
        v = ip.ev(args[1], st, fr)
        t1 = base_type(args[1].get("t", ""))
        if t0.startswith("std::variant<") and not t1.startswith("std::variant<"):
            alt = alt_of(t0, t1)
            v = mk("var", alt, as_str(ip, st, v) if alt.startswith("std::basic_string") else v)
        if is_str(t0):
            v = chrstr(v) if is_int(t1) else as_str(ip, st, v)
        if st.dead:
            return "r", mk("undef", "dead")
        ip.store(st, p, v)
        return "l", p
    if op == "[]":
        this = ip.lv(args[0], st, fr)
        if is_map(t0):
            k = as_str(ip, st, ip.ev(args[1], st, fr))
            return "l", map_index(ip, st, this, k, t0, fr)
        i = ip.ev(args[1], st, fr)
        if is_seq(t0) or is_str(t0):
            return "l", ip.extend(this, ("i", i))
        return "l", ip.index_ptr(ip.load(st, this), i)
    if op == "+=" and is_str(t0):
        this = ip.lv(args[0], st, fr)
        v = ip.ev(args[1], st, fr)
        x = chrstr(v) if is_int(args[1].get("t", "")) else as_str(ip, st, v)
        ip.store(st, this, cat(ip.load(st, this), x))
        return "l", this
    if op == "+" and is_str(e.get("ret") or e.get("t") or ""):
        out = []
        for a in args:
            v = ip.ev(a, st, fr)
            out.append(chrstr(v) if is_int(a.get("t", "")) else as_str(ip, st, v))
        return "r", cat(*out)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        a, b = ip.ev(args[0], st, fr), ip.ev(args[1], st, fr)
        ta, tb = args[0].get("t", ""), args[1].get("t", "")
        if is_str(t0) or is_str(tb):
            a, b = as_str(ip, st, a), as_str(ip, st, b)
        if a.op == "mapit" and b.op in ("mapend", "mapit") or b.op == "mapit" and a.op == "mapend":
            it, en = (a, b) if a.op == "mapit" else (b, a)
            if en.op == "mapend":
                r = lnot(T.mhas(it.a[2], it.a[1]))
                return "r", r if op == "==" else lnot(r)
        if is_seq(t0):
            r = mk("app", "seqeq", a, b) if a is not b else TRUE
            if r.op == "app":
                T.declare_bool(r)
            return "r", r if op == "==" else lnot(r)
        if "function" in t0:
            r = T.isnull(a if b.op == "nullptr" else b)
            return "r", r if op == "==" else lnot(r)
        if a.op == "rev" and b.op == "rev":
            a, b = b.a[0], a.a[0]
        if "chrono" in t0 or True:
            return "r", ip.known(st, ip.compare(op, a, b, "iterator" if "iterator" in ta else ta, tb))
    if op in ("*", "->") and len(args) == 1:
        p = ip.ev(args[0], st, fr)
        if p.op == "mapit":
            root = ip.newroot("o")
            st.mem[root] = struct("std::pair", {"first": p.a[1], "second": T.mget(p.a[2], p.a[1])})
            q = mk("ptr", root, ())
            return ("l", q) if op == "*" else ("r", q)
        if p.op == "rev":
            p = T.ptr_add(p.a[0], num(-1))
        if op == "->":
            return "r", p
        return "l", ip.deref(p)
    if op in ("++", "--"):
        p = ip.lv(args[0], st, fr)
        old = ip.load(st, p)
        if old.op == "rev":
            ip.store(st, p, mk("rev", T.ptr_add(old.a[0], num(-1) if op == "++" else ONE)))
            return ("r", old) if len(args) == 2 else ("l", p)
        if old.op in ("mapbegin", "mapit", "unk"):
            ip.store(st, p, ip.unk("map iterator step"))
            return "l", p
        ip.store(st, p, T.ptr_add(old, ONE if op == "++" else num(-1)))
        return ("r", old) if len(args) == 2 else ("l", p)
    if op in ("+", "-") and len(args) == 2:
        a, b = ip.ev(args[0], st, fr), ip.ev(args[1], st, fr)
        if "chrono" in t0:
            return "r", T.sub(a, b) if op == "-" else T.add(a, b)
        ib = "iterator" in base_type(args[1].get("t", ""))
        if a.op == "rev":
            if b.op == "rev":
                return "r", ip.ptrdiff(b.a[0], a.a[0])
            return "r", mk("rev", T.ptr_add(a.a[0], T.neg(b) if op == "+" else b))
        if op == "-" and ib:
            return "r", ip.ptrdiff(a, b)
        return "r", T.ptr_add(a, b if op == "+" else T.neg(b))
    if op in ("+=", "-=") and len(args) == 2:
        p = ip.lv(args[0], st, fr)
        b = ip.ev(args[1], st, fr)
        old = ip.load(st, p)
        if "chrono" in t0:
            ip.store(st, p, T.add(old, b) if op == "+=" else T.sub(old, b))
        else:
            ip.store(st, p, T.ptr_add(old, b if op == "+=" else T.neg(b)))
        return "l", p
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("std operator %s on %s" % (op, t0))


def function(ip, e, st, fr):
    n = e["n"]
    args = e["args"]
    q = e["q"]
    at = [a.get("t", "") for a in args]
    if n in ("move", "forward", "as_const", "ref", "cref") and len(args) == 1:
        return ip.ex(args[0], st, fr)
    if n == "move" and len(args) == 3:
        n = "copy"
    if n == "to_string":
        v = ip.ev(args[0], st, fr)
        return "r", T.tostr(v, "int" if is_int((e.get("pt") or at)[0]) else "to_string")
    if n in ("min", "max"):
        if len(args) == 1:
            s = ip.ev(args[0], st, fr)
            if s.op == "list":
                return "r", T.app(n, *s.a)
            return "r", mk("app", "seq" + n, s)
        if len(args) == 2:
            vals = vals_of(ip, args, st, fr)
            r = T.app(n, T.tonum(vals[0]), T.tonum(vals[1]))
            if is_int(e.get("ret", "")) and r.op == "app":
                T.declare_int(r)
            return "r", r
    if n in ("min_element", "max_element") and len(args) == 2:
        a, b = vals_of(ip, args, st, fr)
        s = rng(ip, st, a, b)
        if s is None:
            return "r", ip.unk(n)
        root = ip.newroot("o")
        if s.op == "list" and s.a:
            v = T.app(n[:3], *s.a)
        else:
            v = mk("app", "seq" + n[:3], s)
        if v.op == "app" and ("int" in (e.get("ret") or at[0])):
            T.declare_int(v)
        st.mem[root] = v
        return "r", mk("ptr", root, ())
    if n in ("abs", "fabs", "pow", "sqrt", "log2", "log", "exp", "sin", "cos", "floor", "ceil", "round", "fmax", "fmin", "isnan", "isfinite", "tan", "atan", "atan2", "log10", "cbrt", "hypot", "tanh", "sinh", "cosh"):
        vals = vals_of(ip, args, st, fr)
        return "r", ip.pure_fn(n, vals, e)
    if n == "clamp" and len(args) == 3:
        x, lo, hi = vals_of(ip, args, st, fr)
        return "r", T.app("min", T.app("max", x, lo), hi)
    if n == "equal" and len(args) >= 3:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], vals[1])
        loc, i = seq_at(vals[2])
        if s is None or loc is None:
            return "r", ip.unk("equal")
        o = T.tslice(ip.load(st, loc), i, seqlen(s))
        c = cint(seqlen(s))
        if c is not None and c <= 64:
            return "r", land(*[eq0(sub(sel(s, num(j)), sel(o, num(j)))) for j in range(c)])
        r = mk("app", "seqeq", s, o) if s is not o else TRUE
        if r.op == "app":
            T.declare_bool(r)
        return "r", r
    if n == "copy" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], vals[1])
        if s is None:
            return "r", ip.unk("copy")
        if vals[2].op == "backins":
            p = vals[2].a[0]
            ip.store(st, p, concat(ip.load(st, p), s))
            return "r", vals[2]
        return "r", write_range(ip, st, vals[2], s)
    if n == "copy_n" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], T.ptr_add(vals[0], vals[1]))
        if s is None:
            return "r", ip.unk("copy_n")
        return "r", write_range(ip, st, vals[2], s)
    if n in ("back_inserter",):
        return "r", mk("backins", ip.lv(args[0], st, fr))
    if n in ("begin", "cbegin", "data"):
        return "r", ip.extend(ip.lv(args[0], st, fr), ("i", ZERO))
    if n in ("end", "cend"):
        p = ip.lv(args[0], st, fr)
        v = ip.load(st, p)
        return "r", ip.extend(p, ("i", T.strlen(v) if is_str(at[0]) else seqlen(v)))
    if n in ("size", "ssize") and len(args) == 1:
        v = ip.ev(args[0], st, fr)
        return "r", T.strlen(v) if is_str(at[0]) else seqlen(v)
    if n in ("next", "prev"):
        vals = vals_of(ip, args, st, fr)
        d = vals[1] if len(vals) > 1 else ONE
        return "r", T.ptr_add(vals[0], d if n == "next" else T.neg(d))
    if n == "distance":
        a, b = vals_of(ip, args, st, fr)
        return "r", ip.ptrdiff(b, a)
    if n == "advance":
        p = ip.lv(args[0], st, fr)
        d = ip.ev(args[1], st, fr)
        ip.store(st, p, T.ptr_add(ip.load(st, p), d))
        return "r", UNIT
    if n in ("fill", "fill_n") and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        cnt = ip.ptrdiff(vals[1], vals[0]) if n == "fill" else vals[1]
        return "r", write_range(ip, st, vals[0], fill(cnt, vals[2]))
    if n == "iota" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        k = T.fresh_bv()
        cnt = ip.ptrdiff(vals[1], vals[0])
        write_range(ip, st, vals[0], T.gen(k, cnt, add(vals[2], k)))
        return "r", UNIT
    if n == "swap" and len(args) == 2:
        p, r = ip.lv(args[0], st, fr), ip.lv(args[1], st, fr)
        a, b = ip.load(st, p), ip.load(st, r)
        ip.store(st, p, b)
        ip.store(st, r, a)
        return "r", UNIT
    if n in ("accumulate", "reduce") and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], vals[1])
        if s is None:
            return "r", ip.unk(n)
        k = T.fresh_bv()
        return "r", add(vals[2], T.tsum(k, seqlen(s), sel(s, k)))
    if n == "inner_product" and len(args) == 4:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], vals[1])
        loc, i = seq_at(vals[2])
        if s is None or loc is None:
            return "r", ip.unk(n)
        o = ip.load(st, loc)
        k = T.fresh_bv()
        return "r", add(vals[3], T.tsum(k, seqlen(s), mul(sel(s, k), sel(o, add(i, k)))))
    if n in ("transform", "for_each", "generate", "any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not", "min_element", "max_element", "find", "accumulate", "count", "generate_n", "lower_bound", "upper_bound", "is_sorted", "adjacent_find"):
        return algo(ip, e, n, args, st, fr)
    if n == "exchange" and len(args) == 2:
        kind, p = ip.ex(args[0], st, fr)
        if kind == "l":
            old, new = ip.load(st, p), ip.ev(args[1], st, fr)
            ip.store(st, p, new)
            return "r", old
    if n == "rotate" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        a, b = rng(ip, st, vals[0], vals[1]), rng(ip, st, vals[1], vals[2])
        if a is None or b is None:
            return "r", ip.unk("rotate")
        write_range(ip, st, vals[0], concat(b, a))
        return "r", T.ptr_add(vals[0], seqlen(b))
    if n == "swap_ranges" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        a = rng(ip, st, vals[0], vals[1])
        b = rng(ip, st, vals[2], T.ptr_add(vals[2], seqlen(a))) if a is not None else None
        if b is None:
            return "r", ip.unk("swap_ranges")
        write_range(ip, st, vals[0], b)
        write_range(ip, st, vals[2], a)
        return "r", T.ptr_add(vals[2], seqlen(a))
    if n == "reverse" and len(args) == 2:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, *vals)
        if s is None:
            return "r", ip.unk("reverse")
        if s.op in ("str", "cat", "substr", "sym", "scat", "chr", "ite", "fold") and ("char" in at[0]):
            loc, i = seq_at(vals[0])
            ip.store(st, loc, T.strrev(s))
            return "r", UNIT
        write_range(ip, st, vals[0], reverse(s))
        return "r", UNIT
    if n == "remove_if" and len(args) == 3:
        vals = vals_of(ip, args, st, fr)
        s = rng(ip, st, vals[0], vals[1])
        f = vals[2]
        nm = f.a[1] if f.op == "func" else "clos"
        loc, i = seq_at(vals[0])
        if s is None or f.op != "func" or "char" not in at[0]:
            return "r", ip.unk("remove_if")
        return "r", mk("strit-remove", mk("strfilter", s, nm.split("::")[-1]))
    if n == "get" and len(args) == 1:
        t = base_type(at[0])
        ta = e.get("ta") or []
        kind, v = ip.ex(args[0], st, fr)
        p = v if kind == "l" else None
        val = ip.load(st, v) if kind == "l" else v
        if t.startswith("std::variant<"):
            want = base_type(ta[0])
            if re.fullmatch(r"\d+U?L?", want):
                want = base_type(targs(t)[int(re.sub(r"\D", "", want))])
            return "r", varget(ip, e, val, want, st)
        if t.startswith("std::pair<"):
            f = "first" if ta[0].startswith("0") else "second"
            return ("l", ip.extend(p, ("f", f))) if p is not None else ("r", fld(val, f))
    if n == "holds_alternative":
        v = ip.ev(args[0], st, fr)
        return "r", holds(v, base_type(e["ta"][0]))
    if n == "get_if":
        return "r", ip.unk("get_if")
    if n == "visit":
        f = ip.ev(args[0], st, fr)
        v = ip.ev(args[1], st, fr)
        ip.event(st, "call", "std::visit", [f, v], e["l"])
        return "r", ip.unk("visit")
    if n in ("stoi", "stod", "stol", "stof", "stoul"):
        v = as_str(ip, st, ip.ev(args[0], st, fr))
        r = mk("app", "stoi" if n in ("stoi", "stol", "stoul") else "stod", v)
        if n in ("stoi", "stol", "stoul"):
            T.declare_int(r)
        return "r", mk("app", "tofloat", r) if n == "stof" else r
    if n == "make_pair":
        return "r", struct("std::pair", {"first": ip.ev(args[0], st, fr), "second": ip.ev(args[1], st, fr)})
    if n == "getline":
        s = ip.lv(args[0], st, fr)
        p = ip.lv(args[1], st, fr)
        for a in args[2:]:
            ip.ev(a, st, fr)
        if len(args) > 2:
            ip.store(st, p, ip.unk("getline with a delimiter"))
            return "l", s
        pos = ip.load(st, ip.extend(s, ("f", "pos")))
        lines = mk("app", "filelines", ip.load(st, ip.extend(s, ("f", "path"))))
        ok = gt0(sub(seqlen(lines), pos))
        ip.store(st, p, ite(ok, sel(lines, pos), string("")))
        ip.store(st, ip.extend(s, ("f", "pos")), add(pos, ONE))
        ip.store(st, ip.extend(s, ("f", "ok")), ok)
        return "l", s
    if n == "strcmp":
        r = mk("app", "strcmp", *[as_str(ip, st, ip.ev(a, st, fr)) for a in args])
        T.declare_int(r)
        return "r", r
    if n in ("atoi", "atof"):
        r = mk("app", "strtol" if n == "atoi" else "strtod", as_str(ip, st, ip.ev(args[0], st, fr)))
        if n == "atoi":
            T.declare_int(r)
        return "r", r
    if n in ("strtod", "strtof", "strtol"):
        what = "strtol" if n == "strtol" else "strtod"
        v = as_str(ip, st, ip.ev(args[0], st, fr))
        out = ip.ev(args[1], st, fr)
        k = mk("app", what + "-len", v)
        T.declare_int(k)
        T.declare_nonneg(k)
        if out.op == "ptr":
            a0 = ip.ev(args[0], st, fr)
            if a0.op == "ptr":
                ip.store(st, out, T.ptr_add(a0, k))
            else:
                root = ip.newroot("o")
                ip.rootinit[root] = v
                st.mem[root] = v
                ip.store(st, out, mk("ptr", root, (("i", k),)))
        for a in args[2:]:
            if cint(ip.ev(a, st, fr)) != 10:
                return "r", ip.unk("number base")
        r = mk("app", what, v)
        if n == "strtol":
            T.declare_int(r)
        return "r", r
    if n == "now":
        r = ip.outterm("now", 0, "double")
        ip.event(st, "call", "now", [], e["l"])
        return "r", r
    if n in ("sleep_for",):
        for a in args:
            ip.ev(a, st, fr)
        return "r", UNIT
    if n in ("isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower"):
        return "r", ip.pure_fn(n, vals_of(ip, args, st, fr), e)
    if n == "setprecision":
        return "r", mk("app", "setprecision", ip.ev(args[0], st, fr))
    if n in ("setw", "setfill", "fixed", "scientific", "endl", "flush"):
        for a in args:
            ip.ev(a, st, fr)
        return "r", UNIT
    if n == "strlen":
        return "r", T.strlen(as_str(ip, st, ip.ev(args[0], st, fr)))
    if n in ("duration_cast",):
        return "r", ip.ev(args[0], st, fr)
    if n in ("make_unique", "make_shared"):
        return "r", ip.unk(n)
    for a in args:
        ip.ev(a, st, fr)
    return "r", ip.unk("std function " + q)


def holds(v, t):
    if v.op == "var":
        return TRUE if v.a[0] == t else FALSE
    if v.op == "ite":
        return lor(land(v.a[0], holds(v.a[1], t)), land(lnot(v.a[0]), holds(v.a[2], t)))
    r = mk("app", "holds", mk("str", t), v)
    T.declare_bool(r)
    return r


def varval(v, want):
    if v.op == "var":
        return v.a[1] if v.a[0] == want else mk("undef", "variant")
    if v.op == "ite":
        return ite(v.a[0], varval(v.a[1], want), varval(v.a[2], want))
    r = mk("app", "varval", mk("str", want), v)
    if want in INTS:
        T.declare_int(r)
    if want == "bool":
        T.declare_bool(r)
    return r


def varget(ip, e, v, want, st):
    ok = ip.known(st, holds(v, want))
    if ok is not TRUE:
        pc = st.pc
        st.pc = pc + (lnot(ok),)
        ip.event(st, "throw", "bad_variant_access", (), e["l"])
        st.pc = pc + (ok,)
        if ok is FALSE:
            st.dead = True
            return mk("undef", "dead")
    return varval(v, want)


def algo(ip, e, n, args, st, fr):
    """element-wise algorithms: the callable is applied through the loop summariser"""
    at = [a.get("t", "") for a in args]
    vals = vals_of(ip, args, st, fr)
    if n in ("lower_bound", "upper_bound", "is_sorted", "adjacent_find"):
        s = rng(ip, st, vals[0], vals[1])
        loc, i0 = seq_at(vals[0])
        if s is None or loc is None:
            return "r", ip.unk(n)
        two = n in ("is_sorted", "adjacent_find")
        cnt = T.sub(seqlen(s), ONE) if two else seqlen(s)
        f = vals[-1] if len(vals) == (3 if two else 4) else None
        kr, ar = ip.newroot("v", "int"), ip.newroot("v", "int")
        st.mem[kr], st.mem[ar] = ZERO, (seqlen(s) if n == "adjacent_find" else ZERO)
        kp, ap = mk("ptr", kr, ()), mk("ptr", ar, ())
        xr = ip.newroot("v", at[2] if not two else "")
        if not two:
            st.mem[xr] = vals[2]

        def less(x, a, b):
            if f is not None:
                kind, v = ip.call_value(f, [("l", a), ("l", b)], e, x, fr)
                return T.tobool(ip.load(x, v) if kind == "l" else v)
            ty = at[2] if not two else "double"
            return ip.compare("==" if n == "adjacent_find" else "<", ip.load(x, a), ip.load(x, b), ty, ty)

        def one(x):
            k = ip.load(x, kp)
            el = ip.extend(loc, ("i", add(i0, k)))
            v = mk("ptr", xr, ())
            acc = ip.load(x, ap)
            if n == "lower_bound":       # a sorted range: the ones before the value
                ip.store(x, ap, add(acc, ite(less(x, el, v), ONE, ZERO)))
            elif n == "upper_bound":
                ip.store(x, ap, add(acc, ite(less(x, v, el), ZERO, ONE)))
            elif n == "is_sorted":
                ip.store(x, ap, add(acc, ite(less(x, ip.extend(loc, ("i", add(i0, add(k, ONE)))), el), ONE, ZERO)))
            else:
                ip.store(x, ap, ite(land(eq0(sub(acc, seqlen(s))), less(x, el, ip.extend(loc, ("i", add(i0, add(k, ONE)))))), k, acc))
        ip.gloop(st, fr, lambda x: ip.known(x, gt0(sub(cnt, ip.load(x, kp)))), one, lambda x: ip.store(x, kp, add(ip.load(x, kp), ONE)), e["l"])
        r = ip.load(st, ap)
        return "r", eq0(r) if n == "is_sorted" else ip.extend(loc, ("i", add(i0, r)))
    if n in ("transform", "for_each", "generate", "any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not", "min_element", "max_element", "accumulate", "find", "count"):
        s = rng(ip, st, vals[0], vals[1])
        loc, i0 = seq_at(vals[0])
        if s is None or loc is None:
            return "r", ip.unk(n)
        cnt = seqlen(s)
        f = vals[-1]
        ir = ip.newroot("v", "int")
        st.mem[ir] = ZERO
        ipt = mk("ptr", ir, ())
        acc = ip.newroot("v", "bool" if n.endswith("_of") else "int")
        accp = mk("ptr", acc, ())
        if n == "accumulate":
            ip.roottype[acc] = e.get("ret") or ""
        st.mem[acc] = {"any_of": FALSE, "all_of": TRUE, "none_of": TRUE, "find_if": cnt, "find_if_not": cnt, "find": cnt, "accumulate": vals[2] if len(vals) > 2 else ZERO}.get(n, ZERO)
        out = None
        second = None
        if n == "transform":
            out = vals[-2]
            if len(vals) == 5:
                second = vals[2]

        def docond(x):
            return ip.known(x, gt0(sub(cnt, ip.load(x, ipt))))

        def dobody(x):
            k = ip.load(x, ipt)
            el = ip.extend(loc, ("i", add(i0, k)))
            if n == "generate":
                _, v = ip.call_value(f, [], e, x, fr)
                ip.store(x, el, v)
                return
            ar = [("l", el)]
            if n == "accumulate":
                kind, v = ip.call_value(f, [("r", ip.load(x, accp)), ("l", el)], e, x, fr)
                ip.store(x, accp, ip.load(x, v) if kind == "l" else v)
                return
            if n in ("min_element", "max_element"):
                best = ip.load(x, accp)
                ar.append(("l", ip.extend(loc, ("i", add(i0, best)))))
                kind, v = ip.call_value(f, ar if n[:3] == "min" else ar[::-1], e, x, fr)
                v = T.tobool(ip.load(x, v) if kind == "l" else v)
                ip.store(x, accp, ite(v, k, best))
                return
            if n in ("find", "count"):
                hit = ip.compare("==", ip.load(x, el), vals[2], at[2], at[2])
                ip.store(x, accp, add(ip.load(x, accp), ite(hit, ONE, ZERO)) if n == "count" else ite(land(eq0(sub(ip.load(x, accp), cnt)), hit), k, ip.load(x, accp)))
                return
            if second is not None:
                ar.append(("l", ip.deref(T.ptr_add(second, k))))
            kind, v = ip.call_value(f, ar, e, x, fr)
            if kind == "l":
                v = ip.load(x, v)
            if n == "transform":
                if out.op == "backins":
                    p = out.a[0]
                    ip.store(x, p, concat(ip.load(x, p), lst(v)))
                else:
                    ip.store(x, ip.deref(T.ptr_add(out, k)), v)
            elif n == "any_of":
                ip.store(x, accp, lor(ip.load(x, accp), T.tobool(v)))
            elif n == "all_of":
                ip.store(x, accp, land(ip.load(x, accp), T.tobool(v)))
            elif n == "none_of":
                ip.store(x, accp, land(ip.load(x, accp), lnot(T.tobool(v))))
            elif n in ("find_if", "find_if_not"):
                hit = T.tobool(v) if n == "find_if" else lnot(T.tobool(v))
                ip.store(x, accp, ite(land(eq0(sub(ip.load(x, accp), cnt)), hit), k, ip.load(x, accp)))
            elif n == "count_if":
                ip.store(x, accp, add(ip.load(x, accp), ite(T.tobool(v), ONE, ZERO)))

        def doinc(x):
            ip.store(x, ipt, add(ip.load(x, ipt), ONE))
        ip.gloop(st, fr, docond, dobody, doinc, e["l"])
        if n == "transform":
            return "r", out if out.op == "backins" else T.ptr_add(out, cnt)
        if n in ("any_of", "all_of", "none_of", "count_if", "accumulate", "count"):
            return "r", ip.load(st, accp)
        if n in ("find_if", "find_if_not", "min_element", "max_element", "find"):
            return "r", ip.extend(loc, ("i", add(i0, ip.load(st, accp))))
        return "r", UNIT
    return "r", ip.unk("std algorithm " + n)
