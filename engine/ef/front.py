"""Front end: exports the resolved AST of /repo's current sources (every run) and loads it.

The exporter binary is built from engine/export.cpp once per content hash; the exported units are keyed by the hash of
every source file below /repo/src, so a changed tree is always analysed anew."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TIER = "quick"
REPO = os.environ.get("EF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class FrontError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def exporter():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "engine", "export.cpp")
    out = os.path.join(CACHE, "export-" + sha(rd(src)))
    if os.path.exists(out):
        return out
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        r = run(["clang++-18", "-std=c++17", "-O0", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        if r.returncode != 0:
            raise FrontError("exporter does not build: " + r.stderr.decode(errors="replace")[-2000:])
        os.rename(tmp, out)
    return out


_flags = None


def flags():
    global _flags
    if _flags is None:
        res = run(["clang-18", "-print-resource-dir"]).stdout.decode().strip()
        mpi = run(["mpicxx", "--showme:compile"]).stdout.decode().split()
        if not mpi:
            mpi = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
        _flags = ["-xc++", "-std=c++20", "-fpermissive", "-DUSE_PETSC", "-DPETSC_HAVE_BROKEN_RECURSIVE_MACRO", "-I" + REPO + "/src", "-I/usr/lib/petsc/include"] + mpi + \
            ["-I" + VERIF + "/engine/include", "-include", "ef_shim.h", "-Wno-everything", "-ferror-limit=0", "-resource-dir", res]
    return _flags


def sources():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            if n.endswith((".hpp", ".cpp", ".h", ".hh", ".ipp", ".tpp", ".inl", ".cc")):
                fs.append(os.path.join(d, n))
    return sorted(fs)


def units():
    us = [os.path.join(VERIF, "engine", "tu_all.cpp")]
    for f in sources():
        if f.endswith((".cpp", ".cc")) and len(re.findall(rb"[;{]", rd(f))) > 4 and os.path.basename(f) != "PlotUtils.cpp":
            us.append(f)
    return us


def specs():
    return sorted(glob.glob(os.path.join(VERIF, "engine", "spec", "*.cpp")))


def export_all():
    exe = exporter()
    fs = sources()
    if not fs:
        raise FrontError("no sources under " + REPO + "/src")
    th = sha(*([rd(os.path.join(VERIF, "engine", "export.cpp")), rd(os.path.join(VERIF, "engine", "include", "ef_shim.h")), rd(os.path.join(VERIF, "engine", "tu_all.cpp")), " ".join(flags())] + [rd(x) for x in sorted(glob.glob(os.path.join(VERIF, "engine", "spec", "*")))] + [x for f in fs for x in (f, rd(f))]))
    d = os.path.join(CACHE, "ast-" + th)
    if os.path.exists(os.path.join(d, "done")):
        return d
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "done")):
            return d
        # keep at most a few cached trees
        olds = sorted(glob.glob(os.path.join(CACHE, "ast-*")), key=os.path.getmtime)
        for o in olds[:-3]:
            for x in glob.glob(os.path.join(o, "*")):
                os.unlink(x)
            os.rmdir(o)
        os.makedirs(d, exist_ok=True)

        def one(u):
            out = os.path.join(d, re.sub(r"\W", "_", os.path.relpath(u, "/")) + ".json")
            r = run([exe, out, REPO + "/src/", VERIF + "/engine/", u, "--"] + flags() + (["-fno-access-control"] if "/engine/spec/" in u else []))
            if not os.path.exists(out):
                raise FrontError("cannot export " + u + ": " + r.stderr.decode(errors="replace")[-1500:])
            return out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, units() + specs()))
        open(os.path.join(d, "done"), "w").close()
    return d


def walk(n):
    """all AST nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "s" in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


class DB:
    def __init__(self, d=None):
        d = d or export_all()
        self.functions, self.records, self.globals, self.enums = {}, {}, {}, set()
        self.errors = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(f))
            if j["errors"]:
                self.errors[os.path.basename(f)] = j["errors"]
            bad = [e.split("\t")[0].rsplit(":", 1) for e in j["errors"] if "/engine/spec/" in e.split("\t")[0]]
            for fn in j["functions"]:
                # a definition of the reference files that does not compile against this tree says nothing about it
                if bad and "/engine/spec/" in fn["loc"]:
                    p, l = fn["loc"].rsplit(":", 1)
                    if any(os.path.basename(b[0]) == os.path.basename(p) and int(l) <= int(b[1]) <= fn["end"] for b in bad):
                        fn["body"] = None
                o = self.functions.get(fn["key"])
                if o is None or (o.get("body") is None and fn.get("body") is not None):
                    self.functions[fn["key"]] = fn
            for r in j["records"]:
                o = self.records.get(r["name"])
                if o is None:
                    self.records[r["name"]] = r
                else:
                    have = {m["key"] for m in o["methods"]}
                    o["methods"] += [m for m in r["methods"] if m["key"] not in have]
            for g in j["globals"]:
                o = self.globals.get(g["q"])
                if o is None or (o.get("init") is None and g["v"].get("init") is not None):
                    self.globals[g["q"]] = g["v"]
        self.byq = {}
        for fn in self.functions.values():
            self.byq.setdefault(fn["q"], []).append(fn)
        self.overriders = {}
        for fn in self.functions.values():
            for o in fn.get("ov") or []:
                self.overriders.setdefault(o, []).append(fn)

    def fn(self, key):
        return self.functions.get(key)

    def named(self, q, nparams=None, pred=None):
        r = [f for f in self.byq.get(q, []) if f.get("body") is not None]
        if nparams is not None:
            r = [f for f in r if len(f["params"]) == nparams]
        if pred:
            r = [f for f in r if pred(f)]
        return r

    def bases(self, cls):
        out = [cls]
        r = self.records.get(cls)
        for b in (r["bases"] if r else []):
            b = b.replace("struct ", "").replace("class ", "")
            out += [x for x in self.bases(b) if x not in out]
        return out

    def find_override(self, cls, key):
        """the final overrider of method `key` for an object of dynamic class cls"""
        want = {key}
        # all functions that (transitively) override key
        todo = [key]
        while todo:
            k = todo.pop()
            for f in self.overriders.get(k, []):
                if f["key"] not in want:
                    want.add(f["key"])
                    todo.append(f["key"])
        for c in self.bases(cls):
            r = self.records.get(c)
            for m in (r["methods"] if r else []):
                if m["key"] in want and m["key"] in self.functions and self.functions[m["key"]].get("body") is not None:
                    return self.functions[m["key"]]
        return None

    def implementations(self, key):
        out, seen, todo = [], set(), [key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.functions.get(k)
            if f is not None and f.get("body") is not None and not f.get("dfl"):
                out.append(f)
            for g in self.overriders.get(k, []):
                todo.append(g["key"])
        return out


def load():
    return DB()
