"""Resolved-program facts for /repo, produced by tool/lxdump from the driver units."""
import json, os, subprocess, hashlib, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LX_REPO", "/repo")
CACHE = os.environ.get("LX_CACHE", os.path.join(VERIF, ".cache"))
CXX = "/usr/bin/clang++"
RES = "/usr/lib/llvm-18/lib/clang/18"


class CheckError(Exception):
    """The check itself cannot decide (vanished anchor, unparsable unit)."""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tool():
    src = os.path.join(VERIF, "tool", "lxdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "lxdump-" + h)
    if os.path.exists(out):
        return out
    with _lock("tool"):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp"
        r = _run(["/usr/bin/g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include",
                  "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                  src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise CheckError("cannot build lxdump:\n" + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def include_hash(repo):
    h = hashlib.sha256()
    base = os.path.join(repo, "include")
    for d, ds, fs in sorted(os.walk(base)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, base).encode() + b"\0")
            h.update(open(p, "rb").read())
    return h


def dump(unit, repo=None):
    """JSON facts of driver/<unit>.cpp against the current tree (content-hash cached)."""
    repo = repo or REPO
    tool = build_tool()
    src = os.path.join(VERIF, "driver", unit + ".cpp")
    h = include_hash(repo)
    h.update(open(src, "rb").read())
    h.update(os.path.basename(tool).encode())
    h.update(repo.encode())
    out = os.path.join(CACHE, "%s-%s.json" % (unit, h.hexdigest()[:20]))
    if not os.path.exists(out):
        with _lock(unit):
            if not os.path.exists(out):
                tmp = out + ".tmp%d" % os.getpid()
                r = _run([tool, tmp, src, os.path.join(repo, "include") + "," + os.path.join(VERIF, "driver"), "--", "-std=c++17",
                          "-I" + os.path.join(repo, "include"), "-resource-dir", RES, "-w"], cwd="/")
                if r.returncode or not os.path.exists(tmp):
                    raise CheckError("analysis unit %s does not compile against the tree:\n%s"
                                     % (unit, "\n".join(l for l in r.stdout.split("\n") if "error" in l)[:3000]))
                os.rename(tmp, out)
                # keep the cache small: drop older dumps of this unit
                for f in os.listdir(CACHE):
                    if f.startswith(unit + "-") and f.endswith(".json") and os.path.join(CACHE, f) != out:
                        try:
                            os.remove(os.path.join(CACHE, f))
                        except OSError:
                            pass
    return json.load(open(out))


class Facts:
    def __init__(self, units, repo=None):
        if isinstance(units, str):
            units = [units]
        self.repo = repo or REPO
        self.fns, self.records, self.globals, self.enums = {}, [], [], []
        self.recbyt = {}
        off = 0
        for u in units:
            objs = dump(u, self.repo)
            assert len(units) == 1, "one unit per Facts (ids are per unit)"
            for o in objs:
                k = o["k"]
                if k == "fn":
                    self.fns[o["id"]] = o
                elif k == "record":
                    self.records.append(o)
                    self.recbyt[o["t"]] = o
                elif k == "global":
                    self.globals.append(o)
                elif k == "enum":
                    self.enums.append(o)
        self.byid_glob = {g["d"]: g for g in self.globals}
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get("ovr", []):
                self.overriders.setdefault(o, []).append(f["id"])

    def rel(self, path):
        inc = os.path.join(self.repo, "")
        return path[len(inc):] if path.startswith(inc) else path

    def find(self, name=None, clsname=None, cls=None, file=None, nparams=None, targs=None, body=True, pred=None):
        out = []
        for f in self.fns.values():
            if name is not None and f["n"] != name:
                continue
            if clsname is not None and f.get("clsname") != clsname:
                continue
            if cls is not None and cls not in f.get("cls", ""):
                continue
            if file is not None and not f["file"].endswith(file):
                continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if body and "body" not in f:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def one(self, **kw):
        r = self.find(**kw)
        if len(r) != 1:
            raise CheckError("anchor %r matched %d functions" % ({k: v for k, v in kw.items() if k != 'pred'}, len(r)))
        return r[0]


def walk(n, f):
    """Pre-order visit of every AST node dict."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                f(x)
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def nodes(n, kind=None):
    out = []
    walk(n, lambda x: out.append(x) if kind is None or x["k"] == kind else None)
    return out
