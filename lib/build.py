"""Discovers the translation units of the repository, builds the fact extractor, and produces (cached) fact files."""
import hashlib, json, os, re, subprocess, sys, time, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LATTE_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"
KNOWN = os.path.join(VERIF, "engine/functions.txt")     # the functions of the tree the checks were written for: others are put back in place

# The configured build (see /opt/vp/build.sh): automake conditionals as configure decides them in this sandbox.
COND = {"HAVE_TOPCOM_LIB": False, "HAVE_TOPCOM_BIN": True, "HAVE_CDDLIB": True, "HAVE_LIDIA": False,
        "HAVE_FORTYTWO_LIB": True, "HAVE_EXPERIMENTS": True, "HAVE_CPLEX": False, "HAVE_DATABASE": True,
        "RELOCATABLE_VIA_LD": True}

class AnalysisError(Exception):
    pass

def makefile_sources(path, base):
    """*_SOURCES of one Makefile.am under the configured conditionals, as repo-relative paths."""
    text = open(path).read().replace("\\\n", " ")
    stack, progs = [], {}
    for line in text.split("\n"):
        s = line.split("#")[0].strip() if not line.startswith("#") else ""
        if not s:
            continue
        m = re.match(r"if\s+(!?)(\w+)$", s)
        if m:
            v = COND.get(m.group(2))
            if v is None:
                raise AnalysisError("unknown automake conditional %s in %s" % (m.group(2), path))
            stack.append(v != bool(m.group(1)))
            continue
        if s.split()[0] == "else":
            stack[-1] = not stack[-1]
            continue
        if s.split()[0] == "endif":
            stack.pop()
            continue
        if not all(stack):
            continue
        m = re.match(r"(\w+)_SOURCES\s*\+?=\s*(.*)$", s)
        if m:
            progs.setdefault(re.sub("^nodist_", "", m.group(1)), []).extend(
                os.path.normpath(os.path.join(base, f)) for f in m.group(2).split() if f.endswith(".cpp"))
    return progs

def programs():
    p = makefile_sources(REPO + "/code/latte/Makefile.am", "code/latte")
    p.update(makefile_sources(REPO + "/code/latte/normalize/Makefile.am", "code/latte/normalize"))
    return p

def tus():
    s = set()
    for v in programs().values():
        s.update(v)
    return sorted(f for f in s if os.path.exists(os.path.join(REPO, f)))

def cc_args():
    inc = ["-I" + REPO + "/code/latte", "-I" + REPO + "/code/latte/normalize", "-I" + VERIF + "/engine/config/latte", "-I" + VERIF + "/engine/config",
           "-I" + REPO + "/code", "-I/usr/include/4ti2", "-I/usr/include/x86_64-linux-gnu/4ti2"]
    return ["-std=gnu++17", "-xc++", "-w", "-O0", "-DHAVE_CONFIG_H", '-DINSTALLDIR="/usr/local/bin"', "-D__STDC_LIMIT_MACROS",
            "-D_4ti2_GMP_", "-resource-dir=" + LLVM + "/lib/clang/18", "-ferror-limit=5"] + inc

def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "engine/extract.cpp")
    h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(VERIF, "engine/normalize.h"), "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "latte-facts-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp, "-L" + LLVM + "/lib",
               "-Wl,-rpath," + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build extractor:\n" + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe, h

def sha(path):
    try:
        return hashlib.sha256(open(path, "rb").read()).hexdigest()
    except OSError:
        return "missing"

def fact_files():
    """Returns [(tu, path of fact json)] for the current tree. Cache entries are keyed by content of every repo file read."""
    exe, h = build_extractor()
    args = cc_args()
    cfg = h + hashlib.sha256((json.dumps(args) + sha(VERIF + "/engine/config/config.h") + sha(KNOWN)).encode()).hexdigest()[:12]
    cache = os.path.join(BUILD, "facts")
    os.makedirs(cache, exist_ok=True)
    memo = {}
    def fsha(rel):
        if rel not in memo:
            memo[rel] = sha(os.path.join(REPO, rel))
        return memo[rel]
    todo, done = [], {}
    for tu in tus():
        name = tu.replace("/", "__")
        out = os.path.join(cache, name + ".json")
        key = os.path.join(cache, name + ".key")
        ok = False
        if os.path.exists(out) and os.path.exists(key):
            try:
                k = json.load(open(key))
                ok = k["cfg"] == cfg and all(fsha(d) == s for d, s in k["deps"].items())
            except Exception:
                ok = False
        if not ok:
            todo.append((tu, out, key))
        done[tu] = out
    def run(job):
        tu, out, key = job
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([exe, "--root=" + REPO, "--known=" + KNOWN, os.path.join(REPO, tu) + "=" + tmp, "--"] + args,
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return tu, r.stderr[-2000:]
        head = open(tmp).readline()
        deps = json.loads(head.rstrip().rstrip(",") + "}")["deps"] if head.startswith("{") else []
        json.dump({"cfg": cfg, "deps": {d: fsha(d) for d in deps}}, open(key + ".tmp%d" % os.getpid(), "w"))
        os.rename(tmp, out)
        os.rename(key + ".tmp%d" % os.getpid(), key)
        return tu, None
    if todo:
        with ThreadPoolExecutor(8) as ex:
            for tu, err in ex.map(run, todo):
                if err is not None:
                    raise AnalysisError("translation unit %s does not parse:\n%s" % (tu, err))
    return [(t, done[t]) for t in sorted(done)], len(todo)

if __name__ == "__main__" and sys.argv[1:] == ["names"]:
    exe, _ = build_extractor()
    names = set()
    def one(tu):
        return subprocess.run([exe, "--names", "--root=" + REPO, os.path.join(REPO, tu) + "=/dev/null", "--"] + cc_args(), capture_output=True, text=True).stdout
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, tus()):
            names.update(o.split("\n"))
    open(KNOWN, "w").write("\n".join(sorted(n for n in names if n)) + "\n")
elif __name__ == "__main__":
    t = time.time()
    f, n = fact_files()
    print("%d translation units, %d (re)extracted, %.1fs" % (len(f), n, time.time() - t))
