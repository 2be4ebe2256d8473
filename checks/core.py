"""Shared pieces of the checks: compile driver units from /repo's working tree to LLVM IR, run the analyser, report."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
BC = os.environ.get("VP_BC", os.path.join(BUILD, "bc"))
CXX = "clang++-20"
IRFLAGS = ["-std=c++23", f"-I{REPO}/include", f"-I{VERIF}/driver/gen", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
           "-emit-llvm", f"-fdebug-prefix-map={REPO}=/repo", "-c", "-w", "-fno-caret-diagnostics"]
UNITS = {  # name -> (source, extra flags)
    n: (f"{VERIF}/driver/src/{n}.cpp", ["-DHPP_PROTO_NO_UTF8_VALIDATION=1"])
    for n in ("d_read", "d_read_chunked", "d_read_view", "d_read_view_chunked", "d_write", "d_write_sink",
              "d_write_arena", "d_dyn", "d_merge", "d_ext", "d_ext_view", "d_grpc")
}
# the same entry points with UTF-8 validation compiled in
for n in ("d_read", "d_read_chunked", "d_read_view", "d_read_view_chunked", "d_write", "d_write_sink", "d_dyn"):
    UNITS["u" + n[1:]] = (UNITS[n][0], [])
# and with asserts compiled out, as in release builds
for n in ("d_read", "d_read_chunked", "d_read_view", "d_read_view_chunked", "d_ext", "d_ext_view", "d_dyn"):
    UNITS["n" + n[1:]] = (UNITS[n][0], ["-DHPP_PROTO_NO_UTF8_VALIDATION=1", "-DNDEBUG"])
# the owning holders over opaque elements and allocators
UNITS["d_own"] = (f"{VERIF}/driver/src/d_own.cpp", [])
UNITS["d_fmap"] = (f"{VERIF}/driver/src/d_fmap.cpp", [])
# the code generator
for n in ("cpp_lexical_emitter", "hpp_generator", "protoc-gen-hpp"):
    UNITS[n] = (f"{REPO}/src/protoc-plugin/{n}.cpp", [])
UNITS["factory"] = (f"{REPO}/src/dynamic_message/factory.cpp", ["-DHPP_PROTO_NO_UTF8_VALIDATION=1"])


class Broken(Exception):
    """the check cannot decide (an anchor vanished, a driver does not compile)"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256(repr(IRFLAGS).encode())
    roots = [f"{REPO}/include", f"{REPO}/src", f"{VERIF}/driver"]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".pyc",)):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def ensure_tool():
    r = subprocess.run(["bash", f"{VERIF}/tool/build.sh"], capture_output=True, text=True)
    if r.returncode:
        raise Broken("the analyser does not build:\n" + r.stderr[-3000:])


def bitcode(names):
    """compile the named units (in parallel); returns {name: path}"""
    d = f"{BC}/{repo_hash()}"
    os.makedirs(d, exist_ok=True)
    base = BC
    for o in os.listdir(base):  # keep one generation
        if o != os.path.basename(d):
            subprocess.run(["rm", "-rf", f"{base}/{o}"])

    def one(n):
        out = f"{d}/{n}.bc"
        if os.path.exists(out):
            return n, out, ""
        src, extra = UNITS[n]
        tmp = f"{out}.{os.getpid()}.tmp"
        r = subprocess.run([CXX, *IRFLAGS, *extra, src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return n, None, "\n".join([l for l in r.stderr.splitlines() if "error" in l][:8])
        os.rename(tmp, out)
        return n, out, ""

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, names))
    bad = [f"{n}: {e}" for n, p, e in res if not p]
    if bad:
        raise Broken("driver units do not compile against the current tree:\n" + "\n".join(bad))
    return {n: p for n, p, _ in res}


def analyse(cmd, files, **opts):
    """run one analyser command over each file in its own process; merge the reports"""
    args = []
    for k, v in opts.items():
        for x in v if isinstance(v, (list, tuple)) else [v]:
            args.append(f"--{k}={x}")

    def one(f):
        r = subprocess.run([f"{BUILD}/vpa", cmd, *args, *(f if isinstance(f, (list, tuple)) else [f])], capture_output=True, text=True)
        if r.returncode:
            raise Broken(f"analyser {cmd} failed on {f}: rc={r.returncode} {r.stderr[-2000:]}")
        return json.loads(r.stdout)

    with ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(one, files))
    out = {"violations": [], "counts": {}, "notes": [], "broken": []}
    for r in reps:
        out["violations"] += r["violations"]
        out["notes"] += r["notes"]
        out["broken"] += r["broken"]
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
    return out


def merge(*reps):
    out = {"violations": [], "counts": {}, "notes": [], "broken": []}
    for r in reps:
        for k in ("violations", "notes", "broken"):
            out[k] += r[k]
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
    return out


def site_key(v):
    """what identifies a violation, stable under line shifts: rule, function (template arguments dropped), file"""
    f = re.sub(r"<.*", "", v.get("function", ""))
    return f"{v['rule']}|{v.get('site', '').split(':')[0].replace(REPO, '/repo')}|{f}"


def known_findings(prop):
    out = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def witness(name, lang_flags=(), soft=True, keep=False):
    """type-check a file of static_asserts against the current tree: a failed assertion is a violation; when the file no
    longer fits the tree (other errors) a soft witness is set aside and counted as such"""
    src = f"{VERIF}/checks/witness/{name}.cpp"
    r = subprocess.run([CXX, "-std=c++23", f"-I{REPO}/include", f"-I{REPO}", f"-I{VERIF}/driver/gen", "-DHPP_PROTO_NO_UTF8_VALIDATION=1", "-w", "-ferror-limit=0",
                        "-fno-caret-diagnostics", "-fsyntax-only", *lang_flags, src], capture_output=True, text=True)
    out = {"violations": [], "counts": {"witness_assertions": len(re.findall(r"^\s*(static_assert|NEVER|WITNESS)\b", open(src).read(), re.M)), "witnesses_set_aside": 0}, "notes": [], "broken": []}
    other = []
    for l in r.stderr.splitlines():
        m = re.match(r"(\S+?):(\d+):\d+: error: (.*)", l)
        if not m:
            continue
        k = re.search(r"static assertion failed.*: \[(\S+)\] (.*)", m.group(3))
        if k:
            out["violations"].append({"rule": k.group(1), "function": name, "site": f"{m.group(1).replace(REPO, '/repo')}:{m.group(2)}", "message": k.group(2), "path": []})
        else:
            other.append(l)
    if other:
        if soft:
            out["counts"]["witnesses_set_aside"] = 1
            out["counts"]["witness_assertions"] = 0
            out["notes"].append(f"witness {name} set aside: {other[0][:200]}")
            out["violations"] = out["violations"] if keep else []
        else:
            out["broken"].append(f"witness {name} does not compile: {other[0][:300]}")
    return out


def must_not_compile(name):
    """checks/witness/<name>.cpp holds one program per CASE; each must be refused by the compiler, the file itself must not"""
    src = f"{VERIF}/checks/witness/{name}.cpp"
    cases = []
    for i, l in enumerate(open(src).read().splitlines(), 1):
        m = re.search(r"// CASE (\d+) \[(\S+)\] (.*)", l)
        if m:
            cases.append((int(m.group(1)), m.group(2), m.group(3), i))

    def one(c):
        return subprocess.run([CXX, "-std=c++23", f"-I{REPO}/include", f"-I{REPO}", f"-I{VERIF}/driver/gen", "-DHPP_PROTO_NO_UTF8_VALIDATION=1", "-Wno-everything", "-Werror=unused-result",
                               "-Werror=unused-value", "-ferror-limit=1", "-fno-caret-diagnostics", "-fsyntax-only", f"-DCASE={c}", src], capture_output=True, text=True)

    out = {"violations": [], "counts": {"refused_programs": 0, "witnesses_set_aside": 0}, "notes": [], "broken": []}
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, [0] + [c[0] for c in cases]))
    if rs[0].returncode:
        out["counts"]["witnesses_set_aside"] = 1
        out["notes"].append(f"witness {name} set aside: {rs[0].stderr.splitlines()[:1]}")
        return out
    for (n, rule, text, line), r in zip(cases, rs[1:]):
        if r.returncode:
            out["counts"]["refused_programs"] += 1
        else:
            out["violations"].append({"rule": rule, "function": f"{name} case {n}", "site": f"{src}:{line}", "message": text, "path": []})
    return out
