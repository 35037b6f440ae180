"""Helpers of the demonstrations: builds the program from /repo/src in a scratch directory."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = os.path.join(os.getcwd(), "src")
TMP = tempfile.mkdtemp(prefix="demo-")
LIBS = ["-fopenmp", "-lyaml-cpp", "-lduktape", "-lann", "-ltbb", "-lgmsh", "-lpthread"]


def done(ok, msg=""):
    print(("as expected: " if ok else "BROKEN: ") + msg)
    shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(0 if ok else 1)


def prepare():
    src = os.path.join(TMP, "src")
    if not os.path.exists(src):
        shutil.copytree(SRC, src, ignore=shutil.ignore_patterns("CMakeFiles", "config.h", "*.o"))
        s = open(os.path.join(src, "config.h.in")).read().replace("@FEELLGOOD_VERSION@", "demo")
        s = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 0", s)
        open(os.path.join(src, "config.h"), "w").write(re.sub(r"@\w+@", "", s))
        subprocess.run(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", "default-settings.o"],
                       cwd=src, check=True)
    return src


def build(main="main.cpp", wrap=False, extra=()):
    """The whole program, or the library sources with another main (a file beside this one)."""
    src = prepare()
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp") and f != "main.cpp"]
    files.append(os.path.join(src, main) if main == "main.cpp" else os.path.join(HERE, main))
    if wrap:
        files.append(os.path.join(HERE, "wrap_solve.cpp"))

    def cc(f):
        o = os.path.join(TMP, os.path.basename(f) + ".o")
        subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-fopenmp", "-fno-access-control", "-I" + os.path.join(HERE, "stub"), "-I" + src]
                       + list(extra) + ["-c", f, "-o", o], check=True)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, files))
    exe = os.path.join(TMP, "prog")
    subprocess.run(["g++"] + objs + [os.path.join(src, "default-settings.o"), "-o", exe] + (
        ["-Wl,--wrap=_ZN10LinAlgebra5solveERK6timing", "-Wl,--wrap=_ZNK8Settings11solMetadataB5cxx11Ed"] if wrap else [])
        + LIBS + [x for x in extra if x.startswith("-fsan")], check=True)
    return exe


def run(exe, settings, mesh=None, script=None, args=(), name="r", timeout=60, files={}, env={}):
    d = os.path.join(TMP, name)
    os.makedirs(d, exist_ok=True)
    if mesh is not None:
        mesh.write(os.path.join(d, "m.msh"))
    for f, t in files.items():
        open(os.path.join(d, f), "w").write(t)
    open(os.path.join(d, "s.yml"), "w").write(settings if isinstance(settings, str) else json.dumps(settings))
    e = dict(os.environ, HOME=d, XDG_CONFIG_HOME=os.path.join(d, "xdg"), OMP_NUM_THREADS="1", VF_LOG=os.path.join(d, "log"),
             VF_EVOL=os.path.join(d, "m.evol"), VF_OUTDIR=d)
    e.update(env)
    if script is not None:
        open(os.path.join(d, "script"), "w").write("D 0.02\n" + "\n".join(script) + "\n")
        e["VF_SCRIPT"] = os.path.join(d, "script")
    try:
        r = subprocess.run([exe] + list(args) + ["s.yml"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace"), d
    except subprocess.TimeoutExpired:
        return None, "", d


def log(d):
    return [json.loads(l) for l in open(os.path.join(d, "log"))]


def evol(d, name="m"):
    p = os.path.join(d, name + ".evol")
    return [[float(x) for x in l.split()] for l in open(p) if not l.startswith("#")] if os.path.exists(p) else []


def sol(d, name):
    p = os.path.join(d, name)
    if not os.path.exists(p):
        return None
    t = None
    rows = []
    for l in open(p):
        if l.startswith("## time:"):
            t = float(l[8:])
        elif not l.startswith("#"):
            rows.append([float(x) for x in l.split()])
    return t, rows
