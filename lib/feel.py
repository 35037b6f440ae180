"""Running the real program on a settings file, and reading what it writes."""
import glob, json, os, re, signal, subprocess
import vf

def yaml(x, ind=0):
    """Minimal YAML writer: JSON is YAML; NaN is .nan."""
    return re.sub(r"\bNaN\b", ".nan", json.dumps(x, indent=1))


class Run:
    """One execution of the program in a directory."""

    def __init__(self, exe, d, settings, args=(), env=None, timeout=60, stdin=None, name="s.yml", retry=True):
        self.dir = d
        os.makedirs(d, exist_ok=True)
        text = settings if isinstance(settings, str) else yaml(settings)
        self.settings = settings
        open(os.path.join(d, name), "w").write(text)
        e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "XDG_CONFIG_HOME": os.path.join(d, "xdg"),
             "OMP_NUM_THREADS": "2", "LC_ALL": "C"}
        e.update(env or {})
        try:
            r = subprocess.run([exe] + list(args) + ([name] if name else []), cwd=d, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=stdin,
                               text=True, errors="replace")
            self.rc, self.out, self.err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            self.rc = None
            self.out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            self.err = (x.stderr or b"").decode(errors="replace") if isinstance(x.stderr, bytes) else (x.stderr or "")

    def path(self, *p):
        return os.path.join(self.dir, *p)


def read_evol(path):
    """-> (header lines, columns, rows of strings). Incomplete last lines are kept as rows."""
    if not os.path.exists(path):
        return None
    hdr, rows, cols = [], [], None
    for l in open(path, errors="replace").read().split("\n"):
        if l.startswith("#"):
            hdr.append(l)
            if l.startswith("## columns:"):
                cols = l[len("## columns:"):].strip().split("\t")
        elif l != "":
            rows.append(l.split("\t"))
    return hdr, cols, rows


def read_sol(path):
    """-> dict(time=, columns=, rows=[(index, [floats])]) or None"""
    if not os.path.exists(path):
        return None
    t, cols, rows = None, None, []
    for l in open(path, errors="replace"):
        if l.startswith("## time:"):
            t = float(l[8:])
        elif l.startswith("## columns:"):
            cols = l[11:].split()
        elif not l.startswith("#") and l.strip():
            f = l.split()
            try:
                rows.append((int(f[0]), [float(x) for x in f[1:]]))
            except ValueError:
                rows.append((-1, []))
    return {"time": t, "columns": cols, "rows": rows}


def ls(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []
