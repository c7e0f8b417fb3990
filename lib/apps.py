"""Runs the simulation programs of the repository and turns what they print into events."""
import math, os, shutil, subprocess, tempfile

LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]


class Died(Exception):
    pass


def build(c, name):
    from kit import REPO
    return c.compile(os.path.join(REPO, "src", "hubbard", name + ".cpp"), shim=True, asan=False,
                     flags=["-D_GLIBCXX_ASSERTIONS"], libs=LIBS)


class Runner:
    """One scratch directory per run; nothing else is written."""

    def __init__(self, check):
        self.c = check

    def raw(self, binary, opts=(), threads=1, timeout=120, files=(), env=None, keep=False, args=()):
        d = tempfile.mkdtemp(prefix="app-", dir=os.path.join(self.c.dir, "run"))
        for name, text in files:
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        e = {k: v for k, v in os.environ.items() if k != "LOGNAME"}
        e.update(LOGNAME="verif", OMP_NUM_THREADS=str(threads))
        e.update(env or {})
        for k in [k for k, v in e.items() if v is None]:
            del e[k]
        cmd = [binary] + [f"--{k}={v}" for k, v in opts] + list(args)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, out = None, ""
        res = {}
        for x in sorted(os.listdir(d)):
            with open(os.path.join(d, x), "rb") as f:
                res[x] = f.read().decode("utf-8", "replace")
        shutil.rmtree(d, True)
        return rc, out, res

    def rows(self, binary, opts=(), threads=1, out="out.txt", scale=100000, **kw):
        """rows of the output file as lists of integers (times 10^5)"""
        rc, txt, files = self.raw(binary, list(opts) + ([("out", out)] if out else []), threads, **kw)
        if rc != 0:
            raise Died(f"{os.path.basename(binary)} {opts} ended with {rc}")
        return table(files.get(out, ""), scale)


def number(x, scale=100000, lim=2 * 10**9):
    v = float(x)
    if not math.isfinite(v):
        return lim
    return max(-lim, min(lim, round(v * scale)))


def table(text, scale=100000):
    return [[number(x, scale) for x in l.split()] for l in text.splitlines() if l.strip() and not l.lstrip().startswith("#")]


def trig(M):
    return dict(M=M, cos=[round(10000 * math.cos(2 * math.pi * j / M)) for j in range(M)],
                sin=[round(10000 * math.sin(2 * math.pi * j / M)) for j in range(M)])


def dec(p, q):
    return repr(p / q)


def simulation(runner, binary, p, others):
    """Events of a base run of program p that observes after every step, and of the runs `others`
    (interval, (tend p, q), threads).  p: dict(kind, obs, d, J2, U2, dt, tend, filling)."""
    a, b = p["dt"]
    opts = [("N", p["d"][0])] if len(p["d"]) == 1 else [("Nx", p["d"][0]), ("Ny", p["d"][1])]
    opts += [("J", dec(p["J2"], 2)), ("dt", dec(a, b))]
    if "U2" in p and p["kind"] != "kinetic":
        opts += [("U", dec(p["U2"], 2))]
    M, k = 4, [0]
    if p.get("filling"):
        x, q = p["filling"]
        opts += [("filling_factor", dec(x, q))]
        M, k = 2 * q, [x]
    if p.get("k"):
        M, k = p["M"], p["k"]
        if p["obs"] == "jump" and len(p["d"]) == 2:
            opts += [("kx", repr(2 * math.pi * k[0] / M)), ("ky", repr(2 * math.pi * k[1] / M))]
    ev = [dict(op="begin", ok=True, name=f"{os.path.basename(binary)} {opts}")]
    try:
        if p["obs"] == "number":
            rc, out, _ = runner.raw(binary, opts, p.get("threads", 1))
            if rc != 0:
                raise Died(f"ended with {rc}")
            head(ev, p, M, k)
            v = [number(x) for x in out.split()]
            ev.append(dict(op="later", ok=True, v=v[:1], steps=8))
            ev.append(dict(op="later", ok=True, v=v[1:], steps=0))
            return ev
        base = runner.rows(binary, opts + [("t_end", dec(*p["tend"])), ("measurement_interval", 1)], p.get("threads", 1))
        head(ev, p, M, k)
        for r in base:
            ev.append(dict(op="row", ok=True, t=r[0], v=r[1:]))
        ev.append(dict(op="finished", ok=True, rows=len(base), tend=list(p["tend"])))
        for interval, tend, threads in others:
            r = runner.rows(binary, opts + [("t_end", dec(*tend)), ("measurement_interval", interval)], threads)
            ev.append(dict(op="run", ok=True, interval=interval, tend=list(tend), rows=[[x[0], x[1:]] for x in r], threads=threads))
    except Died as ex:
        ev.append(dict(op="died", ok=False, why=str(ex)))
    return ev


def head(ev, p, M, k):
    a, b = p["dt"]
    exact = b & (b - 1) == 0
    ev.append(dict(op="program", ok=True, kind=p["kind"], obs=p["obs"], d=p["d"], J2=p["J2"], U2=p.get("U2", 0), dt=[a, b],
                   exact=exact, filling=list(p.get("filling") or [1, 2]), k=k, **trig(M)))


def trivial(runner, binary):
    ev = [dict(op="begin", ok=True, name="hubbard_trivial")]
    rc, out, files = runner.raw(binary)
    if rc != 0 or "trivial.txt" not in files:
        ev.append(dict(op="died", ok=False, why=f"ended with {rc}"))
        return ev
    for r in table(files["trivial.txt"]):
        ev.append(dict(op="trivial", ok=True, t=r[0], v=r[1:]))
    return ev + [dict(op="trivialend", ok=True)]


def theory(runner, binary, threads=4):
    ev = [dict(op="begin", ok=True, name="hubbard_real_1d_kinetic_theory")]
    rc, out, files = runner.raw(binary, threads=threads)
    if rc != 0 or "theory.txt" not in files:
        ev.append(dict(op="died", ok=False, why=f"ended with {rc}"))
        return ev
    t = table(files["theory.txt"])
    ev.append(dict(op="theory", ok=True, first=0, rows=t[:2501]))
    return ev


def dispersion(runner, binary, threads=4):
    ev = [dict(op="begin", ok=True, name="hubbard_dispersion_1d")]
    rc, out, files = runner.raw(binary, threads=threads)
    if rc != 0 or "dispersion.txt" not in files:
        ev.append(dict(op="died", ok=False, why=f"ended with {rc}"))
        return ev
    ev.append(dict(op="dispersion", ok=True, rows=table(files["dispersion.txt"]), **trig(1024)))
    return ev


def times(runner, binary, runs):
    """schedules of long runs, times in thousandths of a step; runs: (dt p, q), (tend p, q), interval"""
    ev = [dict(op="begin", ok=True, name=os.path.basename(binary) + " schedules")]
    try:
        for dt, tend, interval in runs:
            r = runner.rows(binary, [("N", 3), ("J", 1), ("dt", dec(*dt)), ("t_end", dec(*tend)), ("measurement_interval", interval)],
                            scale=1000. * dt[1] / dt[0], timeout=300)
            ev.append(dict(op="times", ok=True, dt=list(dt), tend=list(tend), interval=interval, exact=dt[1] & (dt[1] - 1) == 0,
                           times=[x[0] for x in r]))
    except Died as ex:
        ev.append(dict(op="died", ok=False, why=str(ex)))
    return ev


# ------------------------------------------------------------------ programs on our own OpenMP runtime (C22)
def hooked(c, name, runtime, wrap, shorten=False):
    """Instrumented build of a program.  shorten: fewer steps and sites in the program with fixed parameters (None if its
    text does not have them where they were)."""
    import kit, re
    src = os.path.join(kit.REPO, "src", "hubbard", name + ".cpp")
    if shorten:
        text = open(src).read()
        text, n = re.subn(r"(steps\s*=\s*)10000\b", r"\g<1>16", text)
        text, m = re.subn(r"(\bN\s*=\s*)128\b", r"\g<1>14", text)
        if (n, m) != (1, 1):
            return None
        src = os.path.join(c.dir, "gen", name + ".cpp")
        with open(src, "w") as f:
            f.write(text)
    o = c.compile(src, name=name + ".hooked.o", shim=True, asan=False, flags=["-c", "-fsanitize=thread"])
    out = os.path.join(c.dir, "obj", name + ".hooked")
    rc, txt = kit.sh(["g++", o, runtime, "-o", out, "-lpthread"] + ["-Wl,--wrap=" + w for w in wrap] + LIBS, 300)
    return out if rc == 0 else None


def schedules(runner, binary, opts, out, configurations):
    """Events of a hooked program under several teams and schedules."""
    import json
    name = os.path.basename(binary)
    ev = [dict(op="begin", ok=True, name=f"{name} {opts}")]
    seen = set()
    for k, (m, a, p, seed) in enumerate([(1, 1, 0, 0)] + list(configurations)):
        env = dict(VOMP=f"{m} {a} {p} {seed}", VOMP_OUT="epochs.json")
        rc, text, files = runner.raw(binary, list(opts) + ([("out", out)] if opts and out else []), 1, env=env)
        if rc != 0 or "epochs.json" not in files:
            return ev + [dict(op="died", ok=False, why=f"{name} {opts} {env} ended with {rc}")]
        vals = [x for r in table(files[out] if out else text) for x in r]
        for e in json.loads(files["epochs.json"]):
            t = json.dumps(e, sort_keys=True)
            if t not in seen:
                seen.add(t)
                ev.append(dict(op="epoch", ok=True, **e))
        if k == 0:
            ev.append(dict(op="sequential", ok=True, name=name, vals=vals))
        else:
            ev.append(dict(op="parallel", ok=True, name=name, max=m, team=a, policy=p, tol=2, vals=vals))
    return ev
