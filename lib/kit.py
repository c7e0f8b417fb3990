"""Shared runner for all checks: builds conformance drivers from /repo's working tree, lets TLC
check the specification's models, records traces of the real code and lets TLC decide whether every
trace is a behaviour of the specification."""
import atexit, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CPUS = max(1, min(8, os.cpu_count() or 1))


class Broken(Exception):
    """The machinery (not the code under test) failed; ends with an error exit."""


def sh(cmd, timeout, cwd=None, env=None):
    """Run a command in its own process group; returns (rc, output). rc None = timed out."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, (out or b"").decode("utf-8", "replace")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(shutil.rmtree, self.dir, True)
        for d in ("spec", "obj", "run"):
            os.makedirs(os.path.join(self.dir, d))
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), os.path.join(self.dir, "spec", f))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.kinds = {}
        self.samples = []
        self.models = []
        self.assumptions = []
        self.violations = []
        self.notes = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(CPUS)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ building
    INC = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include")]

    def version_header(self):
        """include/ieompp/version.hpp is generated (git-ignored); provide one if it is missing."""
        inc = os.path.join(self.dir, "gen", "ieompp")
        os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "version.hpp"), "w") as f:
            f.write("#ifndef IEOMPP_VERSION_HPP_\n#define IEOMPP_VERSION_HPP_\nnamespace ieompp\n{\n"
                    "    constexpr auto version = \"verif\";\n}\n#endif\n")
        return os.path.join(self.dir, "gen")

    def compile(self, src, name=None, flags=(), asan=True, opt="-O1", shim=False, timeout=600, libs=()):
        """Compile one driver (or one of the repository's programs) from the current tree."""
        if not os.path.isabs(src):
            src = os.path.join(VERIF, "harness", src)
        name = name or os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.dir, "obj", name)
        cmd = ["g++", opt, "-g1", "-std=c++14", "-include", "cstdint", "-fopenmp", "-w"]
        if asan:
            cmd += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
        if shim:
            cmd += ["-I" + os.path.join(VERIF, "shim")]
        cmd += self.INC + ["-I" + self.version_header(), "-I/usr/include/eigen3"] + list(flags)
        cmd += [src, "-o", out] + list(libs)
        t = time.time()
        rc, txt = sh(cmd, timeout)
        if rc == 1 and "error" in txt:  # without the instantiations the repository itself does not use
            rc, lean = sh(cmd + ["-DLEAN"], timeout)
            if rc == 0:
                self.notes.setdefault("built_without_extra_instantiations", []).append(name)
        if rc != 0:
            errs = [x[:300] for x in txt.splitlines() if "error" in x or "required from here" in x][:12]
            raise Broken(f"building {name} failed (rc={rc}):\n" + "\n".join(errs) + f"\n{txt[-600:]}\n{' '.join(cmd)}")
        self.log(f"built {name} in {time.time() - t:.1f}s")
        return out

    def compile_all(self, jobs):
        """jobs: list of dict(args of compile). Returns list of binaries."""
        futs = [self.pool.submit(lambda j=j: self.compile(**j)) for j in jobs]
        return [f.result() for f in futs]

    # ------------------------------------------------------------------ TLC
    def java(self, module, cfg, workers=1, env=None, timeout=600, extra=(), mem="3g", serial=True, props=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(self.dir, "run"))
        cfgf = os.path.join(d, "m.cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        gc = ["-XX:+UseSerialGC"] if serial else ["-XX:+UseParallelGC"]
        cmd = (["java"] + gc + [f"-Xmx{mem}", "-Xss64m", "-Dfile.encoding=UTF-8", "-XX:CICompilerCount=2",
                                f"-Djava.io.tmpdir={d}"]
               + list(props) + ["-cp", CP, "tlc2.TLC", "-config", cfgf, "-metadir", os.path.join(d, "meta"),
                  "-noGenerateSpecTE", "-workers", str(workers)]
               + list(extra) + [os.path.join(self.dir, "spec", module + ".tla")])
        rc, out = sh(cmd, timeout, cwd=d, env=env)
        shutil.rmtree(os.path.join(d, "meta"), True)
        out = "\n".join(x for x in out.split("\n") if not re.match(r"Parsing file|Semantic processing|Warning: Please run the Java|\(Use the -nowarning", x))
        return rc, out, d

    def instance(self, module, cfg, consts):
        """Wrap a module so that its constants get the given TLA+ expressions."""
        if not consts:
            return module, cfg
        self.nmc = getattr(self, "nmc", 0) + 1
        name = f"MC{self.nmc}_{module}"
        with open(os.path.join(self.dir, "spec", name + ".tla"), "w") as f:
            f.write(f"---- MODULE {name} ----\nEXTENDS {module}\n")
            for k, v in consts.items():
                f.write(f"MC_{k} == {v}\n")
            f.write("====\n")
        return name, cfg + "CONSTANTS\n" + "".join(f"  {k} <- MC_{k}\n" for k in consts)

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return None
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, module, cfg, must=(), workers=None, timeout=800, expect_violation=False, extra=(), mem="8g",
              min_distinct=1, consts=None):
        """Model-check a bounded instance of the specification.  `must`: actions that have to have
        been taken (non-vacuity).  A model that fails is an error of the machinery, never a
        statement about the code."""
        workers = workers or min(4, CPUS)
        module, cfg = self.instance(module, cfg, consts)
        t = time.time()
        ex = list(extra) + (["-coverage", "1"] if must else [])
        rc, out, _ = self.java(module, cfg, workers=workers, timeout=timeout, extra=ex, mem=mem, serial=False)
        c = self.counts(out)
        if expect_violation:
            if rc in (0, None) or "is violated" not in out:
                raise Broken(f"model {module}: expected a counterexample, got rc={rc}\n{out[-3000:]}")
        elif rc != 0 or "No error has been found" not in out:
            raise Broken(f"model {module} failed (rc={rc}):\n{out[-5000:]}")
        if c is None:
            raise Broken(f"model {module}: no state count\n{out[-3000:]}")
        if c[1] < min_distinct:
            raise Broken(f"model {module}: only {c[1]} distinct states, expected at least {min_distinct}")
        taken = {}
        for a, n in re.findall(r"^<(\w+) line [^>]*>: [\d,]+:([\d,]+)", out, re.M):
            taken[a] = taken.get(a, 0) + int(n.replace(",", ""))
        for a in must:
            if not taken.get(a):
                raise Broken(f"model {module}: action {a} was never taken (vacuous)\n{taken}")
        self.states += c[1]
        self.transitions += c[0]
        self.models.append(dict(module=module, generated=c[0], distinct=c[1], wall_s=round(time.time() - t, 1),
                                actions={a: taken[a] for a in must}))
        self.log(f"model {module}: {c[0]} states generated, {c[1]} distinct, {time.time() - t:.1f}s")
        return out

    def behaviours(self, module, cfg, timeout=600, extra=(), tag="BEHAVIOUR", consts=None):
        """Let TLC print behaviours of the specification (lines <<"tag", json>>); returns the JSON texts."""
        module, cfg = self.instance(module, cfg, consts)
        rc, out, _ = self.java(module, cfg, workers=1, timeout=timeout, extra=extra)
        if rc not in (0,) and "-simulate" not in extra:
            raise Broken(f"behaviour generation {module} failed rc={rc}\n{out[-3000:]}")
        res = []
        for l in out.splitlines():
            m = re.match(r'^<<"%s", "(.*)">>$' % tag, l)
            if m:
                res.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        c = self.counts(out)
        if c:
            self.states += c[1]
            self.transitions += c[0]
        return res

    # ------------------------------------------------------------------ conformance
    def record(self, binary, path, args=(), timeout=900, env=None):
        e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=6000:max_allocation_size_mb=700:"
                             "allocator_may_return_null=1",
             "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78", "OMP_NUM_THREADS": "4"}
        if env:
            e.update(env)
        cmd = [binary, "--seed", str(self.seed), "--out", path] + (["--thorough"] if self.thorough else []) + list(args)
        rc, out = sh(cmd, timeout, cwd=os.path.join(self.dir, "run"), env=e)
        return rc, out, " ".join(cmd)

    TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def validate(self, module, path, timeout=800, cfg=None, mem="3g"):
        """Let TLC decide whether the recorded trace is a behaviour. Returns (line or None, output)."""
        rc, out, _ = self.java(module, cfg or self.TRACE_CFG, env={"TRACE": path}, timeout=timeout, mem=mem)
        m = re.search(r'<<"TRACE_ACCEPTED", (\d+)>>', out)
        if m and rc == 0:
            return None, int(m.group(1)), out
        m = re.search(r'<<"TRACE_REJECTED", (\d+)>>', out)
        if m:
            return int(m.group(1)), None, out
        i = out.find("Error:")
        raise Broken(f"trace validation {module} gave no verdict (rc={rc}):\n{out[i:i + 1500] if i >= 0 else out[-3000:]}")

    def conform(self, binary, module, shards=None, args=(), timeout=800, env=None, label="", cfg=None):
        """Record traces from the real code (sharded) and validate each against the specification."""
        shards = shards or CPUS
        label = label or os.path.basename(binary)

        def one(i):
            p = os.path.join(self.dir, "run", f"{label}-{module}-{i}.ndjson")
            if os.path.exists(p):
                os.remove(p)
            a = ["--shard", str(i), "--shards", str(shards)] + list(args)
            rc, out, cmd = self.record(binary, p, a, timeout, env)
            if rc != 0:
                raise Broken(f"driver failed rc={rc}: {cmd}\n{out[-3000:]}")
            return p, out, cmd

        def full(i):
            p, dout, cmd = one(i)
            if os.path.getsize(p) == 0:
                return
            bad, n, out = self.validate(module, p, timeout, cfg)
            if bad is not None:
                first = open(p).read().splitlines()
                p, dout, cmd = one(i)
                bad2, n, out = self.validate(module, p, timeout, cfg)
                again = open(p).read().splitlines()
                if bad2 is None:
                    raise Broken(f"rejection of line {bad} of {p} was not repeatable")
                self.reject(module, again, bad2, cmd, dout, env)
                return
            self.account(p, module)

        futs = [self.pool.submit(full, i) for i in range(shards)]
        errs = []
        for f in futs:
            try:
                f.result()
            except Broken as ex:
                errs.append(ex)
        if errs and not self.violations:
            raise errs[0]
        self.log(f"conformance {label} vs {module}: {self.traces} traces, {self.events} events so far")

    def conform_events(self, name, produce, module, timeout=800, cfg=None):
        """Validate a trace that Python derives from the output of a program of the repository."""
        p = os.path.join(self.dir, "run", f"{name}-{module}.ndjson")

        def one():
            ev = produce()
            lines = [json.dumps(e, ensure_ascii=False) for e in ev]
            lines = [re.sub(r'^\{"op": "', '{"op":"', x) for x in lines]
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
            return lines, self.validate(module, p, timeout, cfg)[0]

        lines, bad = one()
        if bad is not None:
            lines, bad2 = one()
            if bad2 is None:
                raise Broken(f"rejection of line {bad} of {name} was not repeatable")
            self.reject(module, lines, bad2, name, "")
        else:
            self.account(p, module)

    def account(self, path, module):
        with open(path) as f:
            lines = f.read().splitlines()
        n = 0
        for l in lines:
            m = re.match(r'^\{"op":"(\w+)"', l)
            k = m.group(1) if m else "?"
            if k == "begin":
                self.traces += 1
                continue
            self.kinds[k] = self.kinds.get(k, 0) + 1
            n += 1
            if self.kinds[k] in (3, 30, 300, 3000) and len(self.samples) < 16:
                self.samples.append(l[:400])
        self.events += n
        self.states += len(lines) + 1
        self.transitions += len(lines)

    def reject(self, module, lines, bad, cmd, dout, env=None):
        ev = lines[bad - 1] if bad <= len(lines) else "(trace ended early)"
        start = 0
        for i in range(min(bad, len(lines)) - 1, -1, -1):
            if lines[i].startswith('{"op":"begin"'):
                start = i
                break
        self.violation(f"event rejected by {module}: {ev[:1500]}",
                       dict(spec=module, event=ev, scenario=lines[start:bad], driver=cmd, env=env,
                            driver_output=dout[-4000:]))

    def violation(self, what, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, f"{self.pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, **data), f, indent=1,
                      ensure_ascii=False)
        self.violations.append((what, path))

    # ------------------------------------------------------------------ end
    def finish(self, explanation=""):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"], events_validated=self.events, events_by_action=self.kinds,
                   models=self.models)
        cov.update(self.notes)
        if explanation:
            cov["explanation"] = explanation
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for l in known_findings(self.pid):
            print(l)
        if self.violations:
            for what, path in self.violations:
                print(what[:2000])
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        self.log(f"held: {self.traces} traces, {self.events} events, {self.states} states")
        return 0


def known_findings(pid):
    """Lines to print for recorded (unrepaired) findings of this property."""
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return []
    res = []
    for l in open(p):
        m = re.match(r"^finding: property=(\S+) (.*)$", l.strip())
        if m and m.group(1) == pid:
            res.append(f"KNOWN-FINDING: property={pid} {m.group(2)}")
    return res


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish(fn.__doc__ or "")
    except Broken as ex:
        print(f"ERROR in the machinery of {pid}: {ex}", flush=True)
        rc = 1 if c.violations and c.finish() == 1 else 3
    c.pool.shutdown(wait=True)
    sys.exit(rc)
