"""Driver library: builds the harness from /repo, runs it, has TLC validate what it recorded."""
import concurrent.futures as cf
import hashlib, itertools, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

CONFIGS = {  # name: (toolchain, rustflags, cargo args)
    "exempt": ("stable", "--cfg procmacro2_semver_exempt", []),
    "exempt-nodef": ("stable", "--cfg procmacro2_semver_exempt", ["--no-default-features"]),
    "default": ("stable", "", []),
    "nodef": ("stable", "", ["--no-default-features"]),
    "loc": ("stable", "", ["--features", "loc"]),
    "nodef-loc": ("stable", "", ["--no-default-features", "--features", "loc"]),
    "nightly-exempt": ("nightly", "--cfg procmacro2_semver_exempt", []),
    "nightly-loc": ("nightly", "", ["--features", "loc"]),
    "boot-exempt": ("stable+boot", "--cfg procmacro2_semver_exempt", []),       # a stable compiler told to allow unstable features
    "old": ("stable", "--cfg no_literal_c_string --cfg no_literal_byte_character", []),   # as built with rustc before 1.79
}
OLD = CONFIGS["old"][1]


class ToolError(Exception):
    pass


def env_for(toolchain, flags):
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(HOME=home, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_AUTO_INSTALL="0", RUSTUP_TOOLCHAIN=toolchain.split("+")[0], RUSTFLAGS=flags)
    for k in ("RUSTC_BOOTSTRAP", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    if toolchain.endswith("+boot"):
        e["RUSTC_BOOTSTRAP"] = "1"
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []      # (what, payload)
        self.known = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.sampled = set()
        self.extra = {}
        self.assumptions = ["the TLA+ modules state the property (they are what decides)",
                            "the harness projects real values to records faithfully",
                            "beyond the enumerated inputs and model bounds, random inputs and histories of this run's seed stand for all"]
        self.model_runs = []
        self.kf = self.load_known()

    def load_known(self):
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                return [x for x in json.load(f)["findings"] if x["property"] == self.prop and x.get("status") == "open"]
        except FileNotFoundError:
            return []

    def note(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, config, crate="harness", extra_flags=""):
        tc, flags, args = CONFIGS[config]
        flags = (flags + " " + extra_flags).strip()
        tdir = os.path.join(VERIF, "target", config + ("-" + hashlib.sha1(extra_flags.encode()).hexdigest()[:6] if extra_flags else ""))
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"),
               "--target-dir", tdir] + args
        for attempt in (1, 2):
            r = subprocess.run(cmd, env=env_for(tc, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
        else:
            raise ToolError("cannot build %s in configuration %s:\n%s" % (crate, config, r.stdout[-4000:]))
        return os.path.join(tdir, "debug", "pm2h")

    def build_macro(self, toolchain="stable", flags="", features=()):
        """The harness as a procedural macro; returns (library, toolchain)."""
        name = "macro-%s-%s" % (toolchain, hashlib.sha1((flags + "|" + ",".join(features)).encode()).hexdigest()[:6])
        tdir = os.path.join(VERIF, "target", name)
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "pmh", "Cargo.toml"), "--target-dir", tdir]
        if features:
            cmd += ["--features", ",".join(features)]
        for attempt in (1, 2):
            r = subprocess.run(cmd, env=env_for(toolchain, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
        else:
            raise ToolError("cannot build the macro (%s):\n%s" % (name, r.stdout[-4000:]))
        return os.path.join(tdir, "debug", "libpmh.so"), toolchain

    def rustc_macro(self, macro, args, current, timeout, tag, user=None, env=None):
        so, toolchain = macro
        e = env_for(toolchain, "")
        e.update(env or {})
        e.update(PM2H_ARGS="\x1f".join(map(str, args)), PM2H_CURRENT=current)
        tmp = os.path.join(self.dir, "rmeta")
        os.makedirs(tmp, exist_ok=True)
        o = os.path.join(tmp, hashlib.sha1(tag.encode()).hexdigest()[:12] + ".rmeta")
        cmd = ["rustc", "--edition", "2021", "--crate-name", "user", "--emit=metadata", "-o", o, "--extern", "pmh=" + so,
               user or os.path.join(VERIF, "pmh", "user", "main.rs")]
        return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=tmp)

    def run_macro(self, macro, mode, *args, sub="", timeout=300, random=None, chunks=NCPU, strict=True, user=None):
        """As run, inside a procedural macro.  strict: the compilation must succeed without a complaint."""
        d = os.path.join(self.dir, sub or "macro-" + mode)
        os.makedirs(d, exist_ok=True)
        cur = os.path.join(d, "current")
        a = [mode, "--out", d, "--chunks", chunks, "--tier", self.tier, "--seed", self.seed]
        if random is not None:
            a += ["--random", random]
        try:
            r = self.rustc_macro(macro, a + list(args), cur, timeout, d, user=user and os.path.join(VERIF, "pmh", "user", user))
        except subprocess.TimeoutExpired:
            self.violate("no answer within %d s inside a macro (hang)" % timeout, {"mode": mode, "input": self.read_current(cur)})
            raise ToolError("hang")       # reported; nothing else would end in time
        err = r.stderr.decode(errors="replace")
        if r.returncode == 3:
            raise ToolError("harness: " + err[-2000:])
        if b"PM2H-DONE" not in r.stdout:
            if "can't find crate" in err or "couldn't load" in err:
                raise ToolError("rustc: " + err[-2000:])
            self.violate("the macro died (exit status %d: %s)" % (r.returncode, err[-300:].strip()), {"mode": mode, "input": self.read_current(cur)})
            return None
        if strict and (r.returncode != 0 or "error" in err):
            self.violate("the compilation was poisoned: " + err[:300].strip(), {"mode": mode, "args": [str(x) for x in args], "compiler": err[:4000]})
        return d

    # ---- running the harness -------------------------------------------
    def run(self, binary, mode, *args, sub="", timeout=300, random=None, chunks=NCPU, env=None):
        """Runs the harness; returns its output directory.  A crash or hang of the code under test
        is reported as a violation with the input being processed."""
        d = os.path.join(self.dir, sub or mode)
        os.makedirs(d, exist_ok=True)
        cur = os.path.join(d, "current")
        cmd = [binary, mode, "--out", d, "--chunks", str(chunks), "--tier", self.tier, "--seed", str(self.seed)]
        if random is not None:
            cmd += ["--random", str(random)]
        cmd += [str(x) for x in args]
        e = dict(os.environ, PM2H_CURRENT=cur)
        if env:
            e.update(env)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            self.violate("no answer within %d s (hang)" % timeout, {"mode": mode, "input": self.read_current(cur)})
            raise ToolError("hang")       # reported; nothing else would end in time
        if r.returncode == 3:
            raise ToolError("harness: " + r.stderr.decode(errors="replace")[-2000:])
        if r.returncode != 0:
            self.violate("the process died (exit status %d: %s)" % (r.returncode, r.stderr.decode(errors="replace")[-300:].strip()),
                         {"mode": mode, "input": self.read_current(cur)})
            return None
        return d

    @staticmethod
    def read_current(path):
        try:
            with open(path, "rb") as f:
                b = f.read()
            n = int.from_bytes(b[:8], "little")
            return b[8:8 + n].decode("utf-8", errors="replace")
        except OSError:
            return None

    # ---- TLC ------------------------------------------------------------
    def tlc_cmd(self, module, cfg, workers, heap, extra=()):
        md = os.path.join(self.dir, "md", "%s-%d" % (module, len(os.listdir(os.path.join(self.dir, "md"))) if os.path.isdir(os.path.join(self.dir, "md")) else 0))
        os.makedirs(md)
        return ["java", "-Xss256m", "-Xmx%s" % heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
                "-XX:TieredStopAtLevel=4", "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers),
                "-metadir", md, "-lncheck", "final", "-noGenerateSpecTE", *extra, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]

    def trace_jobs(self, module, d, stem, cfg=None, env=None, tag=""):
        jobs = []
        for k in range(64):
            f = os.path.join(d, "%s.%d.ndjson" % (stem, k))
            if not os.path.exists(f):
                break
            n = sum(1 for _ in open(f, "rb"))
            if n == 0:
                continue
            jobs.append(dict(kind="trace", module=module, cfg=cfg or module + ".cfg", file=f, n=n, tag=tag or stem, env=env or {},
                             cmd=self.tlc_cmd(module, cfg or module + ".cfg", 1, "3g")))
        if not jobs:
            raise ToolError("no records for %s" % stem)
        return jobs

    def model_job(self, module, cfg=None, workers=2, heap="4g", env=None, simulate=None):
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        return dict(kind="model", module=module, cfg=cfg or module + ".cfg", env=env or {}, tag=cfg or module,
                    cmd=self.tlc_cmd(module, cfg or module + ".cfg", workers, heap, extra), simulate=bool(simulate))

    def tlc(self, jobs, timeout=780):
        """Runs TLC jobs in parallel; returns the mismatches of the trace jobs:
        list of (job, record number (1-based), verdict text, record line)."""
        limit = max(30, timeout - (time.time() - self.t0)) if not self.thorough else 6 * 3600
        mism = []

        def one(j):
            e = dict(os.environ)
            e.update(j["env"])
            if j["kind"] == "trace":
                e["TRACE"] = j["file"]
            for attempt in (1, 2, 3):
                try:
                    r = subprocess.run(j["cmd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                                       timeout=limit, errors="replace")
                except subprocess.TimeoutExpired:
                    raise ToolError("TLC timed out on %s %s" % (j["module"], j.get("file", "")))
                if r.returncode >= 0:
                    break
                time.sleep(5)       # ended from outside (memory): once more
            return r.stdout, r.returncode

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, (out, rc) in zip(jobs, ex.map(one, jobs)):
                j["out"] = out
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
                if j["kind"] == "trace":
                    if rc != 0 and "when TLC was evaluating the nested" in out and not re.search("StackOverflow|OutOfMemory", out):
                        # a record the specification cannot even be evaluated on
                        k = max([int(x) for x in re.findall(r"^(?:/\\ )?k = (\d+)", out, re.M)] or [1])
                        lines = open(j["file"]).read().split("\n")
                        mism.append((j, min(k, j["n"]), "outside the specification's domain", lines[min(k, j["n"]) - 1]))
                        continue
                    if rc != 0 or not m:
                        raise ToolError("TLC failed on %s %s:\n%s" % (j["module"], j["file"], out[-3000:]))
                    distinct = int(m.group(2).replace(",", ""))
                    if distinct != j["n"] + 1:
                        raise ToolError("TLC consumed %d of %d records of %s\n%s" % (distinct - 1, j["n"], j["file"], out[-2000:]))
                    self.states += distinct
                    self.transitions += int(m.group(1).replace(",", "")) - 1
                    self.validated += j["n"]
                    if j["tag"] not in self.sampled and len(self.samples) < 12:
                        self.sampled.add(j["tag"])
                        with open(j["file"]) as f:
                            for line in itertools.islice(f, j["n"] // 2, j["n"] // 2 + 1):
                                self.samples.append("%s, record %d of %s: %s" % (j["tag"], j["n"] // 2 + 1, os.path.basename(j["file"]), line.strip()[:240]))
                    found = parse_mismatches(out)
                    if found:
                        lines = open(j["file"]).read().split("\n")
                        for (k, verdict) in found:
                            mism.append((j, k, verdict, lines[k - 1]))
                else:
                    if rc != 0:
                        raise ToolError("model checking of %s failed (the specification itself):\n%s" % (j["tag"], out[-3000:]))
                    g = d = 0
                    if m:
                        g, d = (int(m.group(x).replace(",", "")) for x in (1, 2))
                    else:
                        m2 = re.search(r"The number of states generated: ([\d,]+)", out)
                        if m2:
                            g = d = int(m2.group(1).replace(",", ""))
                    self.states += d
                    self.transitions += g
                    self.model_runs.append({"model": j["tag"], "distinct_states": d, "generated": g})
        shutil.rmtree(os.path.join(self.dir, "md"), ignore_errors=True)
        return mism

    # ---- results --------------------------------------------------------
    def violate(self, what, payload):
        self.violations.append((what, payload))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        lim = 5
        for n, (what, payload) in enumerate(self.violations[:lim]):
            path = os.path.join(self.dir, "replay_%d.json" % n)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "tier": self.tier, "seed": self.seed, "case": payload,
                           "rerun": "cd /verif && VERIF_TIER=%s VERIF_SEED=%d python3 check.py %s" % (self.tier, self.seed, self.prop)},
                          f, ensure_ascii=False, indent=1)
            print("  " + what[:300])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ["(no sample)"])
        if self.model_runs:
            cov["models"] = self.model_runs
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        self.note("records validated: %d, states: %d, violations: %d" % (self.validated, self.states, len(self.violations)))
        # keep replay files only
        if not os.environ.get("VERIF_KEEP"):
            for x in os.listdir(self.dir):
                p = os.path.join(self.dir, x)
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
        return 1 if self.violations else 0


def parse_mismatches(out):
    found = []
    # TLC may wrap long tuples over several lines
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)"', out):
        found.append((int(m.group(1)), m.group(2)))
    return found


def text(cps):
    return "".join(map(chr, cps))
