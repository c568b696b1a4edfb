"""Machinery shared by all checks: building drivers against /repo's working tree,
running TLC on design specifications and on recorded traces, evidence."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """the check itself could not give an answer (exit status 2)"""


class Violation(Exception):
    def __init__(self, replay, why):
        self.replay, self.why = replay, why


def env_go():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, ".work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.doubts = []
        self.replays = os.path.join(VERIF, ".work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        design_specs=[], trace_events={}, trace_specs=[], replayed_behaviours=0)
        self.assumptions = []
        self.nfile = 0

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.dir, "%03d-%s" % (self.nfile, name))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ Go
    def build(self, area, files, pkgdir, deps=()):
        """builds harness/<area> as a main package overlaid at /repo/<pkgdir>"""
        repl = {}
        for f in files:
            repl[os.path.join(REPO, pkgdir, os.path.basename(f))] = os.path.join(VERIF, "harness", f)
        return self.build_overlay(area, repl, pkgdir)

    def build_overlay(self, area, repl, pkgdir):
        ov = self.path("overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        out = os.path.join(self.dir, "drv-" + area)
        p = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./" + pkgdir], cwd=REPO,
                           env=env_go(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("driver %s does not build:\n%s" % (area, p.stderr[-4000:]))
        self.log("built driver", area)
        return out

    def build_test(self, area, pkg, files, tags="verif", optional=()):
        """builds an in-package test binary with overlaid files (for package main parts of /repo).
        The optional files look closer at private parts of the package; if they do not
        fit it (any more) the driver is built without them."""
        try:
            return self.build_test1(area, pkg, list(files) + list(optional), tags)
        except CheckError as e:
            if not optional:
                raise
            self.log(str(e)[:600])
        tries = [[o] for o in optional] if len(optional) > 1 else []
        for out in tries + [list(optional)]:
            self.log("the package does not have the expected private parts: building", area, "without", *out)
            self.cov["left_out"] = out
            try:
                return self.build_test1(area, pkg, list(files) + [o for o in optional if o not in out], tags)
            except CheckError:
                if out == list(optional):
                    raise

    def build_test1(self, area, pkg, files, tags):
        repl = {}
        for f in files:
            base = os.path.basename(f).replace(".go", "")
            repl[os.path.join(REPO, pkg, "zz_verif_" + base + "_test.go")] = os.path.join(VERIF, "harness", f)
        ov = self.path("overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        out = os.path.join(self.dir, "drv-" + area + ".test")
        cmd = ["go", "test", "-vet=off", "-c", "-overlay", ov, "-o", out]
        if tags:
            cmd += ["-tags", tags]
        p = subprocess.run(cmd + ["./" + pkg], cwd=REPO, env=env_go(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("driver %s does not build:\n%s" % (area, (p.stdout + p.stderr)[-4000:]))
        self.log("built driver", area)
        return out

    def drive(self, binary, args, timeout=300, env=None, crash_to=None):
        """crash_to: trace in which a crash of the program (of a goroutine of the code
        under test) is recorded as an event"""
        e = dict(os.environ)
        if env:
            e.update(env)
        if crash_to is None and "-out" in args:
            crash_to = args[args.index("-out") + 1]
        try:
            p = subprocess.run([binary] + [str(a) for a in args], cwd=self.dir, capture_output=True, text=True,
                               timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            return self.gave_up(crash_to, "driver timed out: %s %s" % (binary, args))
        if p.returncode != 0 and crash_to and os.path.exists(crash_to):
            m = re.search(r"^(panic: |fatal error: )(.*)$", p.stderr, re.M)
            if m:
                keep = open(crash_to, "rb").read()
                keep = keep[:keep.rfind(b"\n") + 1]
                with open(crash_to, "wb") as f:
                    f.write(keep)
                    f.write((json.dumps(dict(ev="crash" if keep else "early", why=m.group(0)[:200]), separators=(",", ":")) + "\n").encode())
                self.log("driver crashed:", m.group(0))
                return p.stdout
        if p.returncode != 0:
            return self.gave_up(crash_to, "driver failed (%d): %s %s\n%s\n%s" % (p.returncode, binary, args, p.stdout[-1500:], p.stderr[-3000:]))
        return p.stdout

    def gave_up(self, trace, why):
        """what was recorded is judged all the same; without a violation the check has no answer"""
        self.doubt(why)
        if trace is None:
            raise CheckError(why)
        keep = open(trace, "rb").read() if os.path.exists(trace) else b""
        with open(trace, "wb") as f:
            f.write(keep[:keep.rfind(b"\n") + 1])
        return ""

    def doubt(self, why):
        self.log("no answer unless something is violated:", why.splitlines()[0])
        self.doubts.append(why)

    def drive_many(self, jobs, timeout=300, workers=CORES):
        """jobs: list of (binary, args, env[, crash trace]); run in parallel"""
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(self.drive, j[0], j[1], timeout, *j[2:]) for j in jobs]
            return [f.result() for f in futs]

    # ----------------------------------------------------------------- TLC
    def java(self, args, timeout, extra_env=None, heap="2g", serial=False):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if extra_env:
            e.update(extra_env)
        gc = "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss32m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"] + args
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out after %ds: %s" % (timeout, " ".join(args)))
        return p.returncode, p.stdout + p.stderr

    def cfg(self, name, spec="Spec", consts=None, invariants=(), properties=(), constraint=None,
            action_constraint=None, postcondition=None, symmetry=None, view=None, deadlock=False):
        out = self.path(name + ".cfg")
        with open(out, "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s %s\n" % (k, v) if str(v).startswith("<-") else "CONSTANT %s = %s\n" % (k, v))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if constraint: f.write("CONSTRAINT %s\n" % constraint)
            if action_constraint: f.write("ACTION_CONSTRAINT %s\n" % action_constraint)
            if postcondition: f.write("POSTCONDITION %s\n" % postcondition)
            if symmetry: f.write("SYMMETRY %s\n" % symmetry)
            if view: f.write("VIEW %s\n" % view)
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        return out

    STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

    def stats(self, out):
        m = self.STATS.findall(out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def design(self, module, cfgname=None, timeout=600, heap="8g", broken=None, **kw):
        """model-check a design specification exhaustively; a failure is an error of the
        specification, not a verdict on the code.  broken: the constants describe a
        faulty design, and this invariant has to be reported violated (the
        specification can tell)"""
        name = module
        c = self.cfg(name, **kw)
        md = self.path("md"); os.makedirs(md)
        t = time.time()
        rc, out = self.java(["-workers", str(CORES), "-metadir", md, "-config", c, module + ".tla"], timeout, heap=heap)
        shutil.rmtree(md, ignore_errors=True)
        if broken:
            if "Invariant %s is violated" % broken not in out:
                raise CheckError("design specification %s does not reject the faulty design:\n%s" % (module, out[-4000:]))
            self.cov["design_specs"].append(dict(spec=module, constants={k: str(v) for k, v in kw.get("consts", {}).items()},
                                                 negative_control=True, violated_as_expected=broken))
            self.log("design %s: faulty variant rejected (%s)" % (module, broken))
            return out
        if "Model checking completed. No error has been found." not in out:
            raise CheckError("design specification %s does not check:\n%s" % (module, out[-6000:]))
        g, d = self.stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["design_specs"].append(dict(spec=module, constants={k: str(v) for k, v in kw.get("consts", {}).items()},
             invariants=list(kw.get("invariants", ())), properties=list(kw.get("properties", ())),
             distinct_states=d, states_generated=g, exhaustive=True, wall_s=round(time.time() - t, 1)))
        self.log("design %s: %d distinct states, %d generated" % (module, d, g))
        return out

    def generate(self, module, timeout=600, heap="8g", simulate=None, **kw):
        """behaviours that TLC prints as JSON"""
        c = self.cfg(module, **kw)
        md = self.path("md"); os.makedirs(md)
        args = ["-workers", str(CORES), "-metadir", md, "-config", c]
        if simulate:
            args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        rc, out = self.java(args + [module + ".tla"], timeout, heap=heap)
        shutil.rmtree(md, ignore_errors=True)
        if simulate:
            if "Error:" in out:
                raise CheckError("generation from %s failed:\n%s" % (module, out[-4000:]))
        elif "Model checking completed. No error has been found." not in out:
            raise CheckError("generation from %s failed:\n%s" % (module, out[-4000:]))
        g, d = self.stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        res = self.path(module + ".ndjson")
        n = 0
        seen = set()
        with open(res, "w") as f:
            for line in out.splitlines():
                if line.startswith('"{'):
                    s = json.loads(line)
                    if s in seen: continue
                    seen.add(s)
                    f.write(s + "\n")
                    n += 1
        if n == 0:
            raise CheckError("no behaviour generated from " + module)
        self.log("generated %d behaviours from %s (%d states)" % (n, module, d))
        return res, n

    # -------------------------------------------------------------- traces
    def split(self, trace, nchunks, name, ceiling=6000):
        """cut a trace at session boundaries"""
        lines = open(trace).read().splitlines()
        if not lines:
            return []
        target = max(200, min(ceiling, -(-len(lines) // nchunks)))
        chunks, cur = [], []
        for ln in lines:
            if '"ev":"new"' in ln and len(cur) >= target:
                chunks.append(cur); cur = []
            cur.append(ln)
        if cur:
            chunks.append(cur)
        res = []
        for c in chunks:
            pth = self.path(name + ".ndjson")
            open(pth, "w").write("\n".join(c) + "\n")
            res.append((pth, len(c)))
        return res

    def check_chunk(self, spec, path, n, props, consts, timeout):
        cc = dict(consts or {})
        cc["Props"] = "{" + ",".join('"%s"' % p for p in props) + "}"
        c = self.cfg(spec, consts=cc, constraint="Note", postcondition="Verdict")
        md = self.path("md"); os.makedirs(md)
        rc, out = self.java(["-workers", "1", "-metadir", md, "-config", c, spec + ".tla"], timeout,
                            {"TRACE": path}, heap="2500m", serial=True)
        shutil.rmtree(md, ignore_errors=True)
        g, d = self.stats(out)
        if '"TRACE-ACCEPTED", %d>>' % n in out and "No error has been found" in out:
            return None, g, d
        m = re.search(r'"TRACE-REJECTED", (\d+)>>', out)
        if m and "No error has been found" in out:
            fails = re.findall(r'<<\s*"FAIL",.*?>>', out, re.S)
            return (int(m.group(1)), " ".join((fails[-1] if fails else "no transition").split())), g, d
        # an event that the specification cannot even interpret (a message to nobody, an
        # answer that was not given) is no transition of it
        m = re.search(r"Attempted to [^\n]*|evaluat[^\n]*CHOOSE[^\n]*|No (?:field|matching)[^\n]*", out)
        pos = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if m and pos and not re.search(r"OutOfMemory|StackOverflow|ndJsonDeserialize|Parsing|Semantic error", out):
            return (int(pos[-1]), "the event cannot be a transition: " + m.group(0)), g, d
        raise CheckError("TLC failed on trace %s with %s:\n%s" % (path, spec, out[-5000:]))

    def traces(self, spec, files, props=None, consts=None, timeout=800, need=(), parts=None):
        """validate recorded traces; files: list of (label, path)"""
        props = props or [self.prop]
        chunks = []
        total = 0
        seen = {}
        allkinds = set()
        for label, path in files:
            for ln in open(path):
                total += 1
                m = re.search(r'"ev":"([^"]+)"', ln)
                k = m.group(1) if m else "?"
                seen[k] = seen.get(k, 0) + 1
        sessions = seen.get("new", 0)
        for label, path in files:
            size = sum(1 for _ in open(path))
            share = max(1, round(CORES * (parts or 1) * size / max(1, total)))
            for pth, n in self.split(path, share, label):
                chunks.append((label, pth, n))
        bad = None
        states = gen = 0
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = {ex.submit(self.check_chunk, spec, pth, n, props, consts, timeout): (label, pth, n) for label, pth, n in chunks}
            errs = []
            for f in cf.as_completed(futs):
                label, pth, n = futs[f]
                try:
                    r, g, d = f.result()
                except CheckError as e:
                    errs.append(e); continue
                states += d; gen += g
                if r and (bad is None):
                    bad = (label, pth, r)
        if bad:
            label, pth, (pos, why) = bad
            raise Violation(self.save_replay(spec, label, pth, pos, why), "%s (trace %s, event %d)" % (why, label, pos))
        if errs:
            raise errs[0]
        self.cov["states"] += states
        self.cov["transitions"] += gen
        self.cov["traces_validated_against_impl"] += sessions
        te = self.cov["trace_events"]
        for k, v in seen.items():
            te[k] = te.get(k, 0) + v
        if spec not in self.cov["trace_specs"]:
            self.cov["trace_specs"].append(spec)
        for k in need:
            if not seen.get(k):
                self.doubt("vacuous: no event %s in the recorded traces %s" % (k, [l for l, _ in files]))
        for label, path in files[:2]:
            self.sample(label, path)
        self.log("%s accepted %d sessions, %d events" % (spec, sessions, total))

    def sample(self, label, path):
        if len(self.cov["samples"]) >= 4: return
        ses = []
        for ln in open(path):
            if '"ev":"new"' in ln and ses: break
            ses.append(json.loads(ln))
            if len(ses) > 12: break
        self.cov["samples"].append(dict(trace=label, first_events=ses))

    def save_replay(self, spec, label, path, pos, why):
        lines = open(path).read().splitlines()
        pos = min(pos, len(lines))
        start = pos - 1
        while start > 0 and '"ev":"new"' not in lines[start]:
            start -= 1
        out = os.path.join(self.replays, "%s-%s-seed%d-%s.ndjson" % (self.prop, label, self.seed, self.tier))
        with open(out, "w") as f:
            f.write("\n".join(lines[start:pos]) + "\n")
        with open(out + ".txt", "w") as f:
            f.write("property %s, trace specification %s\nrejected event (last line of the replay): %s\nreason: %s\n"
                    "re-check: cd /verif/spec && TRACE=%s tlc -config <cfg> %s.tla\n" % (self.prop, spec, lines[pos - 1], why, out, spec))
        return out

    # ------------------------------------------------------------- evidence
    def evidence(self, violations, level="model_checking", extra=None):
        self.cov.update(extra or {})
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
