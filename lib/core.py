"""What all checks share: building the harness, running TLC, running drivers in
parallel, validating the traces they record, and reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VH_REPO", "/repo")  # (elsewhere only to try the checks out)
TLA = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check could not be carried out: no verdict."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def goenv(**more):
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
               GOEXPERIMENT="arenas", GOSUMDB="off")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    env.update(more)
    return env


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        base = "/dev/shm" if shm_ok() else None
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=base)
        self.states = self.transitions = self.traces = self.events = 0
        self.cov, self.samples, self.assumptions, self.notes = {}, [], [], []
        self.bins = {}
        self.deadline = self.t0 + (780 if self.quick else 3 * 3600)

    # ------------------------------------------------------------ files
    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def mkdir(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(q, exist_ok=True)
        return q

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def left(self):
        return self.deadline - time.time()

    # ------------------------------------------------------------ harness
    def harness(self, race=False):
        """Builds the harness against /repo's working tree, outside of both."""
        if race in self.bins:
            return self.bins[race]
        src = self.mkdir("src")
        for f in os.listdir(os.path.join(VERIF, "harness")):
            if f.endswith(".go") or f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(VERIF, "harness", f), src)
        if REPO != "/repo":
            with open(os.path.join(src, "go.mod")) as f:
                m = f.read()
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write(m.replace("/repo", REPO))
        out = self.path("vh-race" if race else "vh")
        cmd = ["go", "build", "-o", out]
        if race:
            cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
        r = subprocess.run(cmd + ["."], cwd=src, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("the harness does not build:\n" + r.stdout + r.stderr)
        self.bins[race] = out
        self.log("harness built" + (" (race detector)" if race else ""))
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, name=None, workers=NCPU, env=None, args=(), mem="3g", timeout=None, props=()):
        """Runs TLC; returns (return code, output)."""
        name = name or module
        n = len(self.cov.setdefault("tlc_runs", []))
        d = self.mkdir("tlc-%s-%d-%s" % (name, n, os.urandom(3).hex()))
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        cmd = (["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Xmx" + mem,
                "-Xss64m", "-Djava.io.tmpdir=" + d] + list(props) + ["-cp", TLA, "tlc2.TLC", "-metadir", os.path.join(d, "m"), "-workers", str(workers),
                "-noGenerateSpecTE", "-config", cfgf] + list(args) + [os.path.join(SPEC, module + ".tla")])
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True,
                               timeout=timeout or max(60, self.left()))
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode(errors="replace"), "timeout"
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, name=None, workers=NCPU, expect_violation=None, timeout=None, args=(), mem="3g"):
        """Checks the specification itself. An error here says nothing about the
        code, so it is an error of the check and not a violation."""
        rc, out = self.tlc(module, cfg, name, workers, args=args, timeout=timeout, mem=mem)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not m:
            raise CheckError("TLC on %s (%s): rc %s\n%s" % (module, name, rc, out[-3000:]))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.cov["tlc_runs"].append({"model": name or module, "states": dist, "transitions": gen})
        self.log("model %s: %d states, %d transitions" % (name or module, dist, gen))
        return out

    def mutant(self, module, cfg, name):
        """A broken variant of the design, which TLC has to reject: shows that the
        invariants can fail."""
        rc, out = self.tlc(module, cfg, name)
        if rc in (12, 13, 11, 10):
            self.cov.setdefault("rejected_design_mutants", []).append(name)
            return
        raise CheckError("the design mutant %s is not rejected: rc %s\n%s" % (name, rc, out[-2000:]))

    def emitted(self, out, tag="@@H "):
        res = []
        for l in out.splitlines():
            if l.startswith('"' + tag):
                res.append(json.loads(json.loads(l)[len(tag):]))
        return res

    def validate(self, module, trace, name=None, mem="2g", consts="", more_env=None):
        """Has TLC check a recorded trace. Returns None if it is accepted, else
        (number of the rejected line, reasons)."""
        env = {"TRACE": trace, "PROP": self.prop}
        env.update(more_env or {})
        cfg = ("SPECIFICATION %s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % ("BTraceSpec" if module == "BuildTrace" else "TraceSpec")
               + consts)
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError("empty trace " + trace)
        rc, out = self.tlc(module, cfg, name or module, workers=1, env=env, mem=mem)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if rc == 0 and m and int(m[-1]) == n + 1:
            return None
        rej = re.findall(r'<<\s*"@@R",\s*(\d+),\s*(.*?)\s*>>', out, re.S)
        if rej and m:
            line = int(m[-1])
            why = sorted({w for (l, w) in rej if int(l) == line})
            if why:
                return line, why
        raise CheckError("TLC on trace %s of %s: rc %s\n%s" % (trace, module, rc, out[-4000:]))

    # ------------------------------------------------------------ drivers
    def drive(self, args, trace, mark, race=False, timeout=None, env=None, mem_gb=None):
        """Runs the harness once. Returns (rc, stderr)."""
        exe = self.harness(race)

        def limits():
            if mem_gb and not race:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        e = goenv(**(env or {}))
        e.setdefault("GOMEMLIMIT", "6GiB")
        errf = trace + ".err"
        with open(errf, "wb") as ef:
            try:
                r = subprocess.run([exe] + args, stdout=subprocess.DEVNULL, stderr=ef, env=e,
                                   timeout=timeout or max(60, self.left()), preexec_fn=limits)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        with open(errf, errors="replace") as f:
            err = f.read()
        os.unlink(errf)
        return rc, err

    def chunk(self, cmd, lo, hi, extra, module, name, race=False, env=None, consts="", died_ok=None, mem_gb=None,
              casetimeout=None, mem="2g"):
        """Cases lo..hi-1 of a driver: records and validates their traces.
        Returns (number of cases, events, violation or None)."""
        done_cases = events = 0
        pos = lo
        while pos < hi:
            tag = "%s-%s-%d-%s" % (name, cmd, pos, os.urandom(3).hex())
            trace, mark = self.path("tr", tag + ".ndjson"), self.path("tr", tag + ".mark")
            scratch = self.mkdir("w", tag)
            args = [cmd, "-seed", str(self.seed), "-tier", self.tier, "-lo", str(pos), "-hi", str(hi),
                    "-out", trace, "-mark", mark, "-dir", scratch] + extra
            rc, err = self.drive(args, trace, mark, race, env=env, timeout=casetimeout, mem_gb=mem_gb)
            shutil.rmtree(scratch, ignore_errors=True)
            nxt = hi
            dead = None
            if rc != 0:
                if rc == 3 or rc == "timeout" and self.left() < 60:
                    raise CheckError("driver %s: rc %s\n%s" % (" ".join(args), rc, err[-3000:]))
                dead = self.death(cmd, extra, mark, rc, err, race, env, name, mem_gb, casetimeout)
                nxt = dead["case"] + 1
                self.fix_tail(trace)
                if dead["confirmed"]:
                    with open(trace, "a") as f:
                        f.write(json.dumps({"op": "died", "how": dead["how"], "at": dead["at"]}) + "\n")
            nlines = sum(1 for _ in open(trace)) if os.path.exists(trace) else 0
            if nlines:
                rej = self.validate(module, trace, name, consts=consts, mem=mem)
                if rej:
                    return done_cases, events, self.rejection(cmd, extra, module, trace, rej, name, race)
            events += nlines
            done_cases += nxt - pos
            if os.path.exists(trace):
                os.unlink(trace)
            pos = nxt
        return done_cases, events, None

    def fix_tail(self, trace):
        """Drops a last line that was cut off."""
        if not os.path.exists(trace):
            open(trace, "w").close()
            return
        with open(trace, "rb") as f:
            b = f.read()
        k = b.rfind(b"\n") + 1
        with open(trace, "wb") as f:
            f.write(b[:k])

    def death(self, cmd, extra, mark, rc, err, race, env, name, mem_gb, casetimeout):
        """The driver died in the code under test. Confirms it by running that
        case alone."""
        try:
            m = json.loads(open(mark).read().strip().splitlines()[0])
            case = m["case"]
        except Exception:
            raise CheckError("driver %s died (rc %s) before its first case\n%s" % (cmd, rc, err[-3000:]))
        how = "hang" if rc in (97, "timeout") else "crash (status %s)" % rc
        text = err[-6000:]
        confirmed = False
        for _ in range(3):
            if self.left() < 30:
                break
            tag = "%s-%s-c%d-%s" % (name, cmd, case, os.urandom(3).hex())
            tr, mk = self.path("tr", tag + ".ndjson"), self.path("tr", tag + ".mark")
            scratch = self.mkdir("w", tag)
            args = [cmd, "-seed", str(self.seed), "-tier", self.tier, "-lo", str(case), "-hi", str(case + 1),
                    "-out", tr, "-mark", mk, "-dir", scratch] + extra
            rc2, err2 = self.drive(args, tr, mk, race, env=env, timeout=casetimeout, mem_gb=mem_gb)
            shutil.rmtree(scratch, ignore_errors=True)
            if rc2 not in (0, 3):
                confirmed = True
                break
        # A crash that Go reports itself is real even when it is not repeated.
        if not confirmed and re.search(r"^(fatal error: (?!runtime: out of memory|.*cannot allocate)|panic: |SIGSEGV|unexpected fault)", err, re.M) \
                and "harness:" not in err.split("goroutine")[0]:
            confirmed = True
        self.log("driver died: %s at %s (%s)" % (how, m, "confirmed" if confirmed else "not repeatable"))
        if not confirmed:
            self.notes.append("case %s of %s ended with %s once and not again" % (case, cmd, how))
        return {"case": case, "how": how, "at": m, "confirmed": confirmed, "err": text}

    def rejection(self, cmd, extra, module, trace, rej, name, race):
        line, why = rej
        lines = open(trace).read().splitlines()
        start = line - 1
        while start > 0 and not lines[start].startswith('{"case"') and '"op":"cfg"' not in lines[start] \
                and '"op": "cfg"' not in lines[start]:
            start -= 1
        try:
            first = json.loads(lines[start])
        except Exception:
            first = {}
        rep = {"property": self.prop, "why": why, "spec": module + ".tla", "driver": cmd, "args": extra,
               "seed": self.seed, "tier": self.tier, "case": first.get("case", first.get("name")), "race": race,
               "rejected_line": json.loads(lines[line - 1]),
               "trace": [json.loads(x) for x in lines[start:line]][-400:]}
        # inputs that live in the scratch directory go into the replay
        ins = {}
        for a in extra:
            if a.startswith(os.path.join(self.dir, "in") + os.sep) and os.path.exists(a):
                key = os.path.basename(a)
                ls = open(a).read().splitlines()
                c = rep["case"]
                ins[key] = ls[c] if isinstance(c, int) and c < len(ls) else None
        rep["inputs"] = ins
        return rep

    def save_replay(self, rep):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:8]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        return p

    def conform(self, cmd, n, module, extra=(), race=False, jobs=NCPU, env=None, consts="", per=None, mem_gb=None,
                what=None, casetimeout=None, mem="2g"):
        """Runs cases 0..n-1 of a driver, in parallel, and validates the traces."""
        extra = list(extra)
        self.harness(race)
        per = per or max(1, -(-n // jobs))
        parts = [(a, min(n, a + per)) for a in range(0, n, per)]
        bad = None
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(self.chunk, cmd, a, b, extra, module, what or cmd, race, env, consts, None, mem_gb,
                              casetimeout, mem) for (a, b) in parts]
            cases = events = 0
            for f in cf.as_completed(futs):
                c, e, v = f.result()
                cases += c
                events += e
                if v and (bad is None or str(v.get("case")) < str(bad.get("case"))):
                    bad = v
                    for g in futs:
                        g.cancel()
                    break
            if bad:
                for g in futs:
                    g.cancel()
        if bad:
            p = self.save_replay(bad)
            raise Violation("; ".join(bad["why"]), p)
        self.traces += cases
        self.events += events
        self.cov.setdefault("drivers", []).append({"driver": what or cmd, "spec": module, "cases": cases, "events": events})
        self.log("%s: %d cases, %d events accepted by %s" % (what or cmd, cases, events, module))

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    # ------------------------------------------------------------ evidence
    def evidence(self, violations):
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, trace_events=self.events,
                   samples=self.samples or ["none"])
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions + self.notes, "wall_s": round(time.time() - self.t0, 1),
              "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")


def shm_ok():
    try:
        d = tempfile.mkdtemp(prefix="vht", dir="/dev/shm")
        os.rmdir(d)
        st = os.statvfs("/dev/shm")
        return st.f_bavail * st.f_frsize > (8 << 30)
    except OSError:
        return False
