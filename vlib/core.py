"""Runner core: builds the harness, runs TLC, drives the code, validates traces, writes evidence."""
import json, os, random, re, shutil, subprocess, sys, time, tempfile, hashlib, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
VH = os.path.join(HARN, "target", "debug", "vh")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


def env_rust():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.pop("CARGO_TARGET_DIR", None)
    e.setdefault("RUST_BACKTRACE", "0")
    return e


def build():
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARN, env=env_rust(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("harness build failed:\n" + p.stdout[-4000:])
    return time.time() - t


def java(args, env=None, timeout=600, heap="3g", cwd=SPEC):
    e = dict(os.environ)
    e.update(env or {})
    tmpd = os.path.join(ROOT, "work")
    os.makedirs(tmpd, exist_ok=True)
    try:
        p = subprocess.run(["java", "-XX:+UseSerialGC" if heap != "8g" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmpd, "-cp", JAR,
                            "tlc2.TLC"] + args,
                           cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out: %s" % args)
    return p.returncode, p.stdout


# exit codes of TLC for an evaluation error or a violated invariant
EVAL_ERRORS = (12, 75, 76)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.violations, self.known, self.parts, self.notes = [], [], [], [], []
        self.n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.work, "%03d-%s" % (self.n, name))

    # ---- exhaustive model checking of a specification
    def mc(self, module, cfg=None, timeout=600, heap="8g", workers=None, consts=None, note=""):
        meta = self.tmp("mc")
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if consts:
            txt = open(cfgp).read()
            for k, v in consts.items():
                txt, n = re.subn(r"(?m)(^|\s)%s\s*=\s*.*$" % k, lambda m: "%s%s = %s" % (m.group(1), k, v), txt)
                if n != 1:
                    raise CheckError("%s has no constant %s" % (cfgp, k))
            cfgp = self.tmp("cfg") + ".cfg"
            open(cfgp, "w").write(txt)
        rc, out = java(["-config", cfgp, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU), module + ".tla"],
                       timeout=timeout, heap=heap)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0:
            raise CheckError("specification %s does not satisfy its own properties (rc %d):\n%s" % (module, rc, out[-6000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        g, d = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.states += d
        self.transitions += g
        self.parts.append(dict(kind="model", module=module, distinct_states=d, transitions=g, note=note))
        return out

    # ---- behaviours generated from a specification
    def gen(self, module, depth, num=None, timeout=300, env=None, heap="4g"):
        meta = self.tmp("gen")
        e = dict(DEPTH=str(depth))
        e.update(env or {})
        args = ["-config", os.path.join(SPEC, "Gen.cfg"), "-metadir", meta, "-noGenerateSpecTE", "-workers", "1"]
        if num:
            args += ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(self.seed)]
        rc, out = java(args + [module + ".tla"], env=e, timeout=timeout, heap=heap)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0:
            raise CheckError("generation from %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        cases = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"{')]
        for c in cases:
            if c["cmds"] == {}:
                c["cmds"] = []
        if not cases:
            raise CheckError("no behaviours generated from %s" % module)
        self.parts.append(dict(kind="generated", module=module, behaviours=len(cases), depth=depth))
        return cases

    # ---- run cases on the real code
    def drive(self, subsystem, cases, threads=NCPU, case_timeout_ms=20000, timeout=600, env=None):
        a, b = self.tmp("cases.ndjson"), self.tmp("traces.ndjson")
        with open(a, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        e = env_rust()
        e.update(env or {})
        wd = self.tmp("cwd")
        os.makedirs(wd)
        e["TMPDIR"] = wd
        try:
            p = subprocess.run([VH, subsystem, a, b, str(threads), str(case_timeout_ms)], cwd=wd, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % subsystem)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        if p.returncode == 0:
            return [json.loads(l) for l in open(b)]
        if p.returncode > 0:
            raise CheckError("driver %s failed (rc %d): %s" % (subsystem, p.returncode, p.stderr[-2000:]))
        # the process died on a signal: the code under test crashed it (stack overflow, memory corruption).
        if len(cases) == 1:
            return [dict(cfg=cases[0]["cfg"], ev=[dict(op="crash", x="crash", msg="process killed by signal %d" % -p.returncode)])]
        h = len(cases) // 2
        return (self.drive(subsystem, cases[:h], threads, case_timeout_ms, timeout, env)
                + self.drive(subsystem, cases[h:], threads, case_timeout_ms, timeout, env))

    # ---- validate traces against a trace specification; returns [(trace index, event index)]
    def validate(self, module, traces, inv=True, shards=None, timeout=600, heap="3g"):
        if not traces:
            return []
        shards = shards or min(NCPU, max(1, sum(len(t["ev"]) for t in traces) // 400))
        groups = [list(range(k, len(traces), shards)) for k in range(shards)]
        groups = [g for g in groups if g]
        cfgp = self.tmp("trace") + ".cfg"
        open(cfgp, "w").write("SPECIFICATION TSpec\nPOSTCONDITION TPost\nCHECK_DEADLOCK FALSE\n" + ("INVARIANT Inv\n" if inv else ""))

        seq = iter(range(1 << 30))

        def tlc(ts):
            """Validate the traces ts together: (rejected [(position in ts, event index)], states, None) or an evaluation error."""
            f = os.path.join(self.work, "%s-shard%d.ndjson" % (os.path.basename(cfgp), next(seq)))
            with open(f, "w") as h:
                for t in ts:
                    h.write(json.dumps(t) + "\n")
            meta = f + ".meta"
            rc, out = java(["-config", cfgp, "-metadir", meta, "-noGenerateSpecTE", "-workers", "1", module + ".tla"],
                           env=dict(TRACE=f), timeout=timeout, heap=heap)
            shutil.rmtree(meta, ignore_errors=True)
            os.unlink(f)
            if rc != 0:
                msg = "trace validation with %s failed (rc %d):\n%s" % (module, rc, out[-5000:])
                if rc in EVAL_ERRORS and "OutOfMemory" not in out:
                    return [], 0, msg
                raise CheckError(msg)
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            return [(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)], int(m.group(2)) if m else 0, None

        found = []      # traces the specification cannot even be evaluated on

        def one(g):
            """Rejections among the traces with indexes g.  A trace that leaves the domain the specification is defined on (a value
            of another type, a number out of range) stops TLC; it is rejected at the first event that does so."""
            rej, st, err = tlc([traces[t] for t in g])
            if not err:
                return [(g[a], b) for a, b in rej], st
            if len(g) == 1:
                t, ev = traces[g[0]], traces[g[0]]["ev"]
                found.append(g[0])
                lo, hi = 0, len(ev)     # ev[:lo] evaluates, ev[:hi] does not
                while lo + 1 < hi:
                    m = (lo + hi) // 2
                    lo, hi = (lo, m) if tlc([dict(t, ev=ev[:m])])[2] else (m, hi)
                self.notes.append(err)
                return [(g[0], max(hi - 1, 0))], 0
            out, states = [], 0
            for h in (g[:len(g) // 2], g[len(g) // 2:]):
                if len(found) < 2:
                    r, st = one(h)
                    out += r
                    states += st
            return out, states

        rej = []
        with cf.ThreadPoolExecutor(len(groups)) as ex:
            for r, st in ex.map(one, groups):
                rej += r
                self.states += st
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        return sorted(rej)

    def check(self, subsystem, module, cases, label="", drive_kw=None, inv=True, known=None, max_report=3, shards=None):
        """Drive the code with cases, validate, and record violations."""
        traces = self.drive(subsystem, cases, **(drive_kw or {}))
        rej = self.validate(module, traces, inv=inv, shards=shards)
        self.parts.append(dict(kind="conformance", subsystem=subsystem, spec=module, label=label,
                               traces=len(traces), events=sum(len(t["ev"]) for t in traces), rejected=len(rej)))
        for t in traces[:1]:
            self.samples.append(dict(label=label or subsystem, cfg=t["cfg"], events=t["ev"][:4]))
        for (t, k) in rej:
            ev = traces[t]["ev"]
            self.violate(dict(subsystem=subsystem, spec=module, label=label, cfg=traces[t]["cfg"], case=cases[t],
                              rejected_event_index=k, rejected_event=ev[k] if k < len(ev) else None, trace=ev[:k + 1]))
        return traces, rej

    def probe(self, fid, subsystem, module, case, at, drive_kw=None):
        """A genuine defect listed in KNOWN_FINDINGS.json, identified by this exact history failing at event `at` with the
        listed observation.  Anything else the history does wrong is a violation; if it passes, nothing is printed."""
        known = {f["id"]: f for f in json.load(open(os.path.join(ROOT, "KNOWN_FINDINGS.json")))["findings"]}
        f = known.get(fid)
        traces = self.drive(subsystem, [case], **(drive_kw or {}))
        rej = self.validate(module, traces, shards=1)
        ev = traces[0]["ev"]
        if not rej:
            return
        k = rej[0][1]
        got = {x: ev[k].get(x) for x in ("op", "x", "r")} if k < len(ev) else None
        if f and f["property"] == self.prop and k == at and got == f["observed"]:
            self.known.append("[%s] %s" % (fid, f["what"]))
            return
        self.violate(dict(subsystem=subsystem, spec=module, label="probe " + fid, cfg=case["cfg"], case=case,
                          rejected_event_index=k, rejected_event=ev[k] if k < len(ev) else None, trace=ev[:k + 1]))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

    def violate(self, d):
        self.violations.append(d)

    def finish(self, level, rule, assumptions, known=None):
        """Report; known: list of known-finding strings printed (never suppresses anything here)."""
        rep = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        paths = []
        for f in os.listdir(rep):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(rep, f))
        for n, v in enumerate(sorted(self.violations, key=lambda v: v.get("rejected_event_index", 0))[:5]):
            pth = os.path.join(rep, "%s-%d.json" % (self.prop, n))
            json.dump(v, open(pth, "w"), indent=1)
            paths.append(pth)
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=max(self.transitions, self.states), traces_validated_against_impl=self.traces,
                   samples=(self.samples or [dict(note="none")])[:8])
        if level != "model_checking":
            cov = dict(evaluations=self.events, distinct_nontrivial=self.traces, rule=rule, samples=(self.samples or [dict(note="none")])[:8])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(wall, 2),
                  assumptions=assumptions, violations=len(self.violations), replays=paths, parts=self.parts, rule=rule)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in known or []:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v, pth in zip(sorted(self.violations, key=lambda v: v.get("rejected_event_index", 0)), paths):
            print("VIOLATION property=%s replay=%s" % (self.prop, pth))
            print("  %s" % json.dumps({k: v.get(k) for k in ("label", "cfg", "rejected_event_index", "rejected_event")})[:600])
        print("%s %s: %d model/trace states, %d traces, %d events, %d violations, %.1fs" %
              (self.prop, self.tier, self.states, self.traces, self.events, len(self.violations), wall))
        return 1 if self.violations else 0
