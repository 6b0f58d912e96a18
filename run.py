#!/usr/bin/env python3
"""Decides one property: records what the code does (harness), then lets TLC
check every record against the TLA+ specification, and model-checks the
specification itself.  Usage: run.py <property> [quick|thorough] | run.py setup

Exit 0: the property held on everything explored; 1: VIOLATION printed;
2: the check itself failed (build error, TLC error)."""
import fcntl, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
CLASSES = os.path.join(WORK, "classes")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FINDINGS = os.path.join(HERE, "known_findings.txt")
MAX_SHOWN = 20


class CheckError(Exception):
    pass


def locked(name):
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build():
    """The harness, from /repo's current working tree, and the Java overrides."""
    with locked("build"):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, "target"),
                   CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"],
                           cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("the harness does not build:\n" + r.stdout[-4000:])
        src = os.path.join(SPEC, "java", "RealMath.java")
        cls = os.path.join(CLASSES, "RealMath.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            os.makedirs(CLASSES, exist_ok=True)
            r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", CLASSES, src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("javac: " + r.stdout[-2000:])
        # A copy, so that a concurrent check's build cannot replace it under us
        fq = os.path.join(WORK, "target", "release", "fq")
        mine = os.path.join(WORK, "fq-%d" % os.getpid())
        shutil.copy2(fq, mine)
        return mine


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.violations = []      # (key, why, record)
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.events = {}
        self.stages = []
        self.samples = []
        self.assumptions = []
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=WORK)

    # ---------------------------------------------------------------- code
    def record(self, fq, name, args=(), timeout=300, feed=None):
        out = os.path.join(self.dir, name + ".ndjson")
        cmd = [fq, name, out, str(self.seed), self.tier] + list(args)

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        try:
            r = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            self.violation("harness %s" % name, "the code did not return within %d s" % timeout)
            return None
        if r.returncode == 2:
            raise CheckError("recorder %s: %s" % (name, r.stdout[-2000:]))
        if r.returncode:
            self.violation("harness %s" % name, "the code ended the process (status %d): %s"
                           % (r.returncode, r.stdout[-300:].replace("\n", " ")))
            return None
        for line in r.stdout.splitlines():
            if line.startswith("COUNT "):
                _, k, v = line.split()
                self.events[k] = self.events.get(k, 0) + int(v)
        return out

    # Behaviours of a specification, as JSON lines, for the code to replay
    def generate(self, module, num, depth, consts):
        out = os.path.join(self.dir, module + ".behaviours")
        cfg = os.path.join(self.dir, module + "-gen.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Generate\nCHECK_DEADLOCK FALSE\n")
            for k, v in consts.items():
                f.write("CONSTANT %s = %s\n" % (k, v))
        meta = os.path.join(self.dir, "meta-gen-" + module)
        cmd = ["java", "-Xmx4g", "-XX:+UseParallelGC", "-cp", CLASSES + ":" + JARS, "tlc2.TLC",
               "-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth),
               "-seed", str(self.seed), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg, os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=800)
        shutil.rmtree(meta, ignore_errors=True)
        got = []
        for line in r.stdout.splitlines():
            m = re.match(r'^"BEHAVIOUR\|(.*)"$', line)
            if m:
                got.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        if len(got) < num // 2 or "Error:" in r.stdout:
            raise CheckError("TLC -simulate %s gave %d of %d behaviours: %s"
                             % (module, len(got), num, r.stdout[-2000:]))
        got = sorted(set(got))
        with open(out, "w") as f:
            f.write("\n".join(got) + "\n")
        self.events["behaviours of %s generated by TLC" % module] = len(got)
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, spec, trace=None, extra_cfg="", env=None, workers=8, timeout=800,
            heap="6g", consts=None, name=None, deadlock=False, steps=lambda r: 1):
        stage = name or (module + "." + spec)
        cfg = os.path.join(self.dir, stage + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if not deadlock:
                f.write("CHECK_DEADLOCK FALSE\n")
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s = %s\n" % (k, v))
            f.write(extra_cfg + "\n")
        meta = os.path.join(self.dir, "meta-" + stage)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        if trace:
            e["TRACE"] = trace
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CLASSES + ":" + JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg, os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace")
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        mism, rest, done, states, over = [], [], False, None, False
        for line in p.stdout:
            m = re.match(r'^"?MISMATCH\|(.*?)\|(.*?)"?$', line.rstrip("\n"))
            if m:
                mism.append((m.group(1), m.group(2)))
                if len(mism) > 3000:
                    over = True
                    p.kill()
                    break
                continue
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
            if m:
                states = (int(m.group(1)), int(m.group(2)))
            if "Model checking completed. No error has been found" in line:
                done = True
            rest.append(line)
        p.wait()
        timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
        for key, why in mism:
            self.violation(key, why)
        broken = None
        text = "".join(rest)
        if not done and not over:
            m = re.search(r"Error: (Invariant|Action property|Temporal propert\w+|Postcondition|Assumption)[^\n]*", text)
            if m and trace is None:
                self.violation("model " + stage, m.group(0) + " " + text[-1500:].replace("\n", " "))
                broken = True
            elif not mism:
                raise CheckError("TLC %s: %s" % (stage, text[-3000:]))
        if states:
            self.states += states[1]
            self.transitions += states[0]
        entry = {"stage": stage, "distinct_states": states[1] if states else 0,
                 "wall_s": round(time.time() - t0, 1), "mismatches": len(mism)}
        if trace:
            n = want = 0
            for line in open(trace):
                n += 1
                want += steps(line)
            entry["records"] = n
            self.traces += n
            if done and states and states[1] != want + 64 and not mism:
                raise CheckError("TLC %s took %d steps of %d" % (stage, states[1] - 64, want))
            with open(trace) as f:
                first = f.readline().strip()
            self.samples.append({"stage": stage, "record": first[:400]})
        self.stages.append(entry)
        return text

    # ------------------------------------------------------------- verdict
    def violation(self, key, why):
        self.violations.append((key, why))

    def finish(self, level_note, t0):
        known = load_findings(self.prop)
        fresh = []
        seen = {}
        for key, why in self.violations:
            hit = next((k for k in known if re.search(k["pattern"], key)), None)
            if hit:
                seen[hit["pattern"]] = hit
            else:
                fresh.append((key, why))
        for hit in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["text"]))
        replay = None
        if fresh:
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s.json" % self.prop)
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "how": "run.py %s %s records the same inputs again" % (self.prop, self.tier),
                           "violations": [{"input": k, "why": w} for k, w in fresh[:200]]}, f, indent=1)
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "code_calls_by_kind": self.events, "stages": self.stages,
                         "samples": self.samples[:10], "note": level_note,
                         "known_findings_seen": [h["text"] for h in seen.values()]},
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
            "assumptions": self.assumptions,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", self.prop + ".json"))
        for key, why in fresh[:MAX_SHOWN]:
            print("  %s: %s" % (key[:300], why[:500]))
        if len(fresh) > MAX_SHOWN:
            print("  ... and %d more" % (len(fresh) - MAX_SHOWN))
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s tier=%s states=%d records=%d wall=%.1fs"
              % (self.prop, self.tier, self.states, self.traces, time.time() - t0))
        return 0


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"^finding: property=(\S+) key=/(.*?)/ (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append({"pattern": m.group(2), "text": m.group(3)})
    return out


# ---------------------------------------------------------------------- checks
def trace_check(recorder, module, *specs):
    def go(run, fq):
        t = run.record(fq, recorder)
        if t:
            for s in specs:
                run.tlc(module, s, trace=t)
    return go


def both(*checks):
    def go(run, fq):
        for c in checks:
            c(run, fq)
    return go


def histories(run, fq):
    """P14: laws on all small histories; generated long ones replayed on the code."""
    run.tlc("Observers", "Small", consts={"Depth": 0, "MaxAttached": 3 if run.deep else 2}, extra_cfg=
            "PROPERTY CallsSound\nPROPERTY CurveFollows\nPROPERTY NoResurrection\nINVARIANT CurveNotAhead")
    depth = 40 if run.deep else 25
    b = run.generate("Observers", 20000 if run.deep else 2500, depth + 2, {"Depth": depth, "MaxAttached": 9})
    t = run.record(fq, "observers", [b])
    if t:
        run.tlc("ObserverTrace", "SpecHistory", trace=t)


def searches(run, fq):
    """P21: laws of the search under every objective; recorded searches, point by point."""
    for dim, it in ((1, 6), (2, 4), (3, 3)) if run.deep else ((1, 4), (2, 3), (3, 2)):
        run.tlc("Search", "Spec", name="Search-%d" % dim,
                consts={"Dim": dim, "MaxIter": it, "Values": '{"0", "1", "2"}'},
                extra_cfg="INVARIANT BestKept\nINVARIANT Reported\nINVARIANT Frugal\nINVARIANT Bounded\nPROPERTY NoWorse")
    t = run.record(fq, "nelder")
    if t:
        run.tlc("SearchTrace", "SpecSearch", trace=t, steps=lambda r: len(json.loads(r)["evals"]) + 2)


def runner_steps(line):
    """The walk takes a record, then each path's start and gaps, then its end."""
    r = json.loads(line)
    s, obs, n, cap = r["s"], r["obs"], r["n"], r["cap"]
    if not obs or n < 1 or cap < 1 or min(obs) <= s:
        return 1
    return 2 + n * len(set(range(s, max(obs) + 1, cap)) | set(obs) | {s})


def runs(run, fq):
    """P22: laws of the runner on all small problems; recorded runs, call by call."""
    run.tlc("Runner", "Spec", consts={"Days": 5 if run.deep else 4, "MaxObs": 3 if run.deep else 2},
            extra_cfg="INVARIANT Kept\nINVARIANT NoLongStep\nPROPERTY NeverBack")
    t = run.record(fq, "runner")
    if t:
        run.tlc("RunnerTrace", "SpecRunner", trace=t, steps=runner_steps)


def moves(run, fq):
    """P29: no-arbitrage laws of the transition rules; recorded moves against them."""
    run.tlc("DynamicsLaws", "Spec", consts={"Sets": 40 if run.deep else 3}, extra_cfg="INVARIANT NoArbitrage")
    t = run.record(fq, "dynamics")
    if t:
        run.tlc("DynamicsTrace", "SpecDynamics", trace=t)


def forwards(run, fq):
    """P34: no-arbitrage laws of the forward market rules; recorded moves against them."""
    run.tlc("FmmLaws", "Spec", consts={"Sets": 40 if run.deep else 2}, extra_cfg="INVARIANT NoArbitrage")
    t = run.record(fq, "fmmmoves")
    if t:
        run.tlc("FmmTrace", "SpecMove", trace=t)


def surfaces(run, fq):
    """P30: Dupire's formula where its answer is known; recorded surfaces node by node."""
    run.tlc("DupireLaws", "Spec", consts={"Sets": 2000 if run.deep else 100}, extra_cfg="INVARIANT Lawful")
    t = run.record(fq, "localvol")
    if t:
        run.tlc("DupireTrace", "SpecDupire", trace=t)


def transforms(run, fq):
    """P31: martingale laws of the characteristic functions; recorded values and prices."""
    run.tlc("ChfLaws", "Spec", consts={"Sets": 100 if run.deep else 4})
    t = run.record(fq, "chf")
    if t:
        run.tlc("ChfTrace", "Spec", trace=t)


def fits(run, fq):
    """P28: recorded calibrations point by point; their helpers; surfaces and strips."""
    t = run.record(fq, "fits")
    if t:
        def steps(line):
            r = json.loads(line)
            return len(r["tries"]) + 2 if r["kind"] == "fit" and r["ok"] else 1
        run.tlc("FitTrace", "SpecFit", trace=t, steps=steps)
        run.tlc("FitTrace", "SpecQuotes", trace=t)
    t = run.record(fq, "fitsurf")
    if t:
        run.tlc("FitTrace", "SpecSurface", trace=t)


def documents(run, fq):
    """P23: values written as documents and read back."""
    t = run.record(fq, "documents")
    if t:
        def steps(line):
            r = json.loads(line)
            return len(r["docs"]) + 1 if r["k"] == "kept" else 1
        run.tlc("Documents", "SpecDocuments", trace=t, steps=steps)


def laws(*which):
    """Laws of the specification itself, before it judges anything."""
    def go(run, fq):
        d = run.deep
        for w in which:
            if w == "dates":
                run.tlc("DateLaws", "Spec", consts={"From": 1890 if d else 2019, "To": 2210 if d else 2032}, extra_cfg=
                        "INVARIANT Told\nINVARIANT Epoch\nINVARIANT Moved\nINVARIANT Feasts\nINVARIANT Fixings")
            elif w == "days":
                run.tlc("BusinessDayLaws", "Spec", consts={"Width": 8 if d else 5}, extra_cfg="INVARIANT Lawful")
            elif w == "counts":
                run.tlc("DayCountLaws", "Spec", consts={"Span": 6 if d else 2}, extra_cfg="INVARIANT Lawful")
            else:
                run.tlc("PriceLaws", "Spec", name="PriceLaws-" + w, extra_cfg="INVARIANT Lawful",
                        consts={"Sets": 2000 if d else 40, "Laws": '{"%s"}' % w})
    return go


CHECKS = {
    "P23": documents,
    "P28": fits,
    "P31": transforms,
    "P30": surfaces,
    "P32": trace_check("fmmforms", "FmmTrace", "SpecForm"),
    "P33": trace_check("hybrids", "FmmTrace", "SpecHybrid"),
    "P34": forwards,
    "P29": moves,
    "P22": runs,
    "P21": searches,
    "P14": histories,
    "P01": both(laws("dates"), trace_check("calendars", "CalendarTrace", "Spec")),
    "P02": both(laws("days"), trace_check("adjust", "TimeTrace", "SpecAdjust")),
    "P03": both(laws("days"), trace_check("advance", "TimeTrace", "SpecAdvance")),
    "P04": both(laws("days"), trace_check("between", "TimeTrace", "SpecBetween")),
    "P05": trace_check("joint", "ConventionTrace", "SpecJoint"),
    "P06": both(laws("counts"), trace_check("daycount", "ConventionTrace", "SpecDayCount")),
    "P07": both(laws("dates"), trace_check("periods", "ConventionTrace", "SpecPeriod")),
    "P08": both(laws("dates"), trace_check("imm", "ConventionTrace", "SpecImm")),
    "P09": both(trace_check("fxdates", "ConventionTrace", "SpecFxDates"),
                trace_check("joint", "ConventionTrace", "SpecConv")),
    "P10": trace_check("points", "MarketTrace", "SpecPoints"),
    "P11": both(laws("fx"), trace_check("values", "MarketTrace", "SpecForward")),
    "P12": both(laws("curve"), trace_check("curve", "MarketTrace", "SpecCurve")),
    "P13": trace_check("bootstrap", "MarketTrace", "SpecBootstrap"),
    "P15": trace_check("schedules", "MarketTrace", "SpecSchedule"),
    "P16": both(laws("curve"), trace_check("swaps", "MarketTrace", "SpecSwap")),
    "P17": both(laws("curve"), trace_check("caps", "MarketTrace", "SpecCap")),
    "P18": both(laws("fx"), trace_check("values", "MarketTrace", "SpecOption")),
    "P19": both(laws("smile"), trace_check("smile", "MarketTrace", "SpecSmile")),
    "P20": both(trace_check("caps", "MarketTrace", "SpecCapRead"),
                trace_check("capstrip", "MarketTrace", "SpecCapStrip")),
    "P25": both(laws("options"), trace_check("formulas", "ModelTrace", "SpecFormula")),
    "P26": both(laws("moments"), trace_check("moments", "ModelTrace", "SpecMoments")),
    "P27": both(laws("sabr"), trace_check("sabr", "ModelTrace", "SpecSabr")),
    "P24": both(trace_check("indices", "MarketTrace", "SpecIndex"),
                trace_check("contexts", "ContextTrace", "SpecContext")),
}


def main():
    if sys.argv[1] == "setup":
        fq = build()
        os.unlink(fq)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    fq = None
    run = None
    try:
        fq = build()
        run = Run(prop, tier, seed)
        CHECKS[prop](run, fq)
        return run.finish("", t0)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e))
        # What was already found stands
        if run is not None and run.violations:
            return run.finish("incomplete: %s" % str(e)[:300], t0)
        return 2
    finally:
        if fq and os.path.exists(fq):
            os.unlink(fq)
        if run is not None:
            shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
