"""Shared machinery: running TLC, collecting verdicts, evidence, known findings."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict)."""


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)

    def lines(self, prefix):
        """PrintT'ed tuples/strings starting with prefix"""
        return [l for l in self.out.splitlines() if l.startswith(prefix)]


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}/{seed}/{tier}")
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.assumptions, self.violations, self.notes = [], [], [], []
        self.modules, self.counts = {}, {}
        self.known_hit = {}
        self.known = load_known(pid)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, constants=None, spec=None, init=None, next_=None, invariants=(), properties=(), constraint=None,
            env=None, workers=4, timeout=600, simulate=None, depth=None, deadlock=False, extra_cfg="", count=True,
            postcondition=None, allow=(0,), cfg_name=None, xmx="6g"):
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        if init:
            cfg.append(f"INIT {init}")
        if next_:
            cfg.append(f"NEXT {next_}")
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}")
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfg.append(extra_cfg)
        d = tempfile.mkdtemp(dir=self.scratch)
        cfgp = os.path.join(d, "m.cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
               "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-lncheck", "final",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module}: {cmd}") from ex
        r = TLCResult(p.stdout, p.returncode, time.time() - t)
        if p.returncode not in allow:
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + _interesting(p.stdout))
        if count:
            self.states += r.states
            self.transitions += r.transitions
            m = self.modules.setdefault(cfg_name or module, dict(states=0, transitions=0, wall_s=0.0))
            m["states"] += r.states
            m["transitions"] += r.transitions
            m["wall_s"] = round(m["wall_s"] + r.wall, 2)
        return r

    def validate(self, module, traces, constants=None, chunk=None, label=None, workers=4, timeout=600):
        """Trace validation.  `traces` is a list of JSON-able traces.  The module is expected to print
        <<"BAD", trace index, clause, position>> for each clause that does not hold and <<"DONE", trace index>> when a trace has
        been consumed.  Returns {trace index: [(clause, pos)]} (0-based)."""
        bad = {}
        if not traces:
            return bad
        chunk = chunk or len(traces)
        for k in range(0, len(traces), chunk):
            part = traces[k:k + chunk]
            path = os.path.join(self.scratch, f"tr_{module}_{k}_{random.getrandbits(32)}.json")
            with open(path, "w") as f:
                json.dump(part, f)
            r = self.tlc(module, constants=constants, spec="TraceSpec", invariants=["Report"], env={"TRACE": path},
                         workers=workers, timeout=timeout, cfg_name=label)
            done = set()
            for m in re.finditer(r'<<\s*"DONE",\s*(\d+)\s*>>', r.out):
                done.add(int(m.group(1)))
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)",\s*(-?\d+)\s*>>', r.out):
                bad.setdefault(k + int(m.group(1)) - 1, set()).add((m.group(2), int(m.group(3))))
            miss = set(range(1, len(part) + 1)) - done
            if miss:
                raise MachineryError(f"{module}: traces not consumed: {sorted(miss)[:5]}\n" + _interesting(r.out))
            self.traces += len(part)
        return {i: sorted(v) for i, v in bad.items()}

    def emit(self, module, constants=None, label=None, workers=4, timeout=600, spec="Spec", invariants=("Emit",), properties=(),
             simulate=None, depth=None, env=None, constraint=None):
        """Run TLC and return the behaviours the module writes out (one JSON object per line)."""
        out = os.path.join(self.scratch, f"em_{module}_{random.getrandbits(32)}.json")
        e = {"OUT": out}
        e.update(env or {})
        r = self.tlc(module, constants=constants, spec=spec, invariants=invariants, properties=properties, env=e,
                     workers=workers, timeout=timeout, cfg_name=label, simulate=simulate, depth=depth, constraint=constraint)
        if not os.path.exists(out):
            raise MachineryError(f"{module}: no behaviour written\n" + _interesting(r.out))
        res, seen = [], set()
        with open(out) as f:
            for line in f:
                line = line.strip()
                if line and line not in seen:
                    seen.add(line)
                    try:
                        o = json.loads(line)
                        res.append(json.loads(o) if isinstance(o, str) else o)
                    except ValueError:
                        if workers == 1:
                            raise MachineryError(f"{module}: unreadable behaviour {line[:200]}")
                        # lines of more than 8 kB written by two workers at once may get mixed up: once more, one at a time
                        return self.emit(module, constants, label, 1, timeout, spec, invariants, properties, simulate, depth, env, constraint)
        return res

    # -------------------------------------------------------------- verdicts
    def violation(self, clause, what, replay=None):
        """what: short text; replay: JSON-able object describing how to reproduce"""
        for k in self.known:
            if k["match"](clause, what):
                self.known_hit.setdefault(k["text"], 0)
                self.known_hit[k["text"]] += 1
                return
        self.violations.append((clause, what, replay))

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or [dict(counts=self.counts)], evaluations=self.evals, modules=self.modules,
                   counts=self.counts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=wall, violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f"{self.pid}.json"))
        for txt, n in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {txt}")
        rc = 0
        if self.violations:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{self.pid}_{self.tier}_{self.seed}.json")
            with open(rp, "w") as f:
                json.dump([dict(clause=c, what=w, replay=r) for c, w, r in self.violations[:20]], f, indent=1, default=str)
            per = {}
            for c, w, _ in self.violations:
                per.setdefault(c, []).append(w)
            for c, ws in per.items():
                print(f"  clause {c}: {len(ws)} case(s), e.g. {str(ws[0])[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.pid} tier={self.tier} states={self.states} transitions={self.transitions} "
                  f"traces={self.traces} evals={self.evals} wall={wall}s")
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def _interesting(out):
    ls = [l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic proc|Linting|Computed \d)", l)]
    return "\n".join(ls[-60:])


def load_known(pid):
    """known_findings.txt: `known: property=<id> clause=<regex> what=<regex> :: text` and `fixed: ...` (suppresses nothing)"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) clause=(\S+) what=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                c, w = re.compile(m.group(2) + r"\Z"), re.compile(m.group(3))
                res.append(dict(text=m.group(4), match=lambda cl, wh, c=c, w=w: bool(c.match(cl) and w.search(str(wh)))))
    return res


class Hang(Exception):
    """A call into the code under test that does not come back."""


def watch_for_hangs(limit=240, every=20):
    """One call into the code under test that takes `limit` seconds of processor time (they take seconds at most) will not come back."""
    mark = dict(frame=None, n=0)

    def look(_, frame):
        outer = None
        while frame is not None:
            if "/src/dg_commons/" in frame.f_code.co_filename:
                outer = frame
            frame = frame.f_back
        if outer is not None and outer is mark["frame"]:
            mark["n"] += 1
            if mark["n"] * every >= limit:
                mark["n"] = 0
                raise Hang(f"{outer.f_code.co_name} does not come back")
        else:
            mark.update(frame=outer, n=0)

    signal.signal(signal.SIGPROF, look)
    signal.setitimer(signal.ITIMER_PROF, every, every)


def main(run, pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        tier = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = Check(pid, tier, seed)
    watch_for_hangs()
    try:
        return judged(run, chk, pid)
    finally:
        # the interpreter must not be hit by it while it shuts down
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_IGN)


def judged(run, chk, pid):
    try:
        run(chk)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        if chk.violations:  # what was found before stands
            return chk.finish()
        shutil.rmtree(chk.scratch, ignore_errors=True)
        return 3
    except Exception as e:
        # An exception that escapes from the code under test is a verdict; anything else is a machinery failure.
        tb = traceback.extract_tb(e.__traceback__)
        if tb and any("/src/dg_commons/" in fr.filename for fr in tb):
            traceback.print_exc()
            chk.violation(f"{pid}.no-crash", f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}",
                          traceback.format_exc())
            return chk.finish()
        traceback.print_exc()
        if chk.violations:
            return chk.finish()
        if isinstance(e, (KeyError, IndexError, TypeError, AttributeError, ValueError, ArithmeticError)) and not isinstance(e, json.JSONDecodeError):
            # what the code under test returned cannot even be looked at: something is missing or of another kind
            chk.violation(f"{pid}.result-of-another-form", f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}", traceback.format_exc())
            return chk.finish()
        shutil.rmtree(chk.scratch, ignore_errors=True)
        return 3
    return chk.finish()
