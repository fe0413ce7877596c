"""Machinery shared by all checks: running the real code, projecting what it did to exact values,
writing traces, running TLC on them, and turning TLC's verdicts into exit codes and evidence.

The judgement about the code is made by the TLA+ specification (spec/*.tla); what is in here only
drives the code, records, and projects floats to exact integers.
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, SRC)
warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

TLC_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
MAXINT = 2**31 - 1


class MachineryError(Exception):
    """the check itself is broken (never a verdict about the code)"""


class ProjErr(Exception):
    """an observed value has no exact counterpart: reported as an observation, judged by the spec"""


class CallTimeout(BaseException):
    pass


# ---------------------------------------------------------------- projections
def qint(x, scale=1, tol=1e-5):
    """project a (nested) float array to exact integers: round(x*scale), which has to be within tol"""
    a = np.asarray(x)
    if a.dtype == object:
        raise ProjErr("ragged or non numeric value")
    if np.iscomplexobj(a):
        if a.size and np.max(np.abs(a.imag)) > tol:
            raise ProjErr("complex value where a real one is expected")
        a = a.real
    a = a.astype(np.float64) * scale
    if a.size and not np.all(np.isfinite(a)):
        raise ProjErr("not finite")
    r = np.round(a)
    if a.size and np.max(np.abs(a - r)) > tol * max(1.0, scale if scale < 1e4 else 1.0):
        i = int(np.argmax(np.abs(a - r)))
        raise ProjErr(f"value {float(a.flat[i]) / scale!r} is not a multiple of 1/{scale}")
    if a.size and np.max(np.abs(r)) > MAXINT:
        raise ProjErr(f"value {float(np.max(np.abs(r)))} out of range")
    return r.astype(np.int64).tolist()


def qfix(x, scale):
    """fixed point projection (rounding to 1/scale), for quantities that are compared with a tolerance"""
    a = np.asarray(x)
    if a.dtype == object:
        raise ProjErr("ragged or non numeric value")
    if np.iscomplexobj(a):
        if a.size and np.max(np.abs(a.imag)) > 1e-6:
            raise ProjErr("complex value where a real one is expected")
        a = a.real
    a = a.astype(np.float64) * scale
    if a.size and not np.all(np.isfinite(a)):
        raise ProjErr("not finite")
    r = np.round(a)
    if a.size and np.max(np.abs(r)) > MAXINT:
        raise ProjErr(f"value {float(np.max(np.abs(r)))} out of range")
    return r.astype(np.int64).tolist()


def gint(x, scale=1, tol=1e-5):
    """project a complex array to Gaussian integers [[re, im], ...]"""
    a = np.asarray(x)
    if a.dtype == object:
        raise ProjErr("ragged or non numeric value")
    a = a.astype(np.complex128)
    return qint(np.stack([a.real, a.imag], axis=-1), scale, tol)


def gfix(x, scale):
    a = np.asarray(x).astype(np.complex128)
    return qfix(np.stack([a.real, a.imag], axis=-1), scale)


def powersums(bands, n, scale=1.0, tol=1e-6):
    """sum_b E_b^j for j=1..n, as exact integers"""
    b = np.asarray(bands, dtype=np.float64) * scale
    out = []
    for j in range(1, n + 1):
        p = np.sum(b**j, axis=-1)
        m = max(1.0, float(np.max(np.sum(np.abs(b)**j, axis=-1)))) if b.size else 1.0
        out.append(qint(p, 1, tol=max(1e-6, m * 1e-11) if tol is None else max(tol, m * 1e-11)))
    return out


# ---------------------------------------------------------------- calls into the code
_SLOW = 0
MEMORY = 3500 * 2**20


def kinds(x, i=0, lists=True):
    """the same numbers as another kind of array (chosen from the values): lists, read only, strided, another order or type"""
    a = np.array(x, float)
    t = (int(np.sum(np.abs(np.round(a * 16)))) + a.size + i) % 9
    if t == 0 and lists:
        return a.tolist()
    if t == 1:
        a.flags.writeable = False
    elif t == 2:
        a = np.asfortranarray(a) if a.ndim else a
    elif t == 3 and a.ndim:
        b = np.full([2 * s for s in a.shape], 7.0)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        a = b[s]
    elif t in (4, 5) and np.array_equal(a, np.round(a)):
        a = a.astype([np.int64, np.int32][t - 4])
    elif t == 6 and np.array_equal(a * 64, np.round(a * 64)):
        a = a.astype(np.float32)
    return a


def call(fn, *args, timeout=30, **kw):
    """run fn; returns ("ok", value) | ("exc", "TypeName: message")"""
    def on_alarm(_sig, _frm):
        raise CallTimeout()
    global _SLOW
    old = signal.signal(signal.SIGALRM, on_alarm)
    # code that hangs once is not given the full time over and over
    signal.setitimer(signal.ITIMER_REAL, timeout if _SLOW == 0 else min(timeout, 10 if _SLOW < 3 else 2))
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
    try:
        return "ok", fn(*args, **kw)
    except CallTimeout:
        _SLOW += 1
        return "exc", "Timeout: the call did not return"
    except MemoryError:
        _SLOW += 1
        return "exc", "MemoryError: the call took all memory"
    except KeyboardInterrupt as e:
        return "exc", f"KeyboardInterrupt: {e}"
    except ProjErr as e:
        return "exc", f"Projection: {e}"
    except MachineryError:
        raise
    except BaseException as e:  # noqa: BLE001 - everything the code can do is an observation
        return "exc", f"{type(e).__name__}: {str(e)[:160]}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


_JOB = None


def _job(i):
    fn, inputs, seed = _JOB
    np.random.seed((seed * 100003 + i) % (2**31))
    try:
        return call(fn, timeout=120, **inputs[i])
    except MachineryError as e:
        return "machinery", str(e)


class Check:
    def __init__(self, pid, argv=None):
        self.pid = pid
        argv = sys.argv[1:] if argv is None else argv
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            self.tier = "thorough"
        if "--quick" in argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = np.random.default_rng([self.seed, int(re.sub(r"\D", "", pid))])
        np.random.seed(self.seed)
        self.work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
        self.t0 = time.time()
        self.traces = {}   # trace module -> list of events
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.failures = []  # (key, clause, event)
        self.coverage = {}
        self.models = []
        self.assumptions = []
        self.known = load_known(pid)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    # --- sizes
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- events
    def ev(self, trace, fn, **inputs):
        """one event of `trace`: inputs plus what fn() returned (a dict of exact values)"""
        st, val = call(fn)
        e = dict(inputs)
        e["ok"] = st == "ok"
        if st == "ok":
            e.update(val)
        else:
            e["why"] = val
        self.traces.setdefault(trace, []).append(e)
        return e

    def evs(self, trace, fn, inputs, procs=8, chunk=4, isolate=False):
        """events for a list of inputs, made in parallel by forked workers: fn(**input) -> dict"""
        global _JOB
        _JOB = (fn, inputs, self.seed)
        import multiprocessing as mp
        if not inputs:
            return []
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(inputs))) as pool:
            res = pool.map(_job, range(len(inputs)), chunksize=chunk)
        out = []
        for inp, (st, val) in zip(inputs, res):
            e = {k: v for k, v in inp.items() if not k.startswith("_")}
            e["ok"] = st == "ok"
            if st == "ok":
                e.update(val)
            elif st == "machinery":
                raise MachineryError(val)
            else:
                e["why"] = val
            self.traces.setdefault(trace, []).append(e)
            out.append(e)
        return out

    def raw(self, trace, e):
        self.traces.setdefault(trace, []).append(e)

    # --- TLC
    def _tlc(self, module, cfg, env=None, args=(), workers="8", timeout=800, heap="6g"):
        meta = tempfile.mkdtemp(dir=self.work)
        cfgpath = os.path.join(meta, "m.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", TLC_JARS, "tlc2.TLC",
               "-workers", os.environ.get("VP_WORKERS", workers) if workers != "1" else "1", "-deadlock", "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgpath, *args, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} ran out of time")
        out = p.stdout + p.stderr
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out, time.time() - t

    @staticmethod
    def _counts(out):
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if m is None:
            return 0, 0
        return int(m.group(1)), int(m.group(2))

    def model(self, module, cfg, min_states=1, name=None, args=(), timeout=800):
        """exhaustive check of the specification itself; a violated invariant here is an error of ours"""
        if os.environ.get("VP_NOMODEL"):    # for tools/ only: the specification does not depend on the code
            return
        rc, out, dt = self._tlc(module, cfg, args=args, timeout=timeout)
        gen, dist = self._counts(out)
        if rc != 0 or "No error has been found" not in out or dist < min_states:
            raise MachineryError(f"model check of {module} failed (rc={rc}, states={dist}):\n{out[-3000:]}")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": name or module, "distinct_states": dist,
                            "transitions": gen, "wall_s": round(dt, 1)})

    def behaviours(self, module, cfg, num, depth, env=None, timeout=600, name=None):
        """behaviours of the specification, generated by TLC's simulator: the lines it printed as BEH|json"""
        rc, out, dt = self._tlc(module, cfg, env=env, workers="1", timeout=timeout,
                                args=("-simulate", f"num={num}", "-seed", str(self.seed * 7919 + 13), "-depth", str(depth)))
        beh = []
        for line in out.splitlines():
            if line.startswith('"BEH|'):
                beh.append(json.loads(json.loads(line)[4:]))
        if not beh:
            raise MachineryError(f"no behaviours generated from {module} (rc={rc}):\n{out[-3000:]}")
        # the same behaviour can be printed more than once
        seen, uniq = set(), []
        for b in beh:
            k = json.dumps(b, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(b)
        self.models.append({"module": module, "what": (name or module) + " (simulated behaviours)",
                            "behaviours": len(uniq), "wall_s": round(dt, 1)})
        return uniq

    def validate(self, module, extra_cfg="", min_events=1, env=None, timeout=850, heap="8g", samples=2):
        """TLC evaluates every event of the trace against the specification; prints FAIL|line|clauses"""
        evs = self.traces.get(module, [])
        if len(evs) < min_events:
            raise MachineryError(f"trace {module} has only {len(evs)} events, expected at least {min_events}")
        path = os.path.join(self.work, module + ".ndjson")
        env = dict(env or {})
        env["TRACE"] = path
        cfg = "INIT TInit\nNEXT TNext\nINVARIANT Verdict\n" + extra_cfg
        fails, left, total = {}, list(range(len(evs))), 0.0
        while True:
            with open(path, "w") as f:
                for i in left:
                    f.write(json.dumps(evs[i], separators=(",", ":"), default=_np_default) + "\n")
            rc, out, dt = self._tlc(module, cfg, env=env, timeout=timeout, heap=heap)
            total += dt
            if os.environ.get("VP_KEEP"):
                shutil.copy(path, os.path.join("/tmp", f"{self.pid}-{module}.ndjson"))
            gen, dist = self._counts(out)
            for line in out.splitlines():
                if line.startswith('"FAIL|'):
                    _, ln, clauses = json.loads(line).split("|", 2)
                    fails[left[int(ln) - 1]] = clauses
            # an event that cannot be evaluated (a result of another shape, out of every range): no result of the specification
            bad = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            why = re.search(r"(?s)(Evaluating invariant Verdict failed\.|Attempted to |The error occurred when TLC was evaluating|Overflow when computing|Error: Evaluating)", out)
            if rc != 0 and bad and why and "OutOfMemory" not in out and "StackOverflow" not in out:
                fails[left.pop(int(bad[-1]) - 1)] = "malformed "
                if sum(x == "malformed " for x in fails.values()) < 6 and left:
                    continue
                dist, gen = len(evs), len(evs)
            elif rc != 0 or "No error has been found" not in out or dist != len(left):
                raise MachineryError(f"trace check {module}: TLC rc={rc}, {dist} of {len(left)} events judged\n{out[-4000:]}")
            break
        dt = total
        self.states += dist
        self.transitions += max(gen, dist)
        self.validated += len(evs)
        self.models.append({"module": module, "what": "trace validation", "events": len(evs),
                            "failing": len(fails), "wall_s": round(dt, 1)})
        for ln in sorted(fails):
            self.failures.append((evs[ln], fails[ln]))
        step = max(1, len(evs) // max(1, samples))
        for e in evs[::step][:samples]:
            s = json.dumps(e, default=_np_default)
            self.samples.append({"trace": module, "event": json.loads(s) if len(s) < 3000 else s[:3000] + "..."})
        return fails

    # --- the end
    def finish(self):
        kinds = {}
        for mod, evs in self.traces.items():
            for e in evs:
                k = f"{mod}:{e.get('k', '?')}"
                kinds[k] = kinds.get(k, 0) + 1
        unlisted, listed = [], {}
        for e, clauses in self.failures:
            hit = None
            for kf in self.known:
                if match_known(kf, e, clauses):
                    hit = kf
                    break
            if hit is not None:
                listed.setdefault(hit["id"], [hit, 0])[1] += 1
            else:
                unlisted.append((e, clauses))
        for kf, cnt in listed.values():
            print(f"KNOWN-FINDING: property={self.pid} {kf['id']}: {kf['what']} ({cnt} events)")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "events_by_kind": kinds, "models": self.models,
               "samples": self.samples or [{"none": True}]}
        cov.update(self.coverage)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unlisted)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_np_default)
            f.write("\n")
        rc = 0
        path = os.path.join(self.replay_dir, f"{self.pid}-{self.tier}-{self.seed}.json")
        if not unlisted and os.path.exists(path):
            os.remove(path)
        if unlisted:
            rc = 1
            groups = {}
            for e, c in unlisted:
                groups.setdefault((e.get("k", "?"), c, e.get("why", "")), []).append((e, c))
            # different ways to fail first
            first = [g[0] for g in groups.values()]
            rest = [x for g in groups.values() for x in g[1:]]
            path = self.write_replay([{"clauses": c, "event": e} for e, c in (first + rest)[:20]])
            for (k, c, why), g in list(groups.items())[:15]:
                print(f"  {self.pid} {k}: {c} ({len(g)} events) [{why}]")
            print(f"VIOLATION property={self.pid} replay={path}")
        else:
            print(f"{self.pid}: held on {self.validated} events of the real code "
                  f"({self.states} states, {round(time.time() - self.t0, 1)} s)")
        self.cleanup()
        return rc

    def write_replay(self, items):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, f"{self.pid}-{self.tier}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                       "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check {self.pid}",
                       "failing": items}, f, indent=1, default=_np_default)
        return path

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _np_default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def match_known(kf, e, clauses):
    """a listed finding names the exact call sites / inputs that fail: all of `match` must be equal in
    the event, and the failing clauses must be among the listed ones"""
    for key, val in kf["match"].items():
        if e.get(key) != val:
            return False
    got = set(re.findall(r'[\w:.\-]+', clauses))
    return got <= set(kf["clauses"])


def main(pid, body):
    """run body(check); exceptions out of /repo's code are observations (violations), others are errors"""
    c = Check(pid)

    def hangs(_sig, _frm):
        raise CallTimeout("the code does not return")
    if not c.thorough:   # user time of this process only; the checks need a few seconds of it
        signal.signal(signal.SIGVTALRM, hangs)
        signal.setitimer(signal.ITIMER_VIRTUAL, 400)
    try:
        body(c)
        rc = c.finish()
    except MachineryError as e:
        print(f"ERROR: {pid}: {e}")
        c.cleanup()
        rc = 2
    except (Exception, CallTimeout):  # noqa: BLE001
        tb = traceback.format_exc()
        print(tb)
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(os.path.abspath(f.filename).startswith(os.path.abspath(SRC)) for f in frames):
            path = c.write_replay([{"clauses": "the code raised outside of a guarded call", "traceback": tb}])
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump({"property": pid, "tier": c.tier, "seed": c.seed, "level": "model_checking",
                           "coverage": {"states": c.states, "transitions": c.transitions,
                                        "traces_validated_against_impl": c.validated,
                                        "samples": [{"traceback": tb[-1500:]}]},
                           "wall_s": round(time.time() - c.t0, 2), "violations": 1}, f)
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        else:
            rc = 2
        c.cleanup()
    sys.exit(rc)
