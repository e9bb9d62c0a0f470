"""Core of the runtime-monitoring harness: cases, oracles, evidence, verdicts.

A *check* decides one property.  It is a set of *case functions*; each case
function is run many times with a derived random generator and an array backend.
A case drives the real glass code with a hostile workload while monitors look
on (recording RNGs, reference models, hooked collaborators, step budgets), and
raises ``Violation`` when an oracle contradicts the observation.
"""

from __future__ import annotations

import json
import math
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GLASS_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")

SCRATCH = None  # scratch directory of this run, made by setup_process()


class Violation(Exception):
    """An oracle contradicts what was observed."""

    def __init__(self, msg, known=None, **witness):
        super().__init__(msg)
        self.known = known
        self.witness = witness


class NoProgress(Violation):
    """Logical step budget exceeded."""


class Inconclusive(Exception):
    """Nothing could be decided (environment, timeouts, nothing observed)."""


# ---------------------------------------------------------------- environment


def setup_process():
    """Import the code under test from REPO and prepare the environment."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="glassverif.")
    os.environ["TMPDIR"] = SCRATCH
    tempfile.tempdir = SCRATCH
    for var in ("XDG_CACHE_HOME", "XDG_CONFIG_HOME", "MPLCONFIGDIR", "ASTROPY_CACHE_DIR"):
        d = os.path.join(SCRATCH, var.lower())
        os.makedirs(d, exist_ok=True)
        os.environ[var] = d
    os.environ.pop("HEALPY_DATAPATH", None)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import glass

    got = os.path.dirname(os.path.abspath(glass.__file__))
    want = os.path.join(os.path.abspath(REPO), "glass")
    if os.path.realpath(got) != os.path.realpath(want):
        raise Inconclusive(f"glass imported from {got}, not {want}")
    return SCRATCH


_BACKENDS = {}


def backend(name):
    """Array namespace by short name."""
    if name in _BACKENDS:
        return _BACKENDS[name]
    if name == "np":
        xp = np
    elif name == "strict":
        import array_api_strict as xp

        xp.set_array_api_strict_flags(api_version="2025.12")
    elif name == "jax":
        import jax

        jax.config.update("jax_enable_x64", True)
        import jax.numpy as xp
    else:
        raise KeyError(name)
    _BACKENDS[name] = xp
    return xp


def to_np(x):
    """Convert any backend array (or nested list) to numpy."""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return np.asarray([to_np(v) for v in x])
    return np.asarray(x)


def backend_name(x):
    mod = type(x).__module__.split(".")[0]
    if isinstance(x, (np.ndarray, np.generic)):
        return "np"
    if mod == "array_api_strict":
        return "strict"
    if mod in ("jax", "jaxlib"):
        return "jax"
    return mod


# -------------------------------------------------------------- glass monitor


class LineMonitor:
    """Counts executed glass lines (coverage evidence, logical step budget)."""

    TOOL = 4

    def __init__(self):
        self.prefix = os.path.join(os.path.abspath(REPO), "glass") + os.sep
        self.lines = {}
        self.steps = 0
        self.budget = math.inf
        self.cpu_end = math.inf  # processor time of this thread at which a call is taken to be stuck
        self.on = False
        self.hook = None  # called at every line of glass, e.g. by a thread scheduler

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "glass-verif")
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.PY_START)
        self.on = True

    def _start(self, code, offset):
        if code.co_filename.startswith(self.prefix):
            sys.monitoring.set_local_events(self.TOOL, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    def _line(self, code, line):
        self.steps += 1
        key = (code.co_filename, line)
        self.lines[key] = self.lines.get(key, 0) + 1
        if self.hook is not None:
            self.hook(code, line)
        if self.steps > self.budget or (not self.steps & 1023 and time.thread_time() > self.cpu_end):
            self.budget = self.cpu_end = math.inf
            raise NoProgress(
                f"no bounded progress: more than {self.steps - 1} steps inside glass "
                f"(at {os.path.basename(code.co_filename)}:{code.co_name})"
            )

    def summary(self):
        out = {}
        for f, _ in self.lines:
            rel = os.path.relpath(f, os.path.abspath(REPO))
            out[rel] = out.get(rel, 0) + 1
        return out


MON = LineMonitor()

# ---------------------------------------------------------------------- cases

CASES = {}  # property -> list of case functions


def case(prop, q=30, t=None, backends=("np",), steps=20_000_000):
    """Register a case function for a property.

    q, t: number of runs in the quick and the thorough tier.
    """

    def deco(fn):
        CASES.setdefault(prop, []).append(
            dict(fn=fn, name=fn.__name__, q=q, t=t if t is not None else q * 25, backends=backends, steps=steps)
        )
        return fn

    return deco


class Case:
    """One run of a case function."""

    def __init__(self, prop, name, idx, seed, bk, tier):
        self.prop, self.name, self.idx, self.seed, self.bk, self.tier = prop, name, idx, seed, bk, tier
        self.r = np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(f"{prop}/{name}".encode()), idx])
        self.events = {}
        self.keys = []
        self.info = {}
        self.known = []

    # backend helpers
    @property
    def xp(self):
        return backend(self.bk)

    def a(self, x, dtype=None):
        """Array of this case's backend."""
        xp = self.xp
        if isinstance(x, np.ndarray) and self.bk == "np":
            x = x.copy()
        if dtype is not None:
            return xp.asarray(x, dtype=dtype)
        return xp.asarray(x)

    def n(self, x):
        return to_np(x)

    def gen(self, sub=0):
        """A fresh numpy generator, derived deterministically."""
        return np.random.default_rng([self.seed & 0xFFFFFFFF, zlib.crc32(self.name.encode()), self.idx, 7 + sub])

    # bookkeeping
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def key(self, *parts):
        self.keys.append("|".join(map(str, parts)))

    def note(self, **kw):
        for k, v in kw.items():
            self.info[k] = brief(v)

    # oracles
    def check(self, cond, msg, **wit):
        self.event("assertions")
        if not bool(cond):
            raise Violation(msg, **{k: brief(v) for k, v in wit.items()})

    def close(self, actual, expected, msg, rtol=1e-9, atol=0.0, **wit):
        """Same shape, same non-finites, values within tolerance."""
        act, exp = to_np(actual), np.asarray(expected)
        self.event("assertions")
        self.event("values_compared", max(1, exp.size))
        if act.shape != exp.shape:
            raise Violation(f"{msg}: shape {act.shape} instead of {exp.shape}", **{k: brief(v) for k, v in wit.items()})
        if act.size == 0:
            return
        if act.dtype == object:
            raise Violation(f"{msg}: object array", **{k: brief(v) for k, v in wit.items()})
        tol = atol + rtol * np.abs(exp)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(act - exp) <= tol) | (act == exp) | (np.isnan(act) & np.isnan(exp)))
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(bad)[0]) if act.ndim else ()
            raise Violation(
                f"{msg}: {int(bad.sum())} of {act.size} values wrong, first at {i}: got {act[i]!r}, expected {exp[i]!r}",
                **{k: brief(v) for k, v in wit.items()},
            )

    def same(self, actual, expected, msg, **wit):
        """Exactly equal arrays."""
        self.close(actual, expected, msg, rtol=0.0, atol=0.0, **wit)

    def is_backend(self, x, msg, bk=None):
        want = bk or self.bk
        got = backend_name(x)
        self.check(got == want, f"{msg}: result is a {got} array, not {want}", type=str(type(x)))

    def raises(self, exc, fn, msg, **wit):
        self.event("assertions")
        try:
            fn()
        except exc:
            return
        except (Violation, Inconclusive):
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{msg}: raised {type(e).__name__}({e}) instead", **{k: brief(v) for k, v in wit.items()}) from e
        raise Violation(f"{msg}: nothing raised", **{k: brief(v) for k, v in wit.items()})


def brief(v, depth=0):
    """JSON-able short description of a value."""
    if isinstance(v, (bool, int, float, str)) or v is None:
        if isinstance(v, float) and not math.isfinite(v):
            return repr(v)
        return v if not isinstance(v, str) else v[:2000]
    if isinstance(v, np.generic):
        return brief(v.item())
    if isinstance(v, dict):
        return {str(k): brief(x, depth + 1) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple)) and depth < 3:
        return [brief(x, depth + 1) for x in list(v)[:40]]
    try:
        a = to_np(v)
        if a.dtype != object:
            if a.size <= 64:
                return {"shape": list(a.shape), "values": brief(a.astype(complex).view(float).ravel().tolist() if a.dtype.kind == "c" else a.ravel().tolist())}
            return {"shape": list(a.shape), "head": brief(a.ravel()[:16].real.tolist())}
    except Exception:  # noqa: BLE001
        pass
    return repr(v)[:300]


# ------------------------------------------------------------------ execution

MEMORY = 4 << 30  # private memory of a worker; runs on the unchanged tree stay far below
LIMITED = False


def limit_memory():
    global LIMITED
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    LIMITED = True


def peak_memory():
    """Peak resident memory of this process in MB."""
    with open("/proc/self/status") as f:
        return next((int(line.split()[1]) >> 10 for line in f if line.startswith("VmHWM")), 0)


def run_case(prop, spec, idx, seed, tier):
    bk = spec["backends"][idx % len(spec["backends"])]
    c = Case(prop, spec["name"], idx, seed, bk, tier)
    # on the unchanged tree, no case of a quick run takes a million steps or 30 s
    MON.steps, MON.budget = 0, min(spec["steps"], 8_000_000) if tier == "quick" else spec["steps"]
    MON.cpu_end = time.thread_time() + (120 if tier == "quick" else 1200)
    res = dict(name=spec["name"], idx=idx, bk=bk, verdict="held")
    t0 = time.time()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            spec["fn"](c)
    except Violation as e:
        res.update(verdict="violated", msg=str(e), witness=e.witness, known=e.known, trace=traceback.format_exc()[-3000:])
    except Inconclusive as e:
        res.update(verdict="inconclusive", msg=str(e))
    except MemoryError as e:
        # no run comes near the limit set for workers unless the code asks for far too much
        res.update(verdict="violated" if LIMITED else "inconclusive", msg=f"needs more than {MEMORY >> 20} MB of memory: {e}", witness={}, known=None, trace=traceback.format_exc()[-3000:])
    except KeyboardInterrupt as e:
        res.update(verdict="inconclusive", msg=f"{type(e).__name__}: {e}")
    except OSError as e:
        if e.errno in (28, 12, 24):
            res.update(verdict="inconclusive", msg=f"{type(e).__name__}: {e}")
        else:
            res.update(verdict="violated", msg=f"{type(e).__name__}: {e}", witness={}, known=None, trace=traceback.format_exc()[-3000:])
    except Exception as e:  # noqa: BLE001
        res.update(
            verdict="violated",
            msg=f"unexpected {type(e).__name__}: {e}",
            witness={},
            known=None,
            trace=traceback.format_exc()[-3000:],
        )
    finally:
        res["steps"] = MON.steps
        MON.budget = MON.cpu_end = math.inf
    res.update(events=c.events, keys=c.keys, info=c.info, known_seen=c.known, wall=time.time() - t0)
    return res


def plan(prop, tier, seed):
    """Round-robin list of (spec, idx)."""
    specs = CASES[prop]
    todo = []
    most = max(s[tier[0]] for s in specs)
    for i in range(most):
        for s in specs:
            n = s[tier[0]]
            # spread the runs of each case function over the whole list
            if i < n:
                todo.append((s, i))
    return todo


def worker(prop, tier, seed, w, nw, deadline, out):
    todo = plan(prop, tier, seed)
    njax = min(2, nw)
    mine = []
    kj = kn = 0
    # jax cases are kept together to share compilations
    for s, i in todo:
        if s["backends"][i % len(s["backends"])] == "jax":
            if nw - 1 - (kj % njax) == w:
                mine.append((s, i))
            kj += 1
        else:
            if kn % nw == w:
                mine.append((s, i))
            kn += 1
    MON.start()
    limit_memory()
    results, skipped = [], 0
    nviol = 0

    def save():
        with open(out + ".new", "w") as f:
            json.dump(dict(results=results, skipped=skipped, memory=peak_memory(), lines=[[os.path.relpath(k[0], os.path.abspath(REPO)), k[1]] for k in MON.lines]), f, default=brief)
        os.replace(out + ".new", out)

    progress = os.open(out + ".at", os.O_RDWR | os.O_CREAT, 0o600)
    begun = time.time()
    for s, i in mine:
        if time.time() > deadline or nviol >= 3 or (nviol and time.time() > begun + 60):
            skipped += 1
            continue
        os.pwrite(progress, f"{s['name']} {i}".ljust(100).encode(), 0)
        r = run_case(prop, s, i, seed, tier)
        results.append(r)
        if r["verdict"] == "violated" and r.get("known") is None:
            nviol += 1
            save()  # should the worker not survive the next case
    save()


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def crashed_case(prop, tier, seed, out, ctx):
    """The case a worker crashed in, as a violation if it crashes the interpreter again in a fresh process."""
    try:
        with open(out + ".at") as f:
            name, idx = f.read().split()
    except (OSError, ValueError):
        return None
    idx = int(idx)
    spec = next(s for s in CASES[prop] if s["name"] == name)

    def again():
        MON.start()
        run_case(prop, spec, idx, seed, tier)
        os._exit(0)

    p = ctx.Process(target=again)
    p.start()
    p.join(120)
    if p.is_alive():
        p.kill()
        p.join()
        return None
    if -(p.exitcode or 0) not in CRASHES:
        return None
    return dict(
        name=name, idx=idx, bk=spec["backends"][idx % len(spec["backends"])], verdict="violated", known=None, witness={}, trace="",
        msg=f"the interpreter crashes with signal {-p.exitcode}", steps=0, events={"assertions": 1}, keys=[], info={}, wall=0.0,
    )


def load_known(prop):
    if not os.path.exists(KNOWN_FILE):
        return {}
    with open(KNOWN_FILE) as f:
        data = json.load(f)
    return {d["key"]: d for d in data.get("findings", []) if d["property"] == prop}


def run_check(prop, tier, seed, title="", nworkers=None, budget=None):
    """Run all cases of a property; returns the exit code."""
    t0 = time.time()
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    budget = budget or (420 if tier == "quick" else 3000)
    if prop not in CASES:
        print(f"no check for {prop}")
        return 2
    deadline = t0 + budget
    ctx = multiprocessing.get_context("fork")
    procs, outs = [], []
    for w in range(nworkers):
        out = os.path.join(SCRATCH, f"w{w}.json")
        outs.append(out)
        p = ctx.Process(target=worker, args=(prop, tier, seed, w, nworkers, deadline, out))
        p.start()
        procs.append(p)
    hard = deadline + (300 if tier == "quick" else 900)
    broken, crashed = None, []
    for p, out in zip(procs, outs):
        p.join(max(1, hard - time.time()))
        if p.is_alive():
            broken = "a worker ran out of wall-clock time"
            p.kill()
            p.join()
        elif p.exitcode != 0:
            broken = f"a worker ended with exit code {p.exitcode}"
            if -p.exitcode in CRASHES and not crashed:
                r = crashed_case(prop, tier, seed, out, ctx)
                crashed += [r] if r else []
    results, lines, skipped, memory = crashed, set(), 0, 0
    for out in outs:
        if os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            results += d["results"]
            skipped += d["skipped"]
            memory = max(memory, d["memory"])
            lines |= {tuple(x) for x in d["lines"]}
    if os.environ.get("VERIF_LINES"):  # development: tools/mutate.py
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump(sorted(lines), f)
    known = load_known(prop)
    viols, incs, known_hit = [], [], {}
    events, keys, per_case, per_bk = {}, set(), {}, {}
    nontrivial = 0
    samples = []
    maxsteps = 0
    for r in results:
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        pc = per_case.setdefault(r["name"], [0, 0])
        pc[0] += 1
        per_bk[r["bk"]] = per_bk.get(r["bk"], 0) + 1
        maxsteps = max(maxsteps, r["steps"])
        if r["events"].get("assertions"):
            pc[1] += 1
            ks = {f"{r['name']}|{k}" for k in r["keys"]} or {f"{r['name']}|#{r['idx']}"}
            keys |= ks
        if r["info"] and sum(s["case"] == r["name"] for s in samples) < 2 and len(samples) < 14:
            samples.append(dict(case=r["name"], idx=r["idx"], backend=r["bk"], **r["info"]))
        for k in r.get("known_seen", []):
            known_hit[k] = True
        if r["verdict"] == "violated":
            if r.get("known") and r["known"] in known:
                known_hit[r["known"]] = True
            else:
                viols.append(r)
        elif r["verdict"] == "inconclusive":
            incs.append(r)
    unseen = [s["name"] for s in CASES[prop] if per_case.get(s["name"], [0, 0])[1] == 0]
    files = {}
    for f, _ in lines:
        files[f] = files.get(f, 0) + 1
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(keys),
            rule="each case draws its inputs from a generator seeded by (VERIF_SEED, case name, index); a case counts as "
            "non-trivial when at least one oracle comparison was made on an observation of the real code; distinct by the "
            "case's own description of the configuration it drove (sizes, options, backend, branch taken)",
            samples=samples,
            events=dict(sorted(events.items())),
            runs_per_case={k: v[0] for k, v in sorted(per_case.items())},
            runs_per_backend=per_bk,
            glass_lines_observed=dict(sorted(files.items())),
            max_steps_in_one_case=maxsteps,
            max_memory_of_a_worker_mb=memory,
            skipped_for_time=skipped,
            inconclusive=[f"{r['name']}#{r['idx']}: {r['msg']}" for r in incs][:10],
            known_findings_seen=sorted(known_hit),
        ),
        assumptions=["numpy, scipy, healpy, healpix, astropy and the Python runtime are trusted"],
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=brief)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))

    for k in sorted(known_hit):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if viols:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in viols[:5]:
            path = os.path.join(rdir, f"{prop}.{r['name']}.{r['idx']}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop, case=r["name"], idx=r["idx"], seed=seed, tier=tier, backend=r["bk"], message=r["msg"],
                        witness=r["witness"], info=r["info"], trace=r["trace"],
                        replay_cmd=f"/opt/venv/bin/python /verif/harness/run.py {prop} --replay {path}",
                    ),
                    f, indent=1, default=brief,
                )
            print(f"{r['name']}#{r['idx']} [{r['bk']}]: {r['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken:
        print(f"INCONCLUSIVE property={prop}: {broken}")
        return 2
    if incs and len(incs) * 2 > len(results):
        print(f"INCONCLUSIVE property={prop}: {incs[0]['msg']}")
        return 2
    if unseen:
        print(f"INCONCLUSIVE property={prop}: no observation from {unseen}: {[r['msg'] for r in incs][:3]}")
        return 2
    print(
        f"HELD property={prop} tier={tier} seed={seed}: {len(results)} runs, {len(keys)} distinct, "
        f"{events.get('assertions', 0)} oracle checks, {len(lines)} glass lines observed, {ev['wall_s']} s"
    )
    return 0


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    for s in CASES[prop]:
        if s["name"] == d["case"]:
            MON.start()
            r = run_case(prop, s, d["idx"], d["seed"], d["tier"])
            print(json.dumps(dict(verdict=r["verdict"], msg=r.get("msg"), witness=r.get("witness"), trace=r.get("trace")), indent=1, default=brief))
            if r["verdict"] == "violated":
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            return 0
    return 2
