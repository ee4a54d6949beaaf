"""Runtime-monitoring driver.

A check is a module ``rv.checks.<id>`` with

    PROPERTY   its id
    RULE       how cases are made and what makes one non-trivial
    MIN_CASES  (optional) fewest completed cases for a verdict at all
    ASSUMPTIONS(optional) list of strings
    cases(rng, tier) -> iterable of JSON-able dicts (the workload, most important first)
    run(case, m)     -> executes the real code under the monitors in ``m``
    finish(obs)      -> (optional) offline checker over the observations of all cases

Cases are executed in worker processes that import gpcm from the repository's current
working tree.  Each oracle evaluation is recorded in a :class:`Monitor`, so evidence shows
what was really observed.  Verdicts are three-valued: a violation (exit 1), held on what
was observed (exit 0), or inconclusive (exit 2: too little was observed).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
EVIDENCE = os.environ.get("RV_EVIDENCE", os.path.join(ROOT, "evidence"))
REPLAYS = os.environ.get("RV_REPLAYS", os.path.join(ROOT, "replays"))
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

ENV = {
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


class Skip(Exception):
    """The case turned out not to be in the property's domain."""


class Monitor:
    """Collects oracle evaluations of one case."""

    def __init__(self):
        self.evals = {}  # oracle -> number of evaluations
        self.worst = {}  # oracle -> worst normalised error seen
        self.violations = []  # dicts
        self.states = set()  # distinct non-trivial situations observed
        self.counts = {}  # event counters
        self.obs = []  # observations for the offline checker
        self.note = None

    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def observe(self, **kw):
        self.obs.append(kw)

    def check(self, oracle, ok, key=None, **detail):
        """Boolean oracle."""
        self.evals[oracle] = self.evals.get(oracle, 0) + 1
        if not bool(ok):
            self.violations.append(
                dict(oracle=oracle, key=key, detail={k: short(v) for k, v in detail.items()})
            )
        return bool(ok)

    def close(self, oracle, got, want, rtol=1e-7, atol=1e-9, scale=None, key=None, **detail):
        """Numerical oracle: shapes agree, everything finite, and
        |got - want| <= atol + rtol * max(|want|) (``scale`` overrides max|want|)."""
        import numpy as np

        self.evals[oracle] = self.evals.get(oracle, 0) + 1
        try:
            got = np.asarray(to_numpy(got), dtype=complex if _iscomplex(got) else float)
        except Exception as e:
            return self._bad(oracle, key, dict(detail, got=repr(got)[:200], error=repr(e)))
        want = np.asarray(want)
        if got.shape != want.shape:
            return self._bad(oracle, key, dict(detail, got_shape=got.shape, want_shape=want.shape))
        if want.size == 0:
            return True
        if not np.all(np.isfinite(got)):
            return self._bad(oracle, key, dict(detail, nonfinite=got, want=want))
        s = float(np.max(np.abs(want))) if scale is None else float(scale)
        tol = atol + rtol * s
        err = float(np.max(np.abs(got - want)))
        r = err / tol if tol > 0 else (0.0 if err == 0 else float("inf"))
        self.worst[oracle] = max(self.worst.get(oracle, 0.0), r)
        if not r <= 1.0:
            i = int(np.argmax(np.abs(got - want)))
            return self._bad(
                oracle, key,
                dict(detail, err=err, tol=tol, index=np.unravel_index(i, want.shape) if want.ndim else (),
                     got=got.ravel()[i], want=want.ravel()[i]))
        return True

    def le(self, oracle, a, b, slack=0.0, key=None, **detail):
        """Order oracle: a <= b + slack."""
        self.evals[oracle] = self.evals.get(oracle, 0) + 1
        a, b = float(a), float(b)
        if not a <= b + slack:
            return self._bad(oracle, key, dict(detail, lhs=a, rhs=b, slack=slack))
        return True

    def raises(self, oracle, exc, f, key=None, **detail):
        self.evals[oracle] = self.evals.get(oracle, 0) + 1
        try:
            r = f()
        except exc:
            return True
        except Exception as e:
            return self._bad(oracle, key, dict(detail, raised=repr(e)[:300], expected=str(exc)))
        return self._bad(oracle, key, dict(detail, returned=repr(r)[:200], expected=str(exc)))

    def _bad(self, oracle, key, detail):
        self.violations.append(dict(oracle=oracle, key=key, detail={k: short(v) for k, v in detail.items()}))
        return False

    def dump(self):
        return dict(evals=self.evals, worst=self.worst, violations=self.violations,
                    states=sorted(self.states), counts=self.counts, obs=self.obs)


def _iscomplex(x):
    try:
        import numpy as np

        return np.iscomplexobj(to_numpy(x))
    except Exception:
        return False


def to_numpy(x):
    """Any tensor or structured matrix to NumPy."""
    import numpy as np

    if isinstance(x, (np.ndarray, float, int, complex)):
        return x
    try:
        import lab as B
        import matrix  # noqa: F401

        return B.to_numpy(B.dense(x))
    except Exception:
        return np.asarray(x)


def short(v):
    import numpy as np

    if isinstance(v, (int, float, bool, str)) or v is None:
        return v if not isinstance(v, str) else v[:1500]
    if isinstance(v, (tuple, list)) and len(v) < 20:
        return [short(x) for x in v]
    if isinstance(v, np.generic):
        return short(v.item())
    try:
        a = np.asarray(v)
        if a.size <= 24:
            return json.loads(json.dumps(a.tolist(), default=str))
        return f"array{a.shape} min={a.min():.6g} max={a.max():.6g} first={a.ravel()[:6].tolist()}"
    except Exception:
        return repr(v)[:400]


# ----------------------------------------------------------------------------- worker


def _worker(modname, conn, hashseed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("RV_STDERR"):
            os.dup2(devnull, 2)
        setup_repo()
        mod = importlib.import_module(modname)
        if hasattr(mod, "warm"):
            mod.warm()
        conn.send(("ready", None))
    except BaseException:
        conn.send(("fatal", traceback.format_exc()))
        return
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        idx, case = msg
        conn.send(("done", idx, execute(mod, case)))


def setup_repo():
    """Import gpcm from the working tree under test."""
    import warnings

    warnings.filterwarnings("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import jax

    jax.config.update("jax_enable_x64", True)
    import gpcm

    want = os.path.realpath(os.path.join(REPO, "gpcm"))
    got = os.path.realpath(os.path.dirname(gpcm.__file__))
    if want != got:
        raise RuntimeError(f"gpcm imported from {got}, not {want}")


def execute(mod, case):
    import numpy as np

    m = Monitor()
    t0 = time.time()
    seed = case.get("seed", 0) % (2**32)
    random.seed(seed)
    np.random.seed(seed)
    status = "ok"
    try:
        import lab as B
        import lab.jax  # noqa: F401
        import jax.numpy as jnp

        B.set_global_random_state(B.create_random_state(jnp.float64, seed=seed % (2**31)))
        B.epsilon = case.get("epsilon", 1e-12)
    except Exception:
        pass
    try:
        mod.run(case, m)
    except Skip as e:
        status = "skip"
        m.note = str(e)
    except MemoryError:
        status = "harness"
        m.note = "MemoryError"
    except Exception as e:
        # The cases are inside the property's domain and the unchanged tree completes
        # them all, so an exception is an answer the real code failed to give.
        m._bad("completes", None, dict(exception=repr(e)[:500], traceback=traceback.format_exc()[-1400:]))
    d = m.dump()
    d.update(status=status, note=m.note, wall=time.time() - t0)
    return d


# ----------------------------------------------------------------------------- parent


class Pool:
    def __init__(self, modname, n, hashseed="0"):
        self.modname, self.hashseed = modname, hashseed
        self.ctx = mp.get_context("spawn")
        self.workers = []
        for _ in range(n):
            self.workers.append(self._spawn())

    def _spawn(self):
        a, b = self.ctx.Pipe()
        os.environ["PYTHONHASHSEED"] = str(self.hashseed)
        p = self.ctx.Process(target=_worker, args=(self.modname, b, self.hashseed), daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, busy=None, since=None, ready=False, born=time.time())

    stop = False

    def run(self, cases, soft_deadline, hard_deadline, case_timeout, on_result):
        """cases: list of (idx, case, mandatory)."""
        queue = list(cases)
        fatal = None
        respawns = 0
        while True:
            now = time.time()
            if now > hard_deadline or self.stop:
                break
            for w in self.workers:
                if w["ready"] and w["busy"] is None:
                    while queue and now > soft_deadline and not queue[0][2]:
                        queue.pop(0)
                    if queue:
                        idx, case, _ = queue.pop(0)
                        w["busy"], w["since"] = idx, now
                        w["case"] = case
                        w["c"].send((idx, case))
            active = [w for w in self.workers if w["busy"] is not None or not w["ready"]]
            if not queue and not any(w["busy"] is not None for w in self.workers):
                break
            if fatal:
                break
            for c in wait([w["c"] for w in active], timeout=1.0):
                w = next(x for x in self.workers if x["c"] is c)
                try:
                    msg = c.recv()
                except EOFError:
                    # Died (out of memory, segmentation fault, ...).
                    if w["busy"] is not None:
                        on_result(w["busy"], dict(status="crash", note=f"worker died: {w['p'].exitcode}"))
                    self._replace(w)
                    respawns += 1
                    if respawns > 12:
                        fatal = "workers keep dying"
                    continue
                if msg[0] == "ready":
                    w["ready"] = True
                elif msg[0] == "fatal":
                    fatal = msg[1]
                else:
                    w["busy"] = None
                    on_result(msg[1], msg[2])
            now = time.time()
            for w in self.workers:
                limit = None
                if w["busy"] is not None:
                    limit = w["case"].get("timeout", case_timeout)
                if limit and now - w["since"] > limit:
                    on_result(w["busy"], dict(status="timeout", note=f"over {limit} s"))
                    self._replace(w)
                elif not w["ready"] and now - w["born"] > 180:
                    fatal = "worker did not start within 180 s"
        self.close()
        return fatal

    def _replace(self, w):
        try:
            w["p"].kill()
            w["p"].join(5)
            w["c"].close()
        except Exception:
            pass
        w.update(self._spawn())

    def close(self):
        for w in self.workers:
            try:
                w["p"].kill()
            except Exception:
                pass
        for w in self.workers:
            w["p"].join(5)


def load_findings(prop):
    """Lines 'finding: property=C02 key=<key> <what>' list known genuine defects."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                f = line.split(None, 3)
                if f[1] == f"property={prop}" and f[2].startswith("key="):
                    out[f[2][4:]] = f[3] if len(f) > 3 else ""
    return out


def case_digest(case):
    c = {k: v for k, v in case.items() if k not in ("timeout",)}
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RV_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--only", help="run only cases of this kind")
    args = ap.parse_args(argv)

    os.environ.update(ENV)
    t0 = time.time()
    modname = f"rv.checks.{args.prop.lower()}"
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY

    if args.replay:
        rec = json.load(open(args.replay))
        cases = [rec["case"]]
        seed, tier = rec["seed"], rec["tier"]
    else:
        seed, tier = args.seed, args.tier
        rng = random.Random(f"{prop}-{seed}-{tier}")
        cases = list(mod.cases(rng, tier))
        for i, c in enumerate(cases):
            c.setdefault("seed", rng.randrange(2**31))
        if args.only:
            cases = [c for c in cases if c.get("kind") == args.only]

    budget = getattr(mod, "BUDGET", {"quick": 60, "thorough": 900})
    soft = t0 + (budget[tier] if not args.replay else 3600)
    hard = t0 + (780 if tier == "quick" else max(3 * budget[tier], 1800))
    n_mand = getattr(mod, "MANDATORY", 10**9)
    jobs = [(i, c, i < n_mand or c.get("must", False)) for i, c in enumerate(cases)]

    results = {}
    pool = Pool(modname, min(args.jobs, max(1, len(jobs))), hashseed=os.environ.get("RV_HASHSEED", "0"))

    def record(i, r):
        results[i] = r
        # For mutation campaigns: the first violation settles it.
        if os.environ.get("RV_FAILFAST") and any(not v.get("key") for v in r.get("violations", [])):
            pool.stop = True

    fatal = pool.run(jobs, soft, hard, getattr(mod, "CASE_TIMEOUT", 300), record)

    evals, worst, counts, states = {}, {}, {}, set()
    digests = set()
    status = {}
    violations = []
    obs = []
    for i in sorted(results):
        r = results[i]
        status[r["status"]] = status.get(r["status"], 0) + 1
        if r["status"] != "ok":
            if args.verbose:
                print("case", i, r["status"], r.get("note"), cases[i], file=sys.stderr)
            if r["status"] == "crash":
                pass
            if "evals" not in r:
                continue
        n_ev = sum(r["evals"].values())
        if r["status"] == "ok" and n_ev > 0 and (r["states"] or r["violations"]):
            digests.add(case_digest(cases[i]))
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r["states"])
        for v in r["violations"]:
            violations.append((i, v))
        for o in r["obs"]:
            obs.append(dict(o, _case=i))
        if args.verbose:
            print(f"case {i} {r['wall']:.1f}s {json.dumps(cases[i])[:160]} worst="
                  + " ".join(f"{k}:{v:.2g}" for k, v in r["worst"].items()), file=sys.stderr)
    if hasattr(mod, "finish") and not fatal:
        fm = Monitor()
        mod.finish(obs, fm, tier)
        for k, v in fm.evals.items():
            evals[k] = evals.get(k, 0) + v
        for k, v in fm.worst.items():
            worst[k] = max(worst.get(k, 0.0), v)
        states.update(fm.states)
        for v in fm.violations:
            violations.append((v["detail"].get("case", -1), v))

    known = load_findings(prop)
    seen_known, new = {}, []
    for i, v in violations:
        if v.get("key") and v["key"] in known:
            seen_known[v["key"]] = known[v["key"]]
        else:
            new.append((i, v))

    n_ok = status.get("ok", 0)
    cov = dict(
        evaluations=n_ok,
        distinct_nontrivial=len(digests),
        rule=mod.RULE,
        samples=[cases[i] for i in sorted(results)[:: max(1, len(results) // 4)]][:5],
        oracle_evaluations=sum(evals.values()),
        oracles={k: dict(evaluated=evals[k], worst_error_over_tolerance=float(f"{worst[k]:.3g}") if k in worst else None)
                 for k in sorted(evals)},
        events=counts,
        distinct_states=len(states),
        states_sample=sorted(states)[:: max(1, len(states) // 25)][:30],
        case_status=status,
        cases_planned=len(cases),
        known_findings_seen=sorted(seen_known),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not args.replay and not args.only:
        os.makedirs(EVIDENCE, exist_ok=True)
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            cov["states_sample"] = cov["states_sample"][:5]
            cov["samples"] = [json.loads(json.dumps(s, default=str)) for s in cov["samples"][:1]]
            txt = json.dumps(ev, default=str)
        tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))

    for k, what in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k} {what}")
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        by = {}
        for i, v in new:
            by.setdefault(v["oracle"], (i, v))
        for n, (oracle, (i, v)) in enumerate(sorted(by.items(), key=lambda kv: kv[1][0])):
            path = args.replay or os.path.join(REPLAYS, f"{prop}-{n}.json")
            if not args.replay:
                with open(path, "w") as f:
                    json.dump(dict(property=prop, seed=seed, tier=tier, case=cases[i] if 0 <= i < len(cases) else None,
                                   violation=v), f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  oracle={oracle} case={i} {json.dumps(v['detail'], default=str)[:1800]}")
        print(f"{prop}: {len(new)} violations on {n_ok} executions, {sum(evals.values())} oracle evaluations, {ev['wall_s']} s")
        return 1
    if fatal:
        print(f"{prop}: inconclusive: {fatal}")
        return 2
    need = 1 if (args.replay or args.only) else getattr(mod, "MIN_CASES", max(1, len(cases) // 4))
    bad = status.get("timeout", 0) + status.get("crash", 0) + status.get("harness", 0)
    if n_ok < need or bad > max(2, len(cases) // 10):
        print(f"{prop}: inconclusive: {status}, needed {need} completed cases")
        return 2
    print(f"{prop}: held on {n_ok} executions ({len(digests)} distinct non-trivial), "
          f"{sum(evals.values())} oracle evaluations, {len(states)} states, {ev['wall_s']} s")
    return 0
