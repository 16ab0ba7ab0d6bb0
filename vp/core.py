"""Runner, monitors' bookkeeping and verdicts shared by all checks.

A property module registers *cases* with @case.  A case drives the real code and
reports to a Ctx: events its monitors observed, oracle evaluations and violations.
Each (case, repetition) runs in its own forked process; the parent merges the
reports, writes the evidence file and prints the verdict.

Exit codes: 0 held on everything observed, 1 violated, 2 inconclusive.
"""
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")

_CASES = {}


class Skip(Exception):
    """The case does not apply (e.g. optional dependency missing)."""


def case(pid, name=None, quick=1, thorough=None, cost=1.0):
    """Register a case: `quick` / `thorough` are repetition counts per tier."""

    def deco(fn):
        nm = name or fn.__name__
        th = thorough if thorough is not None else max(quick * 5, quick)
        lst = _CASES.setdefault(pid, {})
        if nm in lst:
            raise RuntimeError(f"duplicate case {pid}/{nm}")
        lst[nm] = dict(fn=fn, quick=quick, thorough=th, cost=cost)
        return fn

    return deco


def seed_for(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def digest(obj):
    """Stable digest of nested arrays/scalars."""
    import numpy as np
    import scipy.sparse as sp

    h = hashlib.sha1()

    def rec(o):
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                for x in o.ravel():
                    rec(x)
                return
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif sp.issparse(o):
            c = sp.csr_matrix(o)
            c.sort_indices()
            rec(c.data), rec(c.indices), rec(c.indptr)
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                rec(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                rec(x)
        elif isinstance(o, (int, float, complex, str, bytes, bool, type(None), np.generic)):
            h.update(repr(o).encode())
        else:
            h.update(type(o).__name__.encode())

    rec(obj)
    return h.hexdigest()[:16]


def quiet():
    """with quiet(): printed output of the code under test is dropped."""
    import contextlib
    import io

    return contextlib.redirect_stdout(io.StringIO())


class Ctx:
    def __init__(self, pid, cname, rep, seed, tier):
        import numpy as np

        self.pid, self.cname, self.rep, self.seed, self.tier = pid, cname, rep, seed, tier
        self.rng = np.random.default_rng(seed_for(pid, cname, rep, seed))
        self.events = {}
        self.evals = 0
        self.descr = set()
        self.samples = []
        self.violations = []
        self.skips = []
        self._label = ""
        self.margin = 0.0  # worst err/tol seen on passing oracles
        self.margin_key = ""

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 4) if self.thorough else quick

    # -- observations -------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def label(self, *desc):
        """Name the configuration now under observation (distinct case)."""
        self._label = " ".join(str(d) for d in desc)
        return self._label

    def distinct(self, *desc):
        s = self._label + " " + " ".join(str(d) for d in desc)
        self.descr.add(s.strip()[:300])
        if len(self.samples) < 3:
            self.samples.append(f"{self.cname}#{self.rep}: {s.strip()[:300]}")

    # -- oracles ------------------------------------------------------
    def violate(self, key, msg, **witness):
        w = {k: _short(v) for k, v in witness.items()}
        self.violations.append(dict(key=key, msg=msg, label=self._label, case=self.cname, rep=self.rep, witness=w))

    def check(self, ok, key, msg="", **witness):
        self.evals += 1
        self.event("oracle:" + key.split("[")[0])
        self.distinct(key)
        if not bool(ok):
            self.violate(key, msg or "condition is false", **witness)
            return False
        return True

    def close(self, a, b, key, rtol=1e-8, atol=0.0, scale=None, msg="", **witness):
        """max|a-b| <= atol + rtol*scale; scale defaults to max(|a|,|b|) of the arrays."""
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.check(False, key, f"shape {a.shape} != {b.shape}; {msg}", **witness)
        if a.size == 0:
            return self.check(True, key)
        if a.dtype == object or b.dtype == object:
            return self.check(np.all(a == b), key, msg, **witness)
        fin = np.all(np.isfinite(a)) and np.all(np.isfinite(b))
        if not fin:
            ok = np.array_equal(a, b, equal_nan=True) or (
                np.array_equal(np.isnan(a), np.isnan(b))
                and np.array_equal(np.isinf(a), np.isinf(b))
                and np.allclose(a[np.isfinite(a)], b[np.isfinite(b)], rtol=rtol, atol=atol)
            )
            return self.check(ok, key, f"non-finite values differ; {msg}", **witness)
        err = float(np.max(np.abs(a - b)))
        if scale is None:
            scale = max(float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        tol = atol + rtol * float(scale)
        if tol > 0 and err <= tol:
            if err / tol > self.margin:
                self.margin = err / tol
                self.margin_key = key + " " + self._label
        return self.check(err <= tol, key, f"|a-b|={err:.6e} > tol={tol:.3e} (scale {float(scale):.3e}); {msg}", **witness)

    def raises(self, exc, fn, key, msg="", **witness):
        try:
            fn()
        except exc:
            return self.check(True, key)
        except Exception as e:  # noqa: BLE001
            return self.check(False, key, f"raised {type(e).__name__}: {e} instead of {exc}; {msg}", **witness)
        return self.check(False, key, f"nothing raised; {msg}", **witness)

    def guard(self):
        """with ctx.guard(): an unexpected exception is a violation, and the case goes on."""
        return _Guard(self)

    def skip(self, why):
        self.skips.append(f"{self.cname}#{self.rep}: {why}")

    def report(self):
        return dict(events=self.events, evals=self.evals, descr=sorted(self.descr), samples=self.samples,
                    violations=self.violations, skips=self.skips, margin=self.margin, margin_key=self.margin_key)


class _Guard:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            return False
        if issubclass(et, Skip):
            self.ctx.skip(str(e))
            return True
        if not issubclass(et, Exception) or issubclass(et, MemoryError):
            return False
        txt = "".join(traceback.format_exception(et, e, tb))
        self.ctx.violate(_exc_key(e), f"unexpected {et.__name__}: {e}")
        self.ctx.violations[-1]["witness"]["traceback"] = txt[-3000:]
        return True


def _short(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return np.array2string(v.ravel()[:12], precision=6) + f" shape={v.shape}"
    s = repr(v)
    return s if len(s) < 800 else s[:800] + "..."


# ---------------------------------------------------------------- runner
def _child(pid, cname, rep, seed, tier, out, scratch):
    os.setpgid(0, 0)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    log = open(os.path.join(scratch, "log"), "w")
    os.dup2(log.fileno(), 1)
    os.dup2(log.fileno(), 2)
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.random.seed(seed_for("global", pid, cname, rep, seed) % (2**32))
    import random

    random.seed(seed_for("py", pid, cname, rep, seed))
    ctx = Ctx(pid, cname, rep, seed, tier)
    t = time.time()
    try:
        _CASES[pid][cname]["fn"](ctx)
    except Skip as e:
        ctx.skip(str(e))
    except MemoryError:
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        ctx.violate(_exc_key(e), f"unexpected {type(e).__name__}: {e}", traceback=tb[-3000:])
        ctx.violations[-1]["witness"]["traceback"] = tb[-3000:]
    r = ctx.report()
    r["t"] = time.time() - t
    with open(out + ".tmp", "wb") as f:
        pickle.dump(r, f)
    os.rename(out + ".tmp", out)


def _exc_key(e):
    tb = e.__traceback__
    where = "harness"
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO):
            where = os.path.relpath(fr.filename, REPO) + ":" + fr.name
    return f"exception:{type(e).__name__}@{where}"


def known_findings():
    try:
        return json.load(open(KNOWN))["findings"]
    except FileNotFoundError:
        return []


def is_known(pid, v):
    return any(k["property"] == pid and k["status"] == "known" and k["key"] == v["key"] and k.get("label", "") in v["label"] for k in known_findings())


def prepare(modname):
    """Import the library once in the parent, so that forks are cheap."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path.insert(0, HERE)
    import warnings

    warnings.simplefilter("ignore")
    import simpeg

    if not simpeg.__file__.startswith(REPO + "/"):
        print("INCONCLUSIVE: simpeg is imported from", simpeg.__file__)
        sys.exit(2)
    return importlib.import_module(modname)


def _die_with_parent():
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:  # noqa: BLE001
        pass


def run(pid, tier, seed, only=None, reps=None, jobs=None, verbose=False):
    t0 = time.time()
    mod = prepare(f"vp.{pid.lower()}")
    jobs = jobs or int(os.environ.get("VP_JOBS", str(min(8, os.cpu_count() or 8))))
    cases = _CASES.get(pid, {})
    tasks = []
    for nm, c in cases.items():
        if only and not any(o in nm for o in only):
            continue
        for r in range(c[tier]) if reps is None else reps:
            tasks.append((c["cost"], nm, r))
    # longest first
    tasks.sort(key=lambda t: -t[0])
    limit = float(os.environ.get("VP_CASE_LIMIT", "780" if tier == "quick" else "7200"))
    base = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    running, results, failed = {}, {}, []
    try:
        q = list(tasks)
        deadline = t0 + (840 if tier == "quick" else 6 * 3600)
        while q or running:
            while q and len(running) < jobs:
                cost, nm, r = q.pop(0)
                out = os.path.join(base, f"{nm}.{r}.pkl".replace("/", "_"))
                scr = os.path.join(base, f"{nm}.{r}.d".replace("/", "_"))
                sys.stdout.flush()
                p = os.fork()
                if p == 0:
                    code = 0
                    try:
                        _die_with_parent()
                        _child(pid, nm, r, seed, tier, out, scr)
                    except BaseException:  # noqa: BLE001
                        traceback.print_exc()
                        code = 7
                    os._exit(code)
                running[p] = (nm, r, out, scr, time.time())
            done = False
            for p in list(running):
                q_, st = os.waitpid(p, os.WNOHANG)
                nm, r, out, scr, ts = running[p]
                if q_ == 0:
                    if time.time() - ts > limit or time.time() > deadline:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        failed.append((nm, r, "watchdog"))
                        del running[p]
                        done = True
                    continue
                done = True
                del running[p]
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                if os.path.exists(out):
                    results[nm, r] = pickle.load(open(out, "rb"))
                    if os.environ.get("VP_FAILFAST") and any(not is_known(pid, v) for v in results[nm, r]["violations"]):
                        q, deadline = [], 0.0
                    if verbose:
                        x = results[nm, r]
                        print(f"  {nm}#{r} {x['t']:.1f}s evals={x['evals']} viol={len(x['violations'])} margin={x['margin']:.2g} [{x['margin_key'][:80]}]", flush=True)
                else:
                    tail = ""
                    try:
                        tail = open(os.path.join(scr, "log")).read()[-1500:]
                    except OSError:
                        pass
                    failed.append((nm, r, f"died status={st} {tail}"))
                shutil.rmtree(scr, ignore_errors=True)
            if not done:
                time.sleep(0.01)
            if time.time() > deadline:
                for _, nm, r in q:
                    failed.append((nm, r, "not started: time"))
                q = []
    finally:
        for p in running:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    events, descr, samples, viols, skips = {}, set(), [], [], []
    evals, margin, mkey = 0, 0.0, ""
    for (nm, r), x in sorted(results.items()):
        for k, v in x["events"].items():
            events[k] = events.get(k, 0) + v
        descr.update(x["descr"])
        samples += x["samples"][:1]
        viols += x["violations"]
        skips += x["skips"]
        evals += x["evals"]
        if x["margin"] > margin:
            margin, mkey = x["margin"], x["margin_key"]
    # a child that dies from a signal other than our watchdog is a crash of the code
    inconclusive = []
    for nm, r, why in failed:
        inconclusive.append(f"{nm}#{r}: {why}")
    if not only and reps is None:
        for kind, need in getattr(mod, "REQUIRED", {}).items():
            if events.get(kind, 0) < need:
                inconclusive.append(f"monitor event {kind}: {events.get(kind, 0)} < {need}")
        if evals == 0:
            inconclusive.append("no oracle was evaluated")

    known = [k for k in known_findings() if k["property"] == pid and k["status"] == "known"]
    seen_known, new = {}, []
    for v in viols:
        hit = next((k for k in known if k["key"] == v["key"] and k.get("label", "") in v["label"]), None)
        if hit:
            seen_known.setdefault(hit["key"], (hit, v))
        else:
            new.append(v)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(descr),
                            rule=getattr(mod, "RULE", "each registered case draws configurations and inputs from the seed; a case counts as distinct and non-trivial when its configuration label and the oracle evaluated on it are new"),
                            samples=samples[:12], events=events,
                            executions=len(results), cases=len(cases), skipped=skips[:20],
                            worst_margin=margin, worst_margin_at=mkey,
                            inconclusive=inconclusive[:20],
                            known_findings=sorted(seen_known)),
              assumptions=getattr(mod, "ASSUMPTIONS", ["runs on the installed numpy/scipy/discretize/pymatsolver, which are trusted"]),
              wall_s=round(wall, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    if not only and reps is None:
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, (hit, v) in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {hit['what']}")
    print(f"{pid} {tier} seed={seed}: {len(results)} executions, {evals} oracle evaluations, {len(descr)} distinct, worst margin {margin:.2g} [{mkey[:100]}], {wall:.1f}s")
    for k in sorted(events):
        if not k.startswith("oracle:"):
            print(f"   event {k}: {events[k]}")
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        shown = set()
        for v in new:
            kk = (v["key"], v["label"] if verbose else v["label"].split("(")[0])
            if kk in shown or len(shown) >= (200 if verbose else 25):
                continue
            shown.add(kk)
            path = os.path.join(REPLAY, f"{pid}-{v['case']}-{v['rep']}-{seed}.json".replace("/", "_"))
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=v["case"], rep=v["rep"], seed=seed, tier=tier, violation=v,
                               rerun=f"./check {pid} --only {v['case']} --rep {v['rep']} --seed {seed} --tier {tier}"), f, indent=1, default=str)
            print(f"  broken: {v['key']} :: {v['label']} :: {v['msg'][:500]}")
            if os.environ.get("VP_WITNESS"):
                for kx, vx in v["witness"].items():
                    print("      ", kx, "=", str(vx)[-2500:])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive:
        for s in inconclusive[:20]:
            print("INCONCLUSIVE:", s)
        return 2
    return 0


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--rep", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.exit(run(a.pid, a.tier, a.seed, a.only, None if a.rep is None else [a.rep], a.jobs, a.v))


if __name__ == "__main__":
    from vp import core

    core.main()
