"""Runs the sub-checks of one property over worker processes, shrinks
failures, writes the replay and evidence files, and sets the exit code."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_S = 90
HANG_S = 240  # the longest case takes a few seconds


def derive(seed, *parts):
    h = hashlib.sha256(":".join([str(seed), *map(str, parts)]).encode())
    return int.from_bytes(h.digest()[:8], "big")


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}").CHECK


def trim(limit=1400 * 2**20):
    """Drop compiled code when this process has grown."""
    with open("/proc/self/statm") as f:
        rss = int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    if rss < limit:
        return
    import ctypes
    import gc

    import jax

    jax.clear_caches()
    gc.collect()
    try:
        ctypes.CDLL("libc.so.6").malloc_trim(0)
    except (OSError, AttributeError):
        pass


class Watch(threading.Thread):
    """Ends this process when its parent is gone, or when one case has not
    come back after HANG_S one-second ticks; the latter leaves a note for the
    parent, which reports it."""

    def __init__(self, subname, where):
        super().__init__(daemon=True)
        self.subname, self.where = subname, where
        self.case, self.ticks, self.on = None, 0, True

    def begin(self, case):
        self.case, self.ticks = case, 0

    def run(self):
        while self.on:
            time.sleep(1)
            if os.getppid() == 1:
                os._exit(3)
            self.ticks += 1
            case = self.case
            if case is not None and self.ticks > HANG_S:
                path = os.path.join(self.where, f"hang-{os.getpid()}.json")
                with open(path + "~", "w") as f:
                    json.dump(dict(
                        sub=self.subname, case=case,
                        message=f"the code does not come back within {HANG_S} s",
                    ), f)
                os.rename(path + "~", path)
                os._exit(3)


def hung(where):
    for name in sorted(os.listdir(where)):
        if name.startswith("hang-") and name.endswith(".json"):
            with open(os.path.join(where, name)) as f:
                return json.load(f)


def work(prop, subname, shard, n, seed, deadline):
    """One shard of one sub-check, in a worker process."""
    # the code under test prints; keep stdout for the verdict
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from pbt import env  # noqa: F401
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from pbt.core import Discard, Violation, digest, run_case

    # Independent draws: hypothesis' mutation of earlier examples duplicates
    # choices within a case and skews the distribution towards a few values.
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except (ImportError, AttributeError):
        pass

    sub = load_check(prop).subs[subname]
    st = dict(
        evaluations=0, generated=0, discarded=0, labels={}, nontrivial=set(),
        samples=[], violation=None, error=None, timeouts=0,
    )
    best = {}
    watch = Watch(subname, os.environ["JAX_COMPILATION_CACHE_DIR"])
    watch.start()

    @hypothesis.seed(seed)
    @settings(
        max_examples=n, database=None, deadline=None,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
    )
    @given(sub.strategy)
    def test(case):
        st["generated"] += 1
        key = digest(case)
        if st["generated"] % 4 == 0:
            trim()
        if best and time.time() > best["until"]:
            # shrinking has had its time: only the best failure fails
            if key == best["key"]:
                raise best["exc"]
            return
        if not best and time.time() > deadline:
            st["timeouts"] += 1
            return
        watch.begin(case)
        try:
            ctx = run_case(sub, case)
        except Discard:
            st["discarded"] += 1
            return
        except Violation as e:
            if not best:
                best["until"] = time.time() + SHRINK_S
            size = len(json.dumps(case))
            if "size" not in best or size <= best["size"]:
                best.update(key=key, exc=e, case=case, size=size, msg=str(e))
            raise
        finally:
            watch.begin(None)
        if not best:
            st["evaluations"] += 1
            for lab in ctx.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if ctx.nontrivial:
                st["nontrivial"].add(key)
                if len(st["samples"]) < 3 or (
                    len(st["nontrivial"]) % 37 == 0 and len(st["samples"]) < 6
                ):
                    st["samples"].append(case)

    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if best:
            st["violation"] = dict(case=best["case"], message=best["msg"])
        else:
            st["error"] = "".join(traceback.format_exception(e))[-6000:]
    watch.on = False
    st["nontrivial"] = sorted(st["nontrivial"])
    return prop, subname, shard, st


def stop(ex):
    if ex is None:
        return
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        try:
            os.kill(p.pid, signal.SIGKILL)
        except (OSError, TypeError):
            pass
    for p in procs:
        p.join(5)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [
            e for e in json.load(f)
            if e["property"] == prop and e["status"] == "known"
        ]


def replay_worker(prop, subname, case):
    from pbt import env  # noqa: F401
    from pbt.core import Violation, run_case

    try:
        run_case(load_check(prop).subs[subname], case)
    except Violation as e:
        return str(e)
    return None


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only these sub-checks (comma separated)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args(argv)
    prop = a.property.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        msg = replay_worker(prop, r["sub"], r["case"])
        if msg is None:
            print(f"replay: property={prop} holds for this case")
            return 0
        print(f"replay: {msg}")
        print(f"VIOLATION property={prop} replay={a.replay}")
        return 1

    from pbt import env  # noqa: F401

    check = load_check(prop)
    budget = 650 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    ncpu = os.cpu_count() or 4
    jobs = a.jobs or min(8, max(2, ncpu))
    subs = [
        s for s in check.subs.values()
        if not a.only or s.name in a.only.split(",")
    ]
    tasks = []
    for s in subs:
        n = max(1, int((s.quick if tier == "quick" else s.thorough) * a.scale))
        k = s.shards or min(8, max(1, n // 5))
        for i in range(k):
            ni = n // k + (1 if i < n % k else 0)
            if ni:
                tasks.append((s.name, i, ni))
    # long tasks first is unknown; interleave the shards instead
    tasks.sort(key=lambda t: t[1])

    tot = dict(evaluations=0, generated=0, discarded=0, timeouts=0)
    nontrivial, samples, per_sub, labels = set(), {}, {}, {}
    violation = error = ex = None
    known = []
    ctx = mp.get_context("spawn")
    # compiled operations are shared between the workers of this run (only)
    cache = tempfile.mkdtemp(prefix="vcache-")
    os.environ.update(
        JAX_COMPILATION_CACHE_DIR=cache,
        JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
        JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
    )
    done, broken = set(), 0
    kf = known_findings(prop)
    try:
        while len(done) < len(tasks) + len(kf) and violation is None:
            ex = cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctx)
            futs = {}
            for t in tasks:
                if t not in done:
                    nm, i, n = t
                    futs[ex.submit(work, prop, nm, i, n, derive(seed, prop, nm, i), deadline)] = t
            for j, e in enumerate(kf):
                if j not in done:
                    futs[ex.submit(replay_worker, prop, e["sub"], e["case"])] = j
            try:
                for fu in cf.as_completed(futs):
                    res = fu.result()
                    t = futs[fu]
                    done.add(t)
                    if isinstance(t, int):
                        if res is not None:
                            known.append(f"KNOWN-FINDING: property={prop} {kf[t]['what']}")
                        continue
                    _, nm, shard, st = res
                    for k in tot:
                        tot[k] += st[k]
                    ps = per_sub.setdefault(
                        nm, dict(evaluations=0, nontrivial=0, discarded=0)
                    )
                    ps["evaluations"] += st["evaluations"]
                    ps["discarded"] += st["discarded"]
                    new = {f"{nm}:{k}" for k in st["nontrivial"]} - nontrivial
                    ps["nontrivial"] += len(new)
                    nontrivial |= new
                    for k, v in st["labels"].items():
                        labels[f"{nm}:{k}"] = labels.get(f"{nm}:{k}", 0) + v
                    samples.setdefault(nm, []).extend(st["samples"])
                    if st["error"] and error is None:
                        error = f"{prop}/{nm} shard {shard}: {st['error']}"
                    if st["violation"] and violation is None:
                        violation = dict(sub=nm, **st["violation"])
                        break
            except cf.process.BrokenProcessPool as e:
                violation = hung(cache)
                if violation:
                    break
                # usually memory: go on with fewer processes
                broken += 1
                if broken > 3:
                    error = f"a worker process died: {e}"
                    break
                jobs = max(1, jobs // 2)
                stop(ex)
        if violation is None:
            for line in known:
                print(line)
    finally:
        stop(ex)
        shutil.rmtree(cache, ignore_errors=True)

    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["evaluations"],
            distinct_nontrivial=len(nontrivial),
            rule=check.rule,
            samples=[
                dict(sub=nm, case=c)
                for nm, cs in sorted(samples.items()) for c in cs[:2]
            ][:30],
            per_sub=per_sub,
            labels=dict(sorted(labels.items())),
            discarded=tot["discarded"],
            generated_after_time_budget=tot["timeouts"],
        ),
        assumptions=getattr(check, "assumptions", []),
        wall_s=round(wall, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(
        f"{prop} {tier} seed={seed}: {tot['evaluations']} cases, "
        f"{len(nontrivial)} distinct non-trivial, {tot['discarded']} "
        f"discarded, {wall:.1f} s"
    )
    for nm, ps in sorted(per_sub.items()):
        print(f"  {nm}: {ps}")
    if violation:
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{violation['sub']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, **violation), f, indent=1)
        print(f"{violation['sub']}: {violation['message']}")
        print("case: " + json.dumps(violation["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if error:
        print("HARNESS ERROR: " + error, file=sys.stderr)
        return 2
    return 0
