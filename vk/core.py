"""Runtime-monitoring harness: workloads drive the real mergekit code, monitors observe.

A check is a set of workloads.  A workload is a function `fn(ctx, rng)` that drives
the real code on one generated case and reports what its monitors observed through
`ctx`.  The runner executes many cases in forked worker processes, watches them for
crashes, deadlocks and run-away loops, and turns the observations into a verdict:

  exit 0  held on everything observed (and every declared monitor was reached)
  exit 1  violated: at least one VIOLATION line was printed, with a replay file
  exit 2  inconclusive: a monitor was not reached, or the harness itself failed
"""

import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CLK = os.sysconf("SC_CLK_TCK")


class Skip(Exception):
    """Raised by a workload when the generated case is vacuous."""


class Inconclusive(Exception):
    """Raised by a workload when it cannot decide (harness-side problem)."""


class Stop(Exception):
    """Raised after a violation that makes the rest of the case meaningless."""


@dataclass
class Workload:
    name: str
    fn: Callable
    quick: int
    thorough: int
    # events this workload must observe at least once over a whole run
    require: List[str] = field(default_factory=list)
    # CPU seconds one case may burn before it counts as not terminating
    cpu_budget: float = 150.0
    # seconds without any CPU use before the case counts as deadlocked
    idle_budget: float = 75.0


@dataclass
class Check:
    prop: str
    level: str
    rule: str
    workloads: List[Workload]
    assumptions: List[str] = field(default_factory=list)
    workers: Optional[int] = None


class Ctx:
    def __init__(self, prop, workload, case, seed, scratch, tier):
        self.prop = prop
        self.workload = workload
        self.case = case
        self.seed = seed
        self.tier = tier
        self._scratch_root = scratch
        self._scratch = None
        self.events = Counter()
        self.states = set()
        self.sigs = []
        self.violations = []
        self.sample = None
        self.known = []

    # -- scratch -----------------------------------------------------------
    @property
    def scratch(self) -> str:
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="case-", dir=self._scratch_root)
        return self._scratch

    def path(self, *parts) -> str:
        return os.path.join(self.scratch, *parts)

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # -- observations ------------------------------------------------------
    def event(self, name: str, n: int = 1):
        self.events[name] += n

    def state(self, *key):
        """Record a distinct state / interleaving / behaviour that was observed."""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def nontrivial(self, *sig):
        """The case (identified by `sig`) reached the behaviour being judged."""
        self.sigs.append(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def describe(self, obj: Any):
        if self.sample is None:
            self.sample = obj

    # -- verdicts ----------------------------------------------------------
    def fail(self, key: str, msg: str, stop: bool = False):
        self.violations.append({"key": key, "msg": str(msg)[:2000]})
        if stop:
            raise Stop()

    def ok(self, cond: bool, key: str, msg: Any = "", stop: bool = False) -> bool:
        self.events["judged:" + key] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, stop=stop)
        return bool(cond)


def _case_rng(seed: int, prop: str, workload: str, case: int):
    h = hashlib.sha256(f"{seed}/{prop}/{workload}/{case}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big")), int.from_bytes(h[8:12], "big")


def _has_repo_frame(exc: BaseException) -> bool:
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(REPO + "/"):
                return True
        todo += [e.__cause__, e.__context__]
    return False


def run_case(check: Check, wl: Workload, case: int, seed: int, tier: str, scratch: str):
    rng, tseed = _case_rng(seed, check.prop, wl.name, case)
    ctx = Ctx(check.prop, wl.name, case, seed, scratch, tier)
    status = "ok"
    err = None
    try:
        import numpy as np
        import torch

        torch.manual_seed(tseed)
        np.random.seed(tseed)
        random.seed(tseed)
        wl.fn(ctx, rng)
    except Skip:
        status = "skip"
    except Stop:
        pass
    except Inconclusive as e:
        status, err = "inconclusive", str(e)
    except MemoryError:
        status, err = "inconclusive", "MemoryError"
    except BaseException as e:  # noqa
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
        if isinstance(e, (KeyboardInterrupt, GeneratorExit)):
            raise
        if _has_repo_frame(e) or not isinstance(
            e, (ImportError, AttributeError, NameError)
        ):
            ctx.fail(
                "unexpected-exception",
                f"{type(e).__name__}: {e} on an input where the property requires "
                f"an answer\n{tb}",
            )
        else:
            status, err = "error", tb
    finally:
        ctx.cleanup()
    return {
        "workload": wl.name,
        "case": case,
        "status": status,
        "err": err,
        "events": ctx.events,
        "states": ctx.states,
        "sigs": ctx.sigs,
        "violations": ctx.violations,
        "sample": ctx.sample,
    }


# --------------------------------------------------------------------------
# forked worker pool


class _Worker:
    def __init__(self, check, tier, seed, scratch, logdir, idx):
        self.r_in, self.w_in = os.pipe()
        self.r_out, self.w_out = os.pipe()
        self.buf = b""
        self.current = None
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(self.w_in)
                os.close(self.r_out)
                log = os.open(
                    os.path.join(logdir, f"worker-{idx}.log"),
                    os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                )
                os.dup2(log, 1)
                os.dup2(log, 2)
                devnull = os.open(os.devnull, os.O_RDONLY)
                os.dup2(devnull, 0)
                self._loop(check, tier, seed, scratch)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(self.r_in)
        os.close(self.w_out)

    def _loop(self, check, tier, seed, scratch):
        wls = {w.name: w for w in check.workloads}
        with os.fdopen(self.r_in, "rb") as fin:
            while True:
                hdr = fin.read(4)
                if len(hdr) < 4:
                    return
                name, case = pickle.loads(fin.read(struct.unpack("<I", hdr)[0]))
                res = run_case(check, wls[name], case, seed, tier, scratch)
                data = pickle.dumps(res)
                data = struct.pack("<I", len(data)) + data
                while data:
                    n = os.write(self.w_out, data)
                    data = data[n:]

    def send(self, item):
        self.current = item
        self.t0 = time.monotonic()
        self.cpu0 = self.cpu()
        self.last_cpu = self.cpu0
        self.last_change = time.monotonic()
        data = pickle.dumps(item)
        os.write(self.w_in, struct.pack("<I", len(data)) + data)

    def cpu(self) -> float:
        """CPU seconds used by the worker's whole process group."""
        tot = 0
        for pid in [self.pid] + _descendants(self.pid):
            try:
                with open(f"/proc/{pid}/stat") as f:
                    parts = f.read().rsplit(")", 1)[1].split()
                tot += sum(int(x) for x in parts[11:15])
            except (OSError, IndexError):
                pass
        return tot / CLK

    def poll(self):
        data = os.read(self.r_out, 1 << 20)
        if not data:
            return None
        self.buf += data
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4 : 4 + n]))
            self.buf = self.buf[4 + n :]
        return out

    def kill(self):
        for fn in (lambda: os.killpg(self.pid, signal.SIGKILL),
                   lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                fn()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.w_in, self.r_out):
            try:
                os.close(fd)
            except OSError:
                pass


def _descendants(pid: int) -> List[int]:
    out = []
    try:
        for tid in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{tid}/children") as f:
                for c in f.read().split():
                    out.append(int(c))
                    out += _descendants(int(c))
    except OSError:
        pass
    return out


# --------------------------------------------------------------------------


def load_known(prop: str) -> Dict[str, str]:
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {
        e["key"]: e["what"]
        for e in data.get("findings", [])
        if e["property"] == prop and e.get("status") == "known"
    }


def run_check(check: Check, tier: str, seed: int, only=None, replay=None) -> int:
    t_start = time.monotonic()
    known = load_known(check.prop)
    scratch = tempfile.mkdtemp(prefix=f"vk-{check.prop}-", dir=os.environ.get("VK_SCRATCH", "/tmp"))
    logdir = os.path.join(scratch, "logs")
    os.makedirs(logdir)
    wls = {w.name: w for w in check.workloads}

    if replay is not None:
        items = [(replay["workload"], replay["case"])]
    else:
        # interleave workloads so that early stop still covers all of them
        per = []
        for w in check.workloads:
            if only and w.name not in only:
                continue
            n = w.quick if tier == "quick" else w.thorough
            per.append([((i + 0.5) / n, (w.name, i)) for i in range(n)])
        items = [it for _, it in sorted((x for p in per for x in p), key=lambda x: x[0])]

    total = Counter()
    wl_events = {w.name: Counter() for w in check.workloads}
    states, sigs = set(), set()
    nontrivial_cases = 0
    statuses = Counter()
    samples = []
    violations = []
    errors = []
    done = 0
    queue = list(reversed(items))
    nworkers = min(check.workers or len(os.sched_getaffinity(0)), max(1, len(items)))
    workers: List[_Worker] = []
    idx = 0
    max_viol = int(os.environ.get("VK_MAX_VIOLATIONS", "6"))
    budget = float(os.environ.get("VK_TIME_BUDGET", "780" if tier == "quick" else "1e9"))
    truncated = False
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        def spawn():
            nonlocal idx
            w = _Worker(check, tier, seed, scratch, logdir, idx)
            idx += 1
            workers.append(w)
            return w

        for _ in range(nworkers):
            spawn()
        hang_retry: Dict[Any, int] = {}
        while True:
            if len([v for v in violations if v["key"] not in known]) >= max_viol:
                queue.clear()
                for w in list(workers):
                    if w.current is not None:
                        w.kill()
                        workers.remove(w)
                break
            if time.monotonic() - t_start > budget and queue:
                truncated = True
                queue.clear()
            for w in workers:
                if w.current is None and queue:
                    w.send(queue.pop())
            if all(w.current is None for w in workers):
                break
            ready, _, _ = select.select([w.r_out for w in workers], [], [], 1.0)
            for w in list(workers):
                if w.r_out in ready:
                    try:
                        got = w.poll()
                    except OSError:
                        got = None
                    if got is None:
                        item = w.current
                        w.kill()
                        workers.remove(w)
                        if item is not None:
                            violations.append(
                                dict(key="process-died", workload=item[0], case=item[1],
                                     msg="the process running this case died abnormally")
                            )
                        spawn()
                        continue
                    for res in got:
                        w.current = None
                        done += 1
                        statuses[res["status"]] += 1
                        wl_events[res["workload"]].update(res["events"])
                        total.update(res["events"])
                        states |= res["states"]
                        if res["sigs"]:
                            nontrivial_cases += 1
                            sigs.update(res["sigs"])
                        if res["sample"] is not None and len(samples) < 12 and (
                            sum(s["workload"] == res["workload"] for s in samples) < 2
                        ):
                            samples.append({"workload": res["workload"], "case": res["case"],
                                            "what": res["sample"]})
                        for v in res["violations"]:
                            violations.append(dict(v, workload=res["workload"], case=res["case"]))
                        if res["status"] in ("error", "inconclusive"):
                            errors.append((res["workload"], res["case"], res["err"]))
                elif w.current is not None:
                    now = time.monotonic()
                    if now - w.last_change < 2:
                        continue
                    c = w.cpu()
                    wl = wls[w.current[0]]
                    if c - w.last_cpu > 0.02:
                        w.last_cpu, w.last_change = c, now
                    why = None
                    if c - w.cpu0 > wl.cpu_budget:
                        why = ("no-termination", f"case still running after {c - w.cpu0:.0f} CPU seconds")
                    elif now - w.last_change > wl.idle_budget:
                        why = ("deadlock", f"no CPU progress for {now - w.last_change:.0f} s")
                    if why:
                        item = w.current
                        w.kill()
                        workers.remove(w)
                        # confirm once in a fresh worker before judging
                        hang_retry[item] = hang_retry.get(item, 0) + 1
                        if hang_retry[item] >= 2:
                            violations.append(dict(key=why[0], workload=item[0], case=item[1], msg=why[1]))
                            queue.clear()
                        else:
                            queue.append(item)
                        spawn()
    finally:
        for w in workers:
            w.kill()
        logs = {}
        for fn in os.listdir(logdir):
            with open(os.path.join(logdir, fn), errors="replace") as f:
                logs[fn] = f.read()[-2000:]
        if os.environ.get("VK_KEEP_LOGS"):
            for fn, t in logs.items():
                print("----", fn, "\n", t)
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.monotonic() - t_start
    new = [v for v in violations if v["key"] not in known]
    seen_known = sorted({v["key"] for v in violations if v["key"] in known})
    for k in seen_known:
        print(f"KNOWN-FINDING: property={check.prop} {known[k]}")

    missing = []
    if replay is None and not new and not truncated:
        for w in check.workloads:
            if only and w.name not in only:
                continue
            for ev in w.require:
                if wl_events[w.name][ev] == 0:
                    missing.append(f"{w.name}:{ev}")

    print(
        f"[{check.prop}] tier={tier} seed={seed} cases={done} status={dict(statuses)} "
        f"nontrivial={nontrivial_cases} distinct={len(sigs)} states={len(states)} "
        f"violations={len(new)} wall={wall:.1f}s"
    )
    for k in sorted(total):
        print(f"    observed {k}: {total[k]}")

    if replay is None and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": check.prop,
            "tier": tier,
            "seed": seed,
            "level": check.level,
            "coverage": {
                "evaluations": done,
                "distinct_nontrivial": len(sigs),
                "rule": check.rule,
                "samples": samples or ["(no sample recorded)"],
                "nontrivial_cases": nontrivial_cases,
                "distinct_states_observed": len(states),
                "events_observed": dict(sorted(total.items())),
                "cases_by_status": dict(statuses),
                "workloads": {w.name: (w.quick if tier == "quick" else w.thorough) for w in check.workloads},
                "truncated_by_time": truncated,
            },
            "assumptions": check.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        tmp = os.path.join(VERIF, "evidence", f".{check.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{check.prop}.json"))

    if new:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = Counter()
        for n, v in enumerate(new):
            shown[v["key"]] += 1
            if shown[v["key"]] > 2:
                continue
            rp = os.path.join(rdir, f"{check.prop}-{n}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=check.prop, tier=tier, seed=seed, workload=v["workload"],
                               case=v["case"], key=v["key"], msg=v["msg"]), f, indent=1)
            print(f"VIOLATION property={check.prop} replay={rp}")
            print(f"    [{v['workload']}#{v['case']}] {v['key']}: {v['msg']}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e[0], e[1], e[2])
        return 2
    if missing:
        print("INCONCLUSIVE: monitors never reached:", ", ".join(missing))
        return 2
    if replay is None and not sigs:
        print("INCONCLUSIVE: no non-trivial case observed")
        return 2
    return 0
