"""P03: parallel multi-device execution equals serial execution under every schedule."""

import itertools
import sys
import threading
import time

import torch
import tqdm
from mergekit.multigpu_executor import MultiGPUExecutor

from vk.core import Check, Workload
from vk.dag import GTask, Graph, Node, GROUPS, PRIOS
from vk.simdev import simulated_accelerators

_gid = itertools.count(1)


class Boom(Exception):
    pass


def gen_graph(rng):
    """Graphs of the documented form: main-thread tasks lead or trail, everything else is
    parallel; per-device duplicates depend only on leading tasks or other duplicates."""
    nodes = []

    def add(args, **kw):
        i = len(nodes)
        nodes.append(Node(i, [(f"a{k}", d) for k, d in enumerate(args)],
                          group=rng.choice(GROUPS), prio=rng.choice(PRIOS), **kw))
        return i

    lead = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        lead.append(add(rng.sample(lead, min(len(lead), rng.choice([0, 0, 1]))), main=True))
    dup = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        pool = lead + dup
        dup.append(add(rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 2]))), dup=True))
    par = []
    islands = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    for _ in range(islands):
        mine = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            pool = lead + dup
            args = rng.sample(mine, min(len(mine), rng.choice([0, 1, 1, 2])))
            args += rng.sample(pool, min(len(pool), rng.choice([0, 0, 1])))
            mine.append(add(args, accel=rng.random() < 0.5))
        par += mine
    # sometimes bridge islands
    if len(par) > 3 and rng.random() < 0.3:
        par.append(add(rng.sample(par, 2)))
    trail = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        pool = par + dup + trail + lead
        if not pool:
            break
        args = rng.sample(pool, min(len(pool), rng.choice([1, 2, 5, len(pool)])))
        trail.append(add(args, main=True))
    # targets: every trailing task (a main-thread task that is not needed cannot trail), plus others
    cand = list(range(len(nodes)))
    targets = set(trail)
    if cand:
        targets |= set(rng.sample(cand, rng.randint(1, len(cand))))
    return nodes, sorted(targets), dict(lead=len(lead), dup=len(dup), par=len(par), trail=len(trail), islands=islands)


def reference(nodes, targets):
    val = {}

    def ev(i):
        if i not in val:
            val[i] = (i * 7919 + sum((k + 3) * ev(d) for k, (_, d) in enumerate(nodes[i].args))) % 1000003
        return val[i]

    for t in targets:
        ev(t)
    return val


def _drive(ctx, rng, inject_error=False):
    nodes, targets, info = gen_graph(rng)
    if not targets:
        return
    g = Graph(next(_gid), nodes)
    ndev = rng.choice([1, 2, 2, 3, 4, 8])
    jitter = rng.choice(["none", "none", "tasks", "reader", "both", "yieldy"])
    lock = threading.Lock()
    log = []
    main = threading.get_ident()
    need = g.needed(targets)
    bad = rng.choice(sorted(need)) if inject_error else None
    finished = set()
    early = []
    delays = {i: rng.choice([0, 0, 0.0005, 0.002]) for i in range(len(nodes))}
    reader_delay = rng.choice([0.0005, 0.002, 0.004])

    def on_execute(idx, kwargs):
        tid = threading.get_ident()
        with lock:
            log.append((idx, tid))
            for _, d in nodes[idx].args:
                if d not in finished:
                    early.append((idx, d))
        if jitter in ("tasks", "both") and delays[idx]:
            time.sleep(delays[idx])
        if jitter == "yieldy":
            time.sleep(0)
        if idx == bad:
            raise Boom(str(idx))
        acc = idx * 7919
        for k, (a, _) in enumerate(nodes[idx].args):
            v = kwargs[a]
            acc += (k + 3) * (int(v.item()) if isinstance(v, torch.Tensor) else int(v))
        acc %= 1000003
        with lock:
            finished.add(idx)
        return torch.tensor(acc) if idx % 2 else acc

    g.on_execute = on_execute
    orig_update = tqdm.tqdm.update
    if jitter in ("reader", "both"):
        def slow_update(self, n=1):
            if threading.get_ident() != main:
                time.sleep(reader_delay)
            return orig_update(self, n)
        tqdm.tqdm.update = slow_update
    old_si = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 0.005]))
    before_threads = threading.active_count()
    out, err = [], None
    try:
        with simulated_accelerators(ndev):
            ex = MultiGPUExecutor(
                [g.task(t) for t in targets],
                num_gpus=rng.choice([None, ndev]),
                storage_device=rng.choice([None, torch.device("cpu")]),
            )
            try:
                for t, v in ex.run(quiet=True):
                    out.append((t.idx, int(v.item()) if isinstance(v, torch.Tensor) else v))
            except Boom as e:
                err = e
    finally:
        sys.setswitchinterval(old_si)
        tqdm.tqdm.update = orig_update
        g.close()
    ctx.event("parallel-run")
    ctx.event("task-executed", len(log))
    counts = {}
    for i, _ in log:
        counts[i] = counts.get(i, 0) + 1
    tids = {t for _, t in log}
    ctx.describe(dict(info, devices=ndev, jitter=jitter, targets=len(targets), threads=len(tids)))
    ctx.state(tuple(i for i, _ in log))
    for i, tid in log:
        if nodes[i].main:
            ctx.event("main-thread-task")
            ctx.ok(tid == main, "main-thread-only", f"main-thread task {i} ran on a worker ({info})")
    ctx.ok(not early, "dependency-first", lambda: f"tasks started before inputs: {early[:4]}")
    for i, c in counts.items():
        lim = ndev + 1 if nodes[i].dup else 1
        ctx.ok(c <= lim, "executed-once", lambda: f"task {i} (dup={nodes[i].dup}) ran {c} times ({info}, {ndev} devices, {jitter})")
    if inject_error:
        ctx.event("failure-injected")
        ctx.ok(err is not None, "failure-propagates", f"task {bad} raised but run() returned ({info})")
        ctx.nontrivial("err", tuple(map(tuple, (n.args for n in nodes))), ndev, bad)
        return
    ref = reference(nodes, targets)
    miss = [i for i in need if i not in counts]
    ctx.ok(not miss, "all-executed", lambda: f"needed tasks never ran: {miss} ({info}, targets {targets})")
    yt = [i for i, _ in out]
    ctx.ok(sorted(yt) == targets, "targets-returned",
           lambda: f"yielded {sorted(yt)} want {targets} ({info}, {ndev} devices, jitter {jitter})")
    for i, v in out:
        ctx.event("target-checked")
        ctx.ok(v == ref[i], "target-value", lambda: f"target {i}: {v} want {ref[i]} ({info})")
    if len(tids) > 1:
        ctx.event("really-parallel")
    ctx.nontrivial(tuple(map(tuple, (n.args for n in nodes))), tuple(targets), ndev, jitter)


def wl_parallel(ctx, rng):
    _drive(ctx, rng)


def wl_error(ctx, rng):
    _drive(ctx, rng, inject_error=True)


CHECK = Check(
    prop="P03",
    level="exploration",
    rule="random graphs in the documented shape (leading / per-device / parallel islands / trailing) on 1-8 simulated "
    "devices with injected delays in tasks and in the result-collecting thread and a tiny interpreter switch interval; "
    "non-trivial = run completed and was compared with an independent sequential evaluation; distinct by graph, targets, "
    "device count, jitter; a state = one observed interleaving of task starts",
    assumptions=["accelerators are simulated as cpu:0..N-1 at the torch boundary: streams and device copies are no-ops, "
                 "so only scheduling, hand-over of results and thread placement are judged"],
    workloads=[
        Workload("parallel", wl_parallel, 1600, 16000,
                 require=["parallel-run", "really-parallel", "target-checked", "main-thread-task"]),
        Workload("error", wl_error, 500, 4000, require=["failure-injected"]),
    ],
)
