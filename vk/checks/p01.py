"""P01: graph execution - exactly once, after inputs, right values, all targets."""

import itertools

import torch
from mergekit.graph import Executor, TaskUniverse

from vk.core import Check, Workload
from vk.dag import GTask, Graph, Val, random_nodes

_gid = itertools.count(1)


class Boom(Exception):
    pass


def _make_value(rng, idx, kind):
    if kind == "val":
        return Val(idx)
    if kind == "none":
        return None
    if kind == "tensor":
        return torch.full((2,), float(idx))
    if kind == "dict":
        return {"k": torch.full((1,), float(idx)), "n": None, 3: Val(idx)}
    if kind == "list":
        return [torch.full((1,), float(idx)), [Val(idx)], "s"]
    if kind == "tuple":
        return (torch.full((1,), float(idx)), {"q": (torch.ones(2) * idx,)}, idx)
    if kind == "zero":
        return 0
    if kind == "false":
        return False
    if kind == "empty":
        return {}
    raise AssertionError(kind)


KINDS = ["val", "val", "tensor", "dict", "list", "tuple", "none", "zero", "false", "empty"]


def _same(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return (
            isinstance(a, torch.Tensor)
            and isinstance(b, torch.Tensor)
            and a.dtype == b.dtype
            and torch.equal(a, b)
        )
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Val):
        return a is b
    return a == b


def wl_graph(ctx, rng):
    nodes, shape = random_nodes(rng)
    n = len(nodes)
    for nd in nodes:
        nd.kind = rng.choice(KINDS)
        nd.accel = rng.random() < 0.2
    g = Graph(next(_gid), nodes)
    if rng.random() < 0.3:
        g.hashmod = rng.choice([1, 2, 5])
        ctx.event("colliding-hashes")
    log = []  # (idx, kwargs)
    produced = {}

    def on_execute(idx, kwargs):
        v = _make_value(rng, idx, nodes[idx].kind)
        log.append((idx, dict(kwargs)))
        produced.setdefault(idx, []).append(v)
        ctx.event("task-executed")
        return v

    g.on_execute = on_execute
    k = rng.randint(1, n)
    targets = rng.sample(range(n), k)
    if rng.random() < 0.25:
        targets = targets + [rng.choice(targets)]  # a repeated target
    use_cache = rng.random() < 0.5
    cached = {}
    if use_cache:
        need = sorted(g.needed(targets))
        pool = sorted(set(need) | set(rng.sample(range(n), rng.randint(0, n))))
        for i in rng.sample(pool, rng.randint(0, len(pool))):
            cached[i] = _make_value(rng, 1000 + i, nodes[i].kind)
    need = g.needed(targets, cached)
    ctx.describe(dict(shape=shape, n=n, targets=targets[:12], cached=sorted(cached)[:12]))
    if use_cache:
        uni = TaskUniverse([g.task(i) for i in range(n)])
        hs = [uni.get_handle(g.task(t)) for t in targets]
        ex = Executor(hs, cached_values={uni.get_handle(g.task(i)): v for i, v in cached.items()})
    else:
        ex = Executor([g.task(t) for t in targets])
    try:
        for rep in range(2 if rng.random() < 0.2 else 1):
            log.clear()
            produced.clear()
            yielded = []
            ran_before_yield = {}
            for task, value in ex.run(quiet=True):
                yielded.append((task, value))
            # --- offline checker over the recorded log
            order = [i for i, _ in log]
            ctx.ok(sorted(order) == sorted(need), "executed-set",
                   lambda: f"needed {sorted(need)} executed {sorted(order)} (cached {sorted(cached)}, targets {targets})")
            ctx.ok(len(order) == len(set(order)), "executed-once", lambda: f"order {order}")
            seen = set()
            for i, kw in log:
                decl = dict(nodes[i].args)
                ctx.ok(set(kw) == set(decl), "argument-names", lambda: f"task {i}: {set(kw)} vs {set(decl)}")
                for a, d in decl.items():
                    ctx.ok(d in seen or d in cached, "dependency-first", lambda: f"task {i} ran before {d}")
                    if a in kw and (d in cached or d in produced):
                        want = cached[d] if d in cached else produced[d][0]
                        ctx.event("argument-checked")
                        ctx.ok(_same(kw[a], want), "argument-value",
                               lambda: f"task {i} arg {a}: got {kw[a]!r} want result of {d}: {want!r}")
                seen.add(i)
            yt = [t.idx for t, _ in yielded]
            want_t = sorted(set(t for t in targets if t not in cached))
            ctx.ok(sorted(yt) == want_t, "targets-returned", lambda: f"yielded {sorted(yt)} want {want_t}")
            for t, v in yielded:
                if t.idx in produced:
                    ctx.event("target-checked")
                    ctx.ok(_same(v, produced[t.idx][0]), "target-value", lambda: f"target {t.idx}: {v!r}")
            ctx.state(tuple(order), shape)
        if need:
            ctx.nontrivial(shape, tuple(map(tuple, (nd.args for nd in nodes))), tuple(targets), tuple(sorted(cached)))
    finally:
        g.close()


def wl_failure(ctx, rng):
    nodes, shape = random_nodes(rng)
    g = Graph(next(_gid), nodes)
    targets = rng.sample(range(len(nodes)), rng.randint(1, len(nodes)))
    need = sorted(g.needed(targets))
    bad = rng.choice(need)
    ran = []

    def on_execute(idx, kwargs):
        ran.append(idx)
        if idx == bad:
            raise Boom(str(idx))
        return Val(idx)

    g.on_execute = on_execute
    try:
        got = None
        out = []
        try:
            for t, v in Executor([g.task(t) for t in targets]).run(quiet=True):
                out.append(t.idx)
        except Boom as e:
            got = e
        ctx.ok(got is not None, "failure-propagates", f"task {bad} raised but run() returned normally")
        ctx.event("failure-injected")
        after = g.needed(targets) - g.needed([i for i in need if bad not in g.needed([i])])
        dependents = [i for i in need if i != bad and bad in g.needed([i])]
        ctx.ok(not set(ran) & set(dependents), "no-dependents-after-failure", f"{ran} bad={bad}")
        ctx.ok(not set(out) & (set(dependents) | {bad}), "no-target-after-failure", f"{out} bad={bad}")
        ctx.nontrivial("fail", shape, bad, tuple(targets), len(nodes))
    finally:
        g.close()


def wl_cycle(ctx, rng):
    nodes, shape = random_nodes(rng, n=rng.randint(2, 10))
    n = len(nodes)
    cyc = rng.sample(range(n), rng.randint(1, n))
    for a, b in zip(cyc, cyc[1:] + cyc[:1]):
        nodes[a].args = [x for x in nodes[a].args if x[0] != "cyc"] + [("cyc", b)]
    g = Graph(next(_gid), nodes)
    ran = []
    g.on_execute = lambda idx, kw: ran.append(idx) or Val(idx)
    raised = False
    try:
        try:
            for _ in Executor([g.task(cyc[0])]).run(quiet=True):
                pass
        except Exception:
            raised = True
        ctx.event("cycle-offered")
        ctx.ok(raised, "cycle-rejected", f"cyclic graph {cyc} executed: {ran}")
        ctx.nontrivial("cycle", n, tuple(cyc))
    finally:
        g.close()


CHECK = Check(
    prop="P01",
    level="exploration",
    rule="random DAGs (9 shapes, 1-60 tasks, random groups/priorities/argument names, equal-but-distinct task "
    "objects, repeated targets, random precomputed results incl. falsy/None/nested values) run on the real executor; "
    "non-trivial = at least one task had to run; distinct by graph structure + targets + cache set; "
    "a state = one observed execution order",
    assumptions=["argument containers may be rebuilt when moved between devices, so dict/list/tuple values are compared structurally"],
    workloads=[
        Workload("graph", wl_graph, 12000, 150000, require=["task-executed", "argument-checked", "target-checked"]),
        Workload("failure", wl_failure, 2000, 20000, require=["failure-injected"]),
        Workload("cycle", wl_cycle, 500, 5000, require=["cycle-offered"]),
    ],
)
