"""Random task graphs over the real Task/Executor API, with a recording registry."""

import threading
import weakref
from typing import Any, Dict, Optional, Tuple

import torch
from mergekit.graph import Task


class Val:
    """An opaque, weak-referenceable task result."""

    __slots__ = ("uid", "__weakref__")

    def __init__(self, uid):
        self.uid = uid


GRAPHS: Dict[int, "Graph"] = {}


class Node:
    __slots__ = ("idx", "args", "group", "prio", "kind", "accel", "main", "dup", "action")

    def __init__(self, idx, args, group=None, prio=0, kind="val", accel=False, main=False, dup=False):
        self.idx = idx
        self.args = args  # list of (argname, dep idx)
        self.group = group
        self.prio = prio
        self.kind = kind
        self.accel = accel
        self.main = main
        self.dup = dup
        self.action = None


class GTask(Task[Any]):
    gid: int
    idx: int

    def __hash__(self):
        # unequal tasks may well hash alike: only equality may identify a task
        m = GRAPHS[self.gid].hashmod
        return hash((self.gid, self.idx)) if m is None else self.idx % m

    def arguments(self) -> Dict[str, Task]:
        # always fresh but equal instances: identity must not matter
        g = GRAPHS[self.gid]
        return {a: GTask(gid=self.gid, idx=d) for a, d in g.nodes[self.idx].args}

    def execute(self, **kwargs) -> Any:
        return GRAPHS[self.gid].on_execute(self.idx, kwargs)

    def priority(self) -> int:
        return GRAPHS[self.gid].nodes[self.idx].prio

    def group_label(self) -> Optional[str]:
        return GRAPHS[self.gid].nodes[self.idx].group

    def uses_accelerator(self) -> bool:
        return GRAPHS[self.gid].nodes[self.idx].accel

    def main_thread_only(self) -> bool:
        return GRAPHS[self.gid].nodes[self.idx].main

    def duplicate_per_gpu(self) -> bool:
        return GRAPHS[self.gid].nodes[self.idx].dup


class Graph:
    """A DAG plus the event log of everything that was executed on it."""

    def __init__(self, gid, nodes):
        self.gid = gid
        self.nodes = nodes
        self.hashmod = None
        self.lock = threading.Lock()
        self.log = []  # (idx, thread ident)
        self.calls = {}  # idx -> list of kwargs snapshots
        self.on_execute = self._default
        GRAPHS[gid] = self

    def task(self, idx) -> GTask:
        return GTask(gid=self.gid, idx=idx)

    def close(self):
        GRAPHS.pop(self.gid, None)

    def needed(self, targets, cached=()):
        out, todo = set(), list(targets)
        while todo:
            t = todo.pop()
            if t in out or t in cached:
                continue
            out.add(t)
            todo += [d for _, d in self.nodes[t].args]
        return out

    def _default(self, idx, kwargs):
        return Val(idx)


GROUPS = [None, None, None, "", "a", "b", "aa", "z", "model.layers.1", "model.layers.10", "~"]
PRIOS = [0, 0, 0, 1, -1, 10, -10, 1000, -1000, 10000]
ARGN = ["x", "y", "tensor", "writer", "a b", "m:w", "_unused_0", "0", "model/path@rev:w.weight", "T"]


def random_nodes(rng, n=None, shape=None):
    shape = shape or rng.choice(
        ["random", "random", "sparse", "chain", "wide", "layered", "diamond", "tree", "clusters"]
    )
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 20, 35, 60])
    deps = []
    for i in range(n):
        if i == 0:
            d = []
        elif shape == "random":
            d = rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2, 3])))
        elif shape == "sparse":
            d = rng.sample(range(i), min(i, rng.choice([0, 0, 1])))
        elif shape == "chain":
            d = [i - 1] + ([rng.randrange(i)] if rng.random() < 0.2 else [])
        elif shape == "wide":
            k = max(1, n // 2)
            d = [] if i < k else rng.sample(range(k), min(k, rng.choice([1, 2, 5])))
        elif shape == "layered":
            w = max(1, int(n**0.5))
            lo, hi = max(0, (i // w - 1) * w), (i // w) * w
            d = [j for j in range(lo, hi) if rng.random() < 0.6]
        elif shape == "diamond":
            d = [(i - 1) // 3] if i % 3 else [j for j in range(max(0, i - 3), i)]
        elif shape == "tree":
            d = [i // 2] if i // 2 < i else []
        else:
            c = 6
            lo = (i // c) * c
            d = [j for j in range(lo, i) if rng.random() < 0.5]
        deps.append(list(dict.fromkeys(d)))
    # random relabelling so that index order is not already a topological order
    perm = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(perm)
    nodes = [None] * n
    lab = rng.random()
    for i in range(n):
        ds = [perm[d] for d in deps[i]]
        if ds and rng.random() < 0.15:
            ds.append(rng.choice(ds))  # same input under two names
        names = rng.sample(ARGN, len(ds)) if len(ds) <= len(ARGN) else [f"p{k}" for k in range(len(ds))]
        nodes[perm[i]] = Node(
            perm[i],
            list(zip(names, ds)),
            group=rng.choice(GROUPS) if lab < 0.7 else None,
            prio=rng.choice(PRIOS) if lab < 0.8 else 0,
        )
    return nodes, shape
