"""P15: the same recipe and seed give the same output, in any process."""

import json
import os
import subprocess
import sys

from vk.core import VERIF, Check, Inconclusive, Workload
from vk.recipes import METHODS, recipe


def children(jobsets):
    procs = []
    for env, job in jobsets:
        e = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get("PYTHONPATH", ""), OMP_NUM_THREADS="1", TOKENIZERS_PARALLELISM="false", **env)
        p = subprocess.Popen([sys.executable, "-m", "vk.child_merge"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, text=True)
        procs.append((p, json.dumps(job)))
    out = []
    import threading

    res = [None] * len(procs)

    def go(i, p, s):
        res[i] = p.communicate(s)

    ths = [threading.Thread(target=go, args=(i, p, s)) for i, (p, s) in enumerate(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for (p, _), (so, se) in zip(procs, res):
        line = [l for l in so.splitlines() if l.startswith("@@")]
        if not line:
            raise Inconclusive(f"child ended with {p.returncode}: {se[-600:]}")
        out.append(json.loads(line[-1][2:]))
    return out


def wl_processes(ctx, rng):
    k = 8 if ctx.tier == "quick" else 16
    jobs, infos = [], []
    for j in range(k):
        rnd = [m for m, v in METHODS.items() if v[2]]
        c, info = recipe(ctx, rng, randomised=True, prefix=f"j{j}-", methods=rnd if rng.random() < 0.5 else None)
        o = dict(quiet=True, random_seed=rng.randrange(1 << 30), out_shard_size=rng.choice([60, 10**9]))
        if rng.random() < 0.3:
            o.update(async_write=True, write_threads=rng.choice([1, 3]))
        if rng.random() < 0.3:
            o.update(lazy_unpickle=True)
        jobs.append((c, o))
        infos.append(info)
    ctx.describe([dict(config=c, options=o) for c, o in jobs])
    n = 3
    sets = []
    for i in range(n):
        sets.append((dict(PYTHONHASHSEED=str(rng.randrange(1, 1 << 30))),
                     dict(reverse=i == 1, jobs=[[c, ctx.path(f"child{i}", f"out{j}"), o, rng.randrange(1, 1000)] for j, (c, o) in enumerate(jobs)])))
    # twice in one process
    sets[0][1]["jobs"] += [[c, ctx.path("again", f"out{j}"), o, rng.randrange(1, 1000)] for j, (c, o) in enumerate(jobs)]
    res = children(sets)
    ctx.event("process", n)
    if len({r["strhash"] for r in res}) > 1:
        ctx.event("hash-seeds-differ")
    first = res[0]["res"]
    for j in range(k):
        ref = first[j]
        if not ctx.ok("error" not in ref, "runs", lambda: f"{ref.get('error')}"):
            continue
        ctx.event("randomised" if infos[j]["random"] else "deterministic")
        if infos[j]["tok"]:
            ctx.event("tokenizer")
        for other, what in [(first[k + j], "again in the same process")] + [(r["res"][j], "in another process") for r in res[1:]]:
            if not ctx.ok("error" not in other, "runs", lambda: f"{what}: {other.get('error')}"):
                continue
            ctx.event("compared")
            d = sorted(x for x in set(ref["tensors"]) | set(other["tensors"]) if ref["tensors"].get(x) != other["tensors"].get(x))
            ctx.ok(not d, "weights", lambda: f"{infos[j]['method']} {what}: {len(d)} weights differ, e.g. {d[:3]}")
            f = sorted(x for x in set(ref["files"]) | set(other["files"]) if ref["files"].get(x) != other["files"].get(x))
            # asynchronous writers may finish shards in any order; contents are compared above
            f = [x for x in f if not x.endswith(".safetensors")]
            ctx.ok(not f, "files", lambda: f"{infos[j]['method']} {what}: {f}")
    if len(ctx.sigs) == 0:
        ctx.nontrivial(tuple(i["method"] for i in infos), rng.random())


CHECK = Check(
    prop="P15",
    level="exploration",
    rule="batches of random recipes (all 20 methods, half of them randomised, tokenizers, slices, sharding, asynchronous writing) with a random_seed, executed in "
    "three processes with different hash seeds, different preceding random-number use and different order, and twice in one of them; weights compared bit for "
    "bit, the other files byte for byte; distinct by batch",
    assumptions=["same machine, library versions and thread count", "single-device execution (README gives the seed no meaning across parallel devices)"],
    workers=3,
    workloads=[Workload("processes", wl_processes, 9, 90, require=["hash-seeds-differ", "randomised", "deterministic", "tokenizer", "compared"], idle_budget=200.0)],
)
