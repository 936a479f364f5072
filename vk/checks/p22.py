"""P22: mergekit-multi runs every merge of the file exactly once, after the ones it uses, as if run by hand."""

import copy
import json
import os
import shutil
import signal
import sys

import torch
import yaml
from click.testing import CliRunner
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.scripts.multimerge import main

from vk.ckpt import read_checkpoint
from vk.core import Check, Skip, Workload
from vk.lora import write_adapter
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt
from vk.toks import SPECIAL, write_tokenizer

# ---- monitor: file operations as the interpreter reports them --------------------------------------------------------
WATCH = dict(on=False, root="", log=[], act=None)


def hook(event, args):
    if not WATCH["on"]:
        return
    if event == "open":
        p, mode, flags = args
        if not isinstance(p, (str, bytes, os.PathLike)):
            return
        write = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        kind = "write" if write else "read"
        paths = [p]
    elif event in ("os.rename", "os.link"):
        kind, paths = "rename", args[:2]
    elif event in ("os.remove", "os.mkdir", "os.rmdir"):
        kind, paths = event[3:], args[:1]
    else:
        return
    paths = [os.path.abspath(os.fsdecode(p)) for p in paths if isinstance(p, (str, bytes, os.PathLike))]
    if not any(p.startswith(WATCH["root"]) for p in paths):
        return
    WATCH["log"].append((kind, *paths))
    if WATCH["act"]:
        WATCH["act"](kind, paths)


sys.addaudithook(hook)


def watched(root, fn, act=None):
    WATCH.update(on=True, root=root, log=[], act=act)
    try:
        return fn()
    finally:
        WATCH["on"] = False


# ---- generated files ------------------------------------------------------------------------------------------------
NAMES = ["first", "second", "third", "linear", "union", "base", "float32", "mlp", "self_attn", "model", "weight", "passthrough", "ties", "out", "with space",
         "a/b", "a/c", "deep/er/x", "x@y", "p+q", "é", "it's", "default", "sources", "norm", "null", "1.5", "task_arithmetic", "*", "config.json", "zero", "w3", "<s>"]


class Files:
    """Source models, and a random file of merges over them and over each other."""

    def __init__(self, ctx, rng, tok=None, most=5):
        self.ctx, self.rng = ctx, rng
        self.layers, self.hidden = rng.choice([1, 2]), 4
        self.tok = rng.random() < 0.5 if tok is None else tok
        self.vocab = 8
        self.cfg = llama_config(layers=self.layers, hidden=self.hidden, inter=6, heads=2, vocab=self.vocab, tie=False)
        self.shapes = llama_shapes(self.cfg)
        self.src = []
        for i in range(3):
            p = ctx.path("src", f"m{i}")
            t = rand_tensors(self.shapes, rng.randrange(1 << 30))
            write_ckpt(p, self.cfg, t, rng.choice(["st", "st", "bin"]), None, rng)
            if self.tok:
                write_tokenizer(p, SPECIAL + ["w0", "w1", "w2", "w3", "w4"][: self.vocab - 3], kind="WordLevel")
            self.src.append(p)
        self.ad = ctx.path("src", "ad")
        write_adapter(rng, self.ad, self.src[0], t, ["q_proj", "down_proj"], r=1)
        n = rng.randint(1, most)
        self.names = rng.sample(NAMES, n)
        self.final = rng.random() < 0.6
        self.order = list(self.names) + ([None] if self.final else [])
        self.docs = {}
        self.uses = {}
        for i, nm in enumerate(self.order):
            self.uses[nm] = set()
            self.docs[nm] = self.doc(nm, self.order[:i])

    def written(self, nm, rev=None, lora=None):
        """One of the ways to name a model."""
        rng = self.rng
        plain = not set(nm + (lora or "")) & set("@+") and nm not in ("union", "base")
        if plain and rng.random() < 0.6:
            return nm + (f"@{rev}" if rev else "") + (f"+{lora}" if lora else "")
        d = dict(model=dict(path=nm))
        if rev:
            d["model"]["revision"] = rev
        elif plain and rng.random() < 0.3:
            d["model"] = nm
        if lora:
            d["lora"] = lora if rng.random() < 0.5 and not set(lora) & set("@") else dict(path=lora)
        if rng.random() < 0.2:
            d["override_architecture"] = None
        return d

    def pick(self, nm, before, p=0.6, lora=True):
        rng = self.rng
        if before and rng.random() < p:
            b = rng.choice(before)
            self.uses[nm].add(b)
        else:
            b = rng.choice(self.src)
        lo = self.ad if lora and rng.random() < 0.1 else None
        return self.written(b, lora=lo)

    def param(self):
        rng = self.rng
        v = lambda: round(rng.uniform(0.1, 1), 2)
        r = rng.random()
        if r < 0.4:
            return v()
        if r < 0.6:
            return [v(), v()]
        return [dict(filter=rng.choice(["mlp", "self_attn", "norm", rng.choice(self.names)]), value=v()), dict(value=v())]

    def doc(self, nm, before):
        rng = self.rng
        m = rng.choice(["linear", "linear", "task_arithmetic", "slerp", "passthrough", "ties"])
        d = dict(merge_method=m)
        r = rng.random()
        if m == "linear":
            ms = [dict(model=self.pick(nm, before), parameters=dict(weight=self.param())) for _ in range(rng.randint(1, 3))]
            if r < 0.5:
                d["models"] = ms
            elif r < 0.8:
                d["slices"] = [dict(sources=[dict(x, layer_range=[0, self.layers]) for x in ms])]
            else:
                d["modules"] = dict(default=dict(slices=[dict(sources=[dict(x, layer_range=[0, self.layers]) for x in ms])]))
        elif m in ("task_arithmetic", "ties"):
            d["base_model"] = self.pick(nm, before)
            d["models"] = [dict(model=self.pick(nm, before), parameters=dict(weight=self.param())) for _ in range(rng.randint(1, 2))]
            if m == "ties":
                d["parameters"] = dict(density=0.5)
        elif m == "slerp":
            d["base_model"] = self.pick(nm, before, lora=False)
            other = self.pick(nm, before, lora=False)
            if path_of(other) == path_of(d["base_model"]):
                other = self.written([s for s in self.src if s != path_of(d["base_model"])][0])
            d["slices"] = [dict(sources=[dict(model=x, layer_range=[0, self.layers]) for x in (d["base_model"], other)])]
            if rng.random() < 0.5:
                d["slices"][0]["base_model"] = d["base_model"]
            d["parameters"] = dict(t=self.param())
        else:
            d["slices"] = [dict(sources=[dict(model=self.pick(nm, before), layer_range=[i, i + 1])]) for i in range(self.layers)]
        if rng.random() < 0.7:
            d["dtype"] = rng.choice(["float32", "float32", "bfloat16"])
        if self.tok and m != "passthrough" and rng.random() < 0.7:
            src = rng.choice(["union", "base", "ref", "ref"])
            if src == "ref":
                # must be a model of this merge
                src = rng.choice(list(models_of(d)))
                src = copy.deepcopy(src)
                lo = src.get("lora") if isinstance(src, dict) else ("+" in src)
                if lo:
                    src = "union"
            if rng.random() < 0.4:
                d["tokenizer_source"] = src
            else:
                d["tokenizer"] = dict(source=src)
                if rng.random() < 0.7:
                    one = copy.deepcopy(rng.choice(list(models_of(d))))
                    # (a directory name that is also a token or a parameter is fine)
                    d["tokenizer"]["tokens"] = {rng.choice(["w0", "w3", "w4"]): dict(source=rng.choice([one, dict(kind="model_token", model=one, token="w1"), dict(kind="zero")]))}
        return d

    def text(self):
        out = []
        items = [(n, self.docs[n]) for n in self.order]
        self.rng.shuffle(items)
        for n, d in items:
            d = dict(d)
            if n is not None:
                d = {"name": n, **d} if self.rng.random() < 0.5 else {**d, "name": n}
            out.append(yaml.safe_dump(json.loads(json.dumps(d)), sort_keys=False, allow_unicode=True))
        return ("---\n" if self.rng.random() < 0.5 else "") + "---\n".join(out)

    def live(self):
        return self.order


def path_of(x):
    if isinstance(x, str):
        return x.split("+")[0].split("@")[0]
    m = x["model"]
    return m.split("@")[0] if isinstance(m, str) else m["path"]


def models_of(d):
    if d.get("base_model") is not None:
        yield d["base_model"]
    for s in d.get("models", []):
        yield s["model"]
    sl = list(d.get("slices", []))
    for m in d.get("modules", {}).values():
        sl += m.get("slices", [])
    for s in sl:
        for x in s["sources"]:
            yield x["model"]


def resolve(d, names, where):
    """The same merge written by hand: wherever a model may be named, the name stands for its output directory."""

    def ref(x):
        p = path_of(x)
        if p not in names:
            return x
        if isinstance(x, str):
            lo = x.split("+")[1] if "+" in x else None
            return dict(model=dict(path=where(p)), **(dict(lora=lo) if lo else {}))
        return dict(x, model=dict(path=where(p)))

    def sl(s):
        s = dict(s, sources=[dict(x, model=ref(x["model"])) for x in s["sources"]])
        if "base_model" in s:
            s["base_model"] = ref(s["base_model"])
        return s

    d = copy.deepcopy(d)
    if "base_model" in d:
        d["base_model"] = ref(d["base_model"])
    if "models" in d:
        d["models"] = [dict(x, model=ref(x["model"])) for x in d["models"]]
    if "slices" in d:
        d["slices"] = [sl(s) for s in d["slices"]]
    for m in d.get("modules", {}).values():
        m["slices"] = [sl(s) for s in m["slices"]]
    src = lambda x: x if x in ("union", "base") else ref(x)
    if "tokenizer_source" in d:
        d["tokenizer_source"] = src(d["tokenizer_source"])
    if "tokenizer" in d:
        d["tokenizer"]["source"] = src(d["tokenizer"]["source"])
        for t in d["tokenizer"].get("tokens", {}).values():
            s = t["source"]
            if isinstance(s, dict) and s.get("kind") == "model_token":
                s["model"] = ref(s["model"])
            elif not (isinstance(s, dict) and s.get("kind") == "zero"):
                t["source"] = ref(s)
    return d


def by_hand(ctx, f, opts):
    """Run each recipe on its own, in dependency order -> {name: contents}."""
    where = lambda n: ctx.path("hand", f"d{f.order.index(n)}")
    res = {}
    for n in f.order:
        c = resolve(f.docs[n], set(f.names), where)
        run_merge(MergeConfiguration.model_validate(c), where(n), MergeOptions(**opts))
        res[n] = contents(where(n))
    return res


def contents(d):
    """What a user gets: weights, config, tokenizer."""
    ext = "safetensors" if any(x.endswith(".safetensors") for x in os.listdir(d)) else "bin"
    w = read_checkpoint(d, ext)[0]
    js = {}
    for x in sorted(os.listdir(d)):
        if x.endswith(".json") and "index" not in x:
            with open(os.path.join(d, x)) as fp:
                js[x] = json.load(fp)
    js.get("config.json", {}).pop("_name_or_path", None)
    return w, js, {x for x in os.listdir(d) if x in ("README.md", "mergekit_config.yml")}


def equal(ctx, key, got, want, what):
    gw, gj, gx = got
    ww, wj, wx = want
    ctx.ok(set(gw) == set(ww), key, lambda: f"{what}: weights {sorted(set(gw) ^ set(ww))[:4]}", stop=True)
    for k in ww:
        ctx.event("weight-compared")
        ctx.ok(gw[k].dtype == ww[k].dtype and torch.equal(gw[k], ww[k]), key, lambda: f"{what}: {k} differs from the merge run by hand", stop=True)
    ctx.ok(set(gj) == set(wj), key + "-files", lambda: f"{what}: has {sorted(gj)}, by hand {sorted(wj)}", stop=True)
    for k in wj:
        ctx.ok(gj[k] == wj[k], key + "-files", lambda: f"{what}: {k} differs")
    ctx.ok(gx >= wx, key + "-files", lambda: f"{what}: {wx - gx} missing")


def invoke(args):
    r = CliRunner().invoke(main, args)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        return r.exception
    return None if r.exit_code == 0 else RuntimeError(f"exit {r.exit_code}: {r.output[-400:]}")


def setup(ctx, rng, **kw):
    f = Files(ctx, rng, **kw)
    os.makedirs(ctx.path("w"), exist_ok=True)
    with open(ctx.path("w.yml"), "w", encoding="utf-8") as fp:
        fp.write(f.text())
    inter = ctx.path("w", rng.choice(["inter", "in ter", "in@ter", "in+ter", "deep/inter"]))
    out = ctx.path("w", rng.choice(["final", "fi nal", "fin@l"]))
    opts = dict(quiet=True, copy_tokenizer=f.tok or rng.random() < 0.5, lora_merge_cache=ctx.path("cache"))
    if rng.random() < 0.3:
        opts["out_shard_size"] = rng.choice([1, 60])
    if rng.random() < 0.15:
        opts["safe_serialization"] = False
    if rng.random() < 0.2:
        opts["async_write"] = True
    args = [ctx.path("w.yml"), "-I", inter, "--quiet", "--lora-merge-cache", opts["lora_merge_cache"]]
    args.append("--copy-tokenizer" if opts["copy_tokenizer"] else "--no-copy-tokenizer")
    if "out_shard_size" in opts:
        args += ["--out-shard-size", str(opts["out_shard_size"])]
    if opts.get("safe_serialization") is False:
        args.append("--no-safe-serialization")
    if opts.get("async_write"):
        args.append("--async-write")
    if f.final:
        args += ["--out-path", out]
    dirs = {n: (os.path.join(inter, n) if n is not None else out) for n in f.order}
    # a merge called like a parent directory of another one, or like a file of it, would be the user's mistake
    ds = sorted(os.path.normpath(d) for d in dirs.values())
    if any(b.startswith(a + os.sep) for a in ds for b in ds if a != b):
        raise Skip()
    ctx.describe(dict(file=open(ctx.path("w.yml"), encoding="utf-8").read(), args=args[1:]))
    return f, args, dirs, opts


def runs(log, dirs):
    """{name: [position of the first write of each config.json]}, {name: last write}, first write, from the log of file operations."""
    first, last, done = {}, {}, {}
    for n, d in dirs.items():
        d = os.path.abspath(d)
        for i, (kind, *ps) in enumerate(log):
            if kind in ("write", "rename") and any(p.startswith(d + os.sep) for p in ps):
                first.setdefault(n, i)
                last[n] = i
            if (kind == "rename" and ps[-1] == os.path.join(d, "config.json")) or (kind == "write" and ps[0] == os.path.join(d, "config.json")):
                done.setdefault(n, []).append(i)
    return first, last, done


def wl_pipeline(ctx, rng):
    f, args, dirs, opts = setup(ctx, rng)
    want = by_hand(ctx, f, opts)
    held = {p: contents(p)[0] for p in f.src}
    e = watched(ctx.path("w"), lambda: invoke(args))
    if e is not None:
        ctx.fail("refused", f"{type(e).__name__}: {str(e)[:400]}", stop=True)
    log = WATCH["log"]
    first, last, done = runs(log, dirs)
    for n in f.order:
        ctx.event("merge-run")
        # a writer that opens the file in place and one that moves it there are both fine, twice is not
        k = len({i for i in done.get(n, [])})
        ctx.ok(k == 1, "exactly-once", lambda: f"{n!r} was completed {k} times")
        for b in f.uses[n]:
            ctx.event("dependency")
            ctx.ok(last[b] < first[n], "dependency-first", lambda: f"{n!r} was begun (operation {first[n]}) before {b!r}, which it uses, was finished ({last[b]})")
    extra = {p for kind, *ps in log if kind in ("write", "rename") for p in ps} - {os.devnull}
    stray = [p for p in extra if not any(p.startswith(os.path.abspath(d) + os.sep) for d in dirs.values())]
    ctx.ok(not stray, "stray-output", lambda: f"{stray[:4]}")
    for n in f.order:
        equal(ctx, "as-by-hand", contents(dirs[n]), want[n], repr(n))
    for p in f.src:
        now = contents(p)[0]
        ctx.ok(all(torch.equal(now[k], held[p][k]) for k in held[p]), "source-changed", p)
    seq = tuple(sorted(f.order, key=lambda n: first.get(n, -1), ))
    ctx.state(len(f.order), tuple(f.order.index(n) for n in seq))
    for n in f.names:
        ctx.event("named")
    ctx.nontrivial(len(f.order), tuple(sorted((str(k), tuple(sorted(v))) for k, v in f.uses.items())))


def snapshot(d):
    res = {}
    for r, _, fs in os.walk(d):
        for x in fs:
            p = os.path.join(r, x)
            st = os.stat(p)
            res[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_ino, st.st_size)
    return res


def wl_lazy(ctx, rng):
    """What is finished is used as it is; what is missing is made; --no-lazy makes everything again."""
    f, args, dirs, opts = setup(ctx, rng)
    e = invoke(args)
    if e is not None:
        ctx.fail("refused", f"{type(e).__name__}: {str(e)[:400]}", stop=True)
    for step in range(2):
        gone, how = set(), {}
        snap = {n: snapshot(dirs[n]) for n in f.order}
        mode = rng.choice(["untouched", "some", "some", "some", "no-lazy"])
        if mode == "some":
            for n in rng.sample(f.order, rng.randint(1, len(f.order))):
                d = dirs[n]
                k = rng.choice(["directory", "config", "weights"])
                if k == "directory":
                    shutil.rmtree(d)
                elif k == "config":
                    os.remove(os.path.join(d, "config.json"))
                else:
                    for x in os.listdir(d):
                        if "model" in x and (".safetensors" in x or ".bin" in x):
                            os.remove(os.path.join(d, x))
                gone.add(n)
                how[n] = k
                ctx.event("removed:" + k)
        elif mode == "no-lazy":
            gone = set(f.order)
        # a finished intermediate that is not what its recipe gives: used as it is by what is made now
        swapped = None
        keep = [n for n in f.names if n not in gone]
        if mode == "some" and keep and rng.random() < 0.6:
            swapped = rng.choice(keep)
            w = contents(dirs[swapped])[0]
            for x in os.listdir(dirs[swapped]):
                if "model" in x and (".safetensors" in x or ".bin" in x):
                    os.remove(os.path.join(dirs[swapped], x))
            cfg = json.load(open(os.path.join(dirs[swapped], "config.json")))
            write_ckpt(dirs[swapped], cfg, {k: v * 2 + 1 for k, v in w.items()}, "bin" if opts.get("safe_serialization") is False else "st", None, rng)
            snap[swapped] = snapshot(dirs[swapped])
            ctx.event("swapped")
        more = ["--no-lazy"] if mode == "no-lazy" else rng.choice([[], ["--lazy"]])
        e = watched(ctx.path("w"), lambda: invoke(args + more))
        if e is not None:
            ctx.fail("rerun-refused", f"{mode} {how}: {type(e).__name__}: {str(e)[:400]}", stop=True)
        _, _, done = runs(WATCH["log"], dirs)
        ctx.event("mode:" + mode)
        where = lambda n: dirs[n]
        for n in f.order:
            if n in gone:
                ctx.ok(len(done.get(n, [])) == 1, "missing-made", lambda: f"{mode}: {n!r} ({how.get(n)}) was completed {len(done.get(n, []))} times")
                hand = ctx.path("hand", f"s{step}-{f.order.index(n)}")
                c = resolve(f.docs[n], set(f.names), where)
                run_merge(MergeConfiguration.model_validate(c), hand, MergeOptions(**opts))
                equal(ctx, "redone-as-by-hand", contents(dirs[n]), contents(hand), f"{mode} {n!r}")
            else:
                ctx.ok(snapshot(dirs[n]) == snap[n], "finished-untouched", lambda: f"{mode} {how}: files of the finished {n!r} changed")
                ctx.event("kept")
    ctx.nontrivial(len(f.order), mode, tuple(sorted(how.values())))


def wl_crash(ctx, rng):
    """Stopped at any file operation, the next run completes everything, and takes nothing unfinished for finished."""
    f, args, dirs, opts = setup(ctx, rng, most=3)
    want = by_hand(ctx, f, opts)
    # how many operations a whole run makes
    e = watched(ctx.path("w"), lambda: invoke(args))
    if e is not None:
        ctx.fail("refused", f"{type(e).__name__}: {str(e)[:400]}", stop=True)
    total = len([1 for k, *_ in WATCH["log"] if k != "read"])
    redo = rng.random() < 0.3  # stopped while everything was being made again
    points = sorted(rng.sample(range(total), min(total, 6 if ctx.tier == "quick" else 25)))
    if rng.random() < 0.5:
        points[-1:] = [total - 1 - rng.randrange(min(total, 6))]
    for at in points:
        if not redo:
            for d in dirs.values():
                shutil.rmtree(d, ignore_errors=True)
        how = rng.choice(["kill", "kill", "torn", "error", "interrupt"])
        count = [0]
        exc = OSError(28, "No space left on device") if how == "error" else KeyboardInterrupt()
        hit = []

        def act(kind, paths):
            if kind == "read":
                return
            count[0] += 1
            if count[0] == at + 1:
                hit.append((kind, os.path.relpath(paths[-1], ctx.path("w"))))
                if how in ("kill", "torn"):
                    if how == "torn" and kind == "write":
                        WATCH["on"] = False
                        fd = os.open(paths[0], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                        os.write(fd, b"{")
                        os.close(fd)
                    os.kill(os.getpid(), signal.SIGKILL)
                # (an error while copying the tokenizer is logged and, by design, not fatal)
                raise KeyboardInterrupt() if "tokenizer" in os.path.basename(paths[-1]) else exc

        more = ["--no-lazy"] if redo else []
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                err = watched(ctx.path("w"), lambda: invoke(args + more), act)
                code = 0 if err is None and not hit else 3
            except BaseException:
                code = 3
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        stopped = os.WIFSIGNALED(st)
        if not stopped and os.WEXITSTATUS(st) == 0:
            ctx.event("not-reached")
            continue
        ctx.event("stopped:" + how)
        e = invoke(args)
        if e is not None:
            ctx.fail("resume-refused", f"stopped ({how}) at operation {at} of {total}{' of redoing' if redo else ''}: {type(e).__name__}: {str(e)[:400]}", stop=True)
        for n in f.order:
            try:
                got = contents(dirs[n])
            except Exception as x:
                ctx.fail("resumed-unreadable", f"stopped ({how}) at operation {at} of {total}: {n!r}: {type(x).__name__}: {str(x)[:300]}", stop=True)
            equal(ctx, "resumed", got, want[n], f"stopped ({how}) at operation {at} of {total}{' of redoing' if redo else ''}: {n!r}")
        ctx.event("resumed")
        ctx.state(how, redo, at * 20 // total)
    ctx.nontrivial(len(f.order), total, tuple(points), redo)


def wl_refuse(ctx, rng):
    """Files that cannot be run are refused before anything is written."""
    f, args, dirs, opts = setup(ctx, rng)
    kind = rng.choice(["cycle", "cycle", "duplicate", "unnamed-twice", "no-out-path", "invalid"])
    docs = [dict(d, **({"name": n} if n is not None else {})) for n, d in f.docs.items()]
    named = [d for d in docs if "name" in d]
    if kind == "cycle":
        k = rng.randint(1, len(named))
        ring = rng.sample(named, k)
        for i, d in enumerate(ring):
            d = ring[i]
            use = dict(model=dict(path=ring[(i + 1) % k]["name"]))
            nm = d["name"]
            for key in list(d):
                del d[key]
            d.update(name=nm, merge_method="linear", models=[dict(model=use, parameters=dict(weight=1)), dict(model=f.src[0], parameters=dict(weight=1))])
            if rng.random() < 0.4:
                d.update(merge_method="task_arithmetic", base_model=use, models=[dict(model=f.src[0], parameters=dict(weight=1))])
    elif kind == "duplicate":
        docs.append(dict(rng.choice(named)))
    elif kind == "unnamed-twice":
        docs = [d for d in docs if "name" in d] + [dict(merge_method="linear", models=[dict(model=f.src[i], parameters=dict(weight=1))]) for i in (0, 1)]
    elif kind == "no-out-path":
        if not f.final:
            docs.append(dict(merge_method="linear", models=[dict(model=f.src[0], parameters=dict(weight=1))]))
    else:
        d = rng.choice(docs)
        bad = rng.choice(["models", "method", "both", "tokenizer"])
        if bad == "models":
            for k in ("models", "slices", "modules"):
                d.pop(k, None)
        elif bad == "method":
            d.pop("merge_method")
        elif bad == "both":
            d.update(models=[dict(model=f.src[0])], slices=[dict(sources=[dict(model=f.src[0], layer_range=[0, 1])])])
        else:
            d.update(tokenizer_source="union", tokenizer=dict(source="union"))
    rng.shuffle(docs)
    with open(ctx.path("w.yml"), "w", encoding="utf-8") as fp:
        fp.write("---\n".join(yaml.safe_dump(json.loads(json.dumps(d)), allow_unicode=True) for d in docs))
    if kind == "no-out-path" and "--out-path" in args:
        i = args.index("--out-path")
        args = args[:i] + args[i + 2 :]
    elif kind == "unnamed-twice" and "--out-path" not in args:
        args += ["--out-path", ctx.path("w", "final")]
    e = watched(ctx.path("w"), lambda: invoke(args))
    ctx.ok(e is not None, "accepted", lambda: f"{kind}: {open(ctx.path('w.yml')).read()[:1500]}")
    wrote = [x for x in WATCH["log"] if x[0] in ("write", "rename")]
    ctx.ok(not wrote, "written-before-refusal", lambda: f"{kind}: {wrote[:4]}")
    ctx.event("refused:" + kind)
    ctx.nontrivial(kind, len(docs), type(e).__name__, rng.random())


CHECK = Check(
    prop="P22",
    level="exploration",
    rule="random files of 1 to 6 merges (32 names, many equal to words with another meaning) that use each other wherever a model can be named, documents in random "
    "order; file operations logged through audit hooks: every output completed exactly once and begun after the outputs it uses; results compared with the recipes run "
    "one by one by hand; runs stopped at sampled file operations (SIGKILL, torn file, disk full, interrupt) and resumed; finished outputs removed, cut or replaced between "
    "runs; files that must be refused; distinct by dependency graph, crash point, or refusal",
    assumptions=["a crash is a stop between two file operations of the interpreter, or in the middle of the first write to a file; what the safetensors library writes is one step"],
    workloads=[
        Workload("pipeline", wl_pipeline, 240, 6000, require=["merge-run", "dependency", "weight-compared"]),
        Workload("lazy", wl_lazy, 120, 3000, require=["mode:untouched", "mode:some", "mode:no-lazy", "removed:config", "removed:weights", "removed:directory", "kept", "swapped"]),
        Workload("crash", wl_crash, 70, 1200, require=["stopped:kill", "stopped:torn", "stopped:error", "stopped:interrupt", "resumed"]),
        Workload("refuse", wl_refuse, 150, 2500, require=["refused:cycle", "refused:duplicate", "refused:unnamed-twice", "refused:no-out-path", "refused:invalid"]),
    ],
)
