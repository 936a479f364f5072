"""P25: tools leave what they were given as it was, and write only where they were told to."""

import hashlib
import json
import os
import shutil
import stat
import sys
import tempfile

import safetensors.torch
import torch
import yaml
from click.testing import CliRunner

from vk.archs import make
from vk.core import Check, Skip, Workload
from vk.lora import write_adapter
from vk.models import llama_config, llama_shapes, rand_tensors, write_ckpt
from vk.recipes import recipe
from vk.toks import CHARS, SPECIAL, write_tokenizer

VOCAB = SPECIAL + CHARS + [f"w{i}" for i in range(12)]

# ---- monitor: mutations of the file system as the interpreter reports them -------------------------------------------
W = dict(on=False, allow=(), bad=[], seen=0, stop=None)
TWO = ("os.rename", "os.link", "os.symlink", "shutil.move")
ONE = ("os.remove", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.setxattr", "shutil.rmtree")


def hook(event, args):
    if not W["on"]:
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, int) or not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return
        paths = [p]
    elif event in ONE:
        if any(isinstance(a, int) and a >= 0 for a in args[1:]) and event in ("os.remove", "os.rmdir", "os.mkdir"):
            # relative to an open directory (shutil.rmtree, which reports its own root)
            if event != "os.mkdir" and args[1] >= 0:
                return
            if event == "os.mkdir" and len(args) > 2 and args[2] >= 0:
                return
        paths = args[:1]
    elif event in TWO:
        # a link's target may be anywhere; what is moved away from must be ours too
        paths = args[:2] if event in ("os.rename", "shutil.move") else args[1:2]
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "socket.connect"):
        W["bad"].append((event, str(args)[:120]))
        return
    else:
        return
    for p in paths:
        if not isinstance(p, (str, bytes, os.PathLike)):
            continue
        p = os.path.abspath(os.fsdecode(p))
        W["seen"] += 1
        if "__pycache__" in p or p.startswith(("/dev/", "/proc/")):
            continue
        if not any(p == a or p.startswith(a + os.sep) for a in W["allow"]):
            W["bad"].append((event, p))
    if W["stop"] is not None and any(str(p).startswith(W["allow"][0]) for p in paths if isinstance(p, (str, os.PathLike))):
        W["stop"][0] -= 1
        if W["stop"][0] < 0:
            exc = W["stop"][1]
            W["stop"] = None
            raise exc


sys.addaudithook(hook)


def tree(root):
    """path -> everything about it that a tool could change"""
    out = {}
    for d, subs, files in os.walk(root):
        for n in [""] + subs + files:
            p = os.path.join(d, n) if n else d
            st = os.lstat(p)
            k = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[k] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[k] = ("dir", stat.S_IMODE(st.st_mode), st.st_mtime_ns)
            else:
                with open(p, "rb") as f:
                    out[k] = ("file", stat.S_IMODE(st.st_mode), st.st_size, st.st_mtime_ns, st.st_ino, st.st_nlink, hashlib.sha256(f.read()).hexdigest())
    return out


def changes(a, b):
    return [(k, "new" if k not in a else "gone" if k not in b else "changed") for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


# ---- the tools -------------------------------------------------------------------------------------------------------
def dump(ctx, name, doc, many=False):
    os.makedirs(ctx.path("cfg"), exist_ok=True)
    p = ctx.path("cfg", name)
    with open(p, "w", encoding="utf-8") as f:
        (yaml.safe_dump_all if many else yaml.safe_dump)(doc, f, sort_keys=False, allow_unicode=True)
    return p


def small(ctx, rng, name, tok=True, **kw):
    cfg = llama_config(layers=rng.choice([1, 2]) if "layers" not in kw else kw["layers"], hidden=8, inter=6, heads=2, vocab=len(VOCAB))
    t = rand_tensors(llama_shapes(cfg), rng.randrange(1 << 30))
    p = ctx.path("in", name)
    write_ckpt(p, cfg, t, rng.choice(["st", "st", "bin"]), rng.choice([None, None, 2]), rng)
    if tok:
        write_tokenizer(p, VOCAB, kind="WordLevel", chat_template=rng.choice([None, "{{ messages }}"]))
    return p, t


def t_yaml(ctx, rng):
    from mergekit.scripts.run_yaml import main

    c, info = recipe(ctx, rng, randomised=True, prefix="in/")
    ex = []
    others = [e for e in c.get("models") or [] if e["model"] != c.get("base_model")]
    if rng.random() < 0.35 and others:
        e = rng.choice(others)
        b = e["model"]
        from vk.ckpt import read_checkpoint

        ext = "safetensors" if any(f.endswith(".safetensors") for f in os.listdir(b)) else "bin"
        write_adapter(rng, ctx.path("in", "ad"), b, read_checkpoint(b, ext)[0], ["q_proj", "up_proj"], r=1)
        e["model"] = f"{b}+{ctx.path('in', 'ad')}"
        ctx.event("adapter")
        ex = ["--lora-merge-cache", ctx.path("cache")]
    if rng.random() < 0.2:
        c["chat_template"] = rng.choice(["auto", "chatml", "{% for m in messages %}{{ m.content }}{% endfor %}"])
    return main, [dump(ctx, "c.yml", c), ctx.path("out"), *ex], True


def t_multi(ctx, rng):
    from mergekit.scripts.multimerge import main

    a, _ = small(ctx, rng, "a", layers=1)
    b, _ = small(ctx, rng, "b", layers=1)
    lin = lambda x, y: dict(merge_method="linear", models=[dict(model=m, parameters=dict(weight=0.5)) for m in (x, y)])
    docs = [dict(name="one", **lin(a, b)), lin("one", b)]
    if rng.random() < 0.5:
        docs[1]["tokenizer_source"] = "union"
    rng.shuffle(docs)
    return main, [dump(ctx, "m.yml", docs, True), "--out-path", ctx.path("out"), "-I", ctx.path("cache")], True


def t_moe(ctx, rng):
    from mergekit.scripts.moe import main

    ps = [small(ctx, rng, f"m{i}", layers=1)[0] for i in range(2)]
    gate = rng.choice(["cheap_embed", "random", "hidden", "hidden"])
    c = dict(base_model=ps[0], gate_mode=gate, architecture=rng.choice(["mixtral", "deepseek"]),
             experts=[dict(source_model=ps[0], positive_prompts=["a b"]), dict(source_model=ps[1], positive_prompts=["w1 w2 c"])])
    if rng.random() < 0.3:
        c["experts"][1]["noise_scale"] = 0.1
    return main, [dump(ctx, "moe.yml", c), ctx.path("out")], True


def t_extract(ctx, rng):
    from mergekit.scripts.extract_lora import main

    b = make("llama", seed=rng.randrange(1 << 20), layers=1)
    b.save_pretrained(ctx.path("in", "base"))
    with torch.no_grad():
        for p in b.parameters():
            p.add_(torch.randn_like(p) * 0.05)
    b.save_pretrained(ctx.path("in", "ft"))
    return main, ["--model", ctx.path("in", "ft"), "--base-model", ctx.path("in", "base"), "--out-path", ctx.path("out"), "--max-rank", str(rng.choice([1, 4]))], True


def t_surgeon(ctx, rng):
    from mergekit.scripts.tokensurgeon import main

    b, _ = small(ctx, rng, "base", layers=1)
    d, _ = small(ctx, rng, "donor", layers=1, tok=False)
    write_tokenizer(d, SPECIAL + CHARS + [f"v{i}" for i in range(6)] + [f"w{i}" for i in range(6)], kind="WordLevel")
    return main, [b, d, ctx.path("out"), "-a", rng.choice(["mean", "zero", "omp", "common_interpolation", "subword", "randn"]), "-k", "3"], True


def t_pytorch(ctx, rng):
    from mergekit.scripts.merge_raw_pytorch import main

    os.makedirs(ctx.path("in"))
    ps = []
    for i in range(3):
        t = {f"l{j}.w": torch.randn(4, 3) for j in range(4)}
        p = ctx.path("in", f"m{i}" + rng.choice([".pt", ".safetensors", ".bin"]))
        safetensors.torch.save_file(t, p) if p.endswith("s") else torch.save(t, p)
        ps.append(p)
    c = dict(merge_method="ties", base_model=ps[0], parameters=dict(lambda_=1.0), models=[dict(model=p, parameters=dict(weight=0.5, density=0.6)) for p in ps[1:]])
    return main, [dump(ctx, "r.yml", c), ctx.path("out")], True


def t_fill(ctx, rng):
    from mergekit.scripts.fill_missing_params import main

    _, t = small(ctx, rng, "sub", tok=False)
    st = {k: v + 1 for k, v in t.items()}
    for p, sd in (("sub", st), ("base", {**{"language_model." + k: v for k, v in t.items()}, "vision.w": torch.ones(3, 3)})):
        shutil.rmtree(ctx.path("in", p), ignore_errors=True)
        write_ckpt(ctx.path("in", p), llama_config(layers=1), sd, "st", rng.choice([None, 2]), rng)
    return main, [ctx.path("in", "base"), ctx.path("in", "sub"), "--output_dir", ctx.path("out")], False


def t_legacy(ctx, rng):
    from mergekit.scripts.legacy import main

    a, _ = small(ctx, rng, "a", layers=1)
    b, _ = small(ctx, rng, "b", layers=1)
    return main, [ctx.path("out"), "--merge", a, "--merge", b, "--method", "linear", "--weight", "0.5"], True


def t_shuffle(ctx, rng):
    from mergekit.scripts.layershuffle import main

    a, _ = small(ctx, rng, "a", layers=2)
    b, _ = small(ctx, rng, "b", layers=2)
    ex = ["--write-yaml", ctx.path("cache", "y.yml")] if rng.random() < 0.5 else []
    os.makedirs(ctx.path("cache"), exist_ok=True)
    return main, [ctx.path("out"), "-m", a, "-m", b, "-w", "0.5", "-w", "0.5", *ex], True


def t_bak(ctx, rng):
    from mergekit.scripts.bakllama import main

    a, _ = small(ctx, rng, "a", layers=2)
    b, _ = small(ctx, rng, "b", layers=2)
    c = dict(layer_slices=[dict(model=a, start=0, end=2), dict(model=b, start=rng.choice([0, 1]), end=2, scale=0.5)])
    return main, [dump(ctx, "bak.yml", c), ctx.path("out"), *(["--clone-tensors"] if rng.random() < 0.5 else [])], False


TOOLS = dict(yaml=t_yaml, multi=t_multi, moe=t_moe, extract=t_extract, surgeon=t_surgeon, pytorch=t_pytorch, fill=t_fill, legacy=t_legacy, shuffle=t_shuffle, bakllama=t_bak)


def break_input(ctx, rng):
    """Damage one of the inputs, so that the tool fails somewhere on its way."""
    files = [os.path.join(d, f) for d, _, fs in os.walk(ctx.path("in")) for f in fs]
    w = [f for f in files if f.endswith((".safetensors", ".bin", ".pt"))]
    kind = rng.choice(["truncated", "tensor-missing", "config", "tokenizer", "garbage"])
    pick = lambda l: rng.choice(sorted(l)) if l else None
    if kind == "tensor-missing":
        f = pick([x for x in w if x.endswith(".safetensors")])
        if not f:
            return None
        t = safetensors.torch.load_file(f)
        del t[rng.choice(sorted(t))]
        safetensors.torch.save_file(t, f, {"format": "pt"})
    elif kind in ("truncated", "garbage"):
        f = pick(w)
        data = open(f, "rb").read()
        open(f, "wb").write(data[: len(data) // 2] if kind == "truncated" else bytes(rng.randrange(256) for _ in range(200)))
    else:
        f = pick([x for x in files if os.path.basename(x) == ("config.json" if kind == "config" else "tokenizer.json")])
        if not f:
            return None
        open(f, "w").write("{" if rng.random() < 0.5 else "{}")
    return kind


def links(ctx, rng):
    """Lay the inputs out as the hub's cache does: files are links to a store."""
    store = ctx.path("store")
    os.makedirs(store)
    for d, _, fs in os.walk(ctx.path("in")):
        for i, f in enumerate(fs):
            p = os.path.join(d, f)
            q = os.path.join(store, hashlib.sha256(p.encode()).hexdigest())
            shutil.move(p, q)
            if rng.random() < 0.5:
                os.symlink(q, p)
            else:
                os.link(q, p)


def wl_contained(ctx, rng):
    tool = rng.choice(sorted(TOOLS) + ["yaml", "yaml", "moe", "surgeon"])
    main, args, merge_opts = TOOLS[tool](ctx, rng)
    fault = rng.choice([None, None, "input", "stop", "stop", "interrupt"])
    if fault == "input":
        fault = break_input(ctx, rng)
    if rng.random() < 0.3:
        links(ctx, rng)
        ctx.event("linked-inputs")
    opts = []
    if merge_opts:
        for o, pr in (("--lazy-unpickle", 0.3), ("--no-safe-serialization", 0.2), ("--async-write", 0.25), ("--clone-tensors", 0.2), ("--low-cpu-memory", 0.15), ("--no-copy-tokenizer", 0.1),
                      ("--no-write-model-card", 0.1), ("--trust-remote-code", 0.1), ("--allow-crimes", 0.1)):
            if rng.random() < pr and not (tool == "multi" and o == "--no-copy-tokenizer"):
                # (merges of a file may need the tokenizers of others)
                opts.append(o)
        if rng.random() < 0.4:
            opts += ["--out-shard-size", str(rng.choice([50, 300, 2000]))]
    for d in ("cwd", "home", "tmp"):
        os.makedirs(ctx.path(d))
    # an output directory that is already in use
    pre = rng.choice(["absent", "absent", "notes", "older"])
    keep = {}
    if pre != "absent":
        os.makedirs(ctx.path("out", "mine"))
        for f in ("notes.txt", "mine/data.bin", "mine/model.safetensors"):
            with open(ctx.path("out", f), "w") as fh:
                fh.write(f)
    old = dict(os.environ)
    cwd = os.getcwd()
    td = tempfile.tempdir
    allow = [ctx.path("out"), ctx.path("cache"), ctx.path("tmp")]
    ctx.describe(dict(tool=tool, args=args[1:], opts=opts, fault=fault, pre=pre))
    try:
        os.chdir(ctx.path("cwd"))
        os.environ.update(HOME=ctx.path("home"), TMPDIR=ctx.path("tmp"))
        tempfile.tempdir = None
        if pre == "older":
            r = CliRunner().invoke(main, args + opts)
        given = {d: tree(ctx.path(d)) for d in ("in", "cfg", "cwd", "home", "store") if os.path.exists(ctx.path(d))}
        keep = {k: v for k, v in tree(ctx.path("out")).items() if k == "notes.txt" or k.startswith("mine")} if pre != "absent" else {}
        W.update(on=True, allow=tuple(allow), bad=[], seen=0, stop=None)
        if fault == "stop":
            W["stop"] = [rng.randint(0, 12), OSError(28, "No space left on device")]
        elif fault == "interrupt":
            W["stop"] = [rng.randint(0, 12), KeyboardInterrupt()]
        try:
            res = CliRunner().invoke(main, args + opts)
        finally:
            W["on"] = False
    finally:
        os.chdir(cwd)
        for k in set(os.environ) - set(old):
            del os.environ[k]
        os.environ.update(old)
        tempfile.tempdir = td
    done = res.exit_code == 0
    what = lambda: f"{tool} {opts} fault {fault} out {pre}: "
    ctx.event(f"tool:{tool}" + (":done" if done else ":failed"))
    if W["seen"]:
        ctx.event("mutation-seen", W["seen"])
    if not done and fault is None:
        why = repr(res.exception)[:300]
        ctx.ok(False, "runs", lambda: what() + why)
    for d, before in given.items():
        after = tree(ctx.path(d))
        ctx.ok(not changes(before, after), {"in": "inputs", "store": "inputs", "cfg": "configuration", "cwd": "working-directory", "home": "home"}[d] + "-untouched",
               lambda: what() + f"{changes(before, after)[:5]}")
    ctx.ok(not W["bad"], "writes-elsewhere", lambda: what() + f"{W['bad'][:5]}")
    left = os.listdir(ctx.path("tmp"))
    ctx.ok(not left, "temporary-files-left", lambda: what() + f"{left[:5]}")
    if pre != "absent":
        now = tree(ctx.path("out"))
        lost = [k for k, v in keep.items() if now.get(k) != v]
        ctx.ok(not lost, "other-files-untouched", lambda: what() + f"{lost}")
        ctx.event("output-in-use")
    top = set(os.listdir(ctx.path("."))) - {"in", "cfg", "cwd", "home", "tmp", "out", "cache", "store"}
    ctx.ok(not top, "beside-the-output", lambda: what() + f"{top}")
    ctx.nontrivial(tool, fault, pre, tuple(opts), done, rng.random())


CHECK = Check(
    prop="P25",
    level="exploration",
    rule="ten command-line tools on generated inputs (plain files, symbolic and hard links as the hub's cache has them), with random options, fresh or used output directories, damaged "
    "inputs, disk-full errors and interrupts at sampled file operations; every mutation the interpreter reports is matched against the output, cache and temporary directories, and "
    "inputs, configuration, working and home directory are compared (content, mode, times, inode, links) before and after; distinct by tool, fault, options and output state",
    assumptions=["the output directory is not inside an input", "native code (safetensors) is observed by comparing the whole scratch tree, not outside of it"],
    workloads=[Workload("contained", wl_contained, 260, 5000, require=["tool:" + t + ":done" for t in TOOLS] + ["output-in-use", "linked-inputs", "mutation-seen", "adapter"])],
)
