"""P05: a failed or interrupted save is never reported as, or mistaken for, a finished one."""

import builtins
import errno
import os
import resource
import shutil
import signal
import sys
import threading

import safetensors.torch
import torch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from mergekit.io.tensor_writer import TensorWriter

from vk.ckpt import bits, gen_tensor
from vk.core import Check, Workload


def _settings(rng, n=None):
    n = n or rng.choice([1, 2, 4, 8, 16])
    items = [(f"model.layers.{i}.w", gen_tensor(rng, shape=rng.choice([(64, 9), (40,), (128, 16), (300, 7)]))) for i in range(n)]
    sizes = [t.numel() * t.element_size() for _, t in items]
    limit = rng.choice([-1, 1, max(sizes), sum(sizes) // 2 + 1, sum(sizes) // 4 + 1, 5 * 10**9])
    return dict(items=items, limit=limit, st=rng.random() < 0.6, use_async=rng.random() < 0.6, thr=rng.choice([1, 2, 4]),
                cm=rng.random() < 0.3, total=sum(sizes))


def _save(path, s):
    w = TensorWriter(path, max_shard_size=s["limit"], safe_serialization=s["st"], use_async=s["use_async"],
                     max_write_threads=s["thr"])
    if s["cm"]:
        with w:
            for nm, t in s["items"]:
                w.save_tensor(nm, t)
    else:
        for nm, t in s["items"]:
            w.save_tensor(nm, t)
        w.finalize()


def judge(ctx, path, s, returned, what):
    """Offline oracle: normal return => complete; loadable => complete."""
    want = {nm: bits(t) for nm, t in s["items"]}
    try:
        ld = LazyTensorLoader.from_disk(path, lazy_unpickle=False)
        got = set(ld.index.tensor_paths)
        ctx.event("loadable-after-fault")
    except Exception as e:
        got, ld = None, None
        ctx.event("unloadable-after-fault")
    desc = f"{what}; sync={not s['use_async']} st={s['st']} limit={s['limit']} n={len(want)}; files {sorted(os.listdir(path)) if os.path.isdir(path) else None}"
    if returned:
        ctx.ok(ld is not None, "silent-failure", f"saving returned normally but the result does not load: {desc}", stop=True)
    if ld is None:
        return
    key = "silent-failure" if returned else "partial-looks-complete"
    ctx.ok(got == set(want), key, f"checkpoint loads with {len(got)} of {len(want)} tensors: {desc}")
    for k in sorted(got & set(want)):
        try:
            ok = bits(ld.get_tensor(k)) == want[k]
        except Exception as e:
            ok = False
        if not ctx.ok(ok, key, f"tensor {k} of a loadable checkpoint is missing or wrong: {desc}"):
            break


def _older(ctx, rng, path):
    """A finished checkpoint left in the output directory by an earlier save."""
    s = _settings(rng)
    try:
        _save(path, s)
    except Exception as e:
        ctx.fail("setup", f"undisturbed save failed: {e!r}", stop=True)
    return s


def judge_reuse(ctx, path, s, old, returned, what):
    """What a loader finds is the new checkpoint or, before anything was published, the whole old one."""
    new = {nm: bits(t) for nm, t in s["items"]}
    prev = {nm: bits(t) for nm, t in old["items"]}
    desc = f"{what}; new: st={s['st']} limit={s['limit']} n={len(new)}; old: st={old['st']} limit={old['limit']} n={len(prev)}; files {sorted(os.listdir(path))}"
    try:
        ld = LazyTensorLoader.from_disk(path, lazy_unpickle=False)
        got = {k: bits(ld.get_tensor(k)) for k in ld.index.tensor_paths}
    except Exception as e:
        got = None
        ctx.event("unloadable-after-fault")
    if returned:
        ctx.ok(got == new, "silent-failure", f"saving returned normally but the directory does not load as what was saved: {desc}")
        return
    if got is None:
        return
    ctx.event("old-checkpoint-whole" if got == prev else "new-checkpoint-whole" if got == new else "mixture")
    ctx.ok(got in (new, prev), "partial-looks-complete",
           f"the directory loads as a checkpoint that is neither the old nor the new one: {desc}")


def wl_reuse_crash(ctx, rng):
    """An older checkpoint is in the directory; the process is killed, or a call fails, at the k-th file operation."""
    path = ctx.path("out")
    old = _older(ctx, rng, path)
    s = dict(old) if rng.random() < 0.5 else _settings(rng)
    if s["items"] is old["items"]:
        s["items"] = [(nm, gen_tensor(rng, shape=tuple(t.shape))) for nm, t in old["items"]]
    k = rng.randint(1, 6 + 3 * len(s["items"]))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            n = [0]
            lock = threading.Lock()

            def hook(event, args):
                if event not in _WATCH or not args:
                    return
                p = args[0]
                if not isinstance(p, str) or not p.startswith(path):
                    return
                with lock:
                    n[0] += 1
                    if n[0] == k:
                        os.write(w, f"K{event}".encode())
                        os._exit(9)

            sys.addaudithook(hook)
            _save(path, s)
            os.write(w, b"D")
        finally:
            os._exit(0)
    os.close(w)
    msg = b""
    while True:
        b = os.read(r, 100)
        if not b:
            break
        msg += b
    os.close(r)
    os.waitpid(pid, 0)
    msg = msg.decode()
    ctx.event("crashed" if msg.startswith("K") else "completed" if msg == "D" else "raised")
    judge_reuse(ctx, path, s, old, msg == "D", f"process killed at file operation {k} ({msg})")
    ctx.state(msg, s["st"], old["st"], tuple(sorted(os.listdir(path))))
    if msg.startswith("K"):
        # and a later retry succeeds
        if rng.random() < 0.5:
            _save(path, s)
            judge_reuse(ctx, path, s, old, True, "retry after a kill")
            ctx.event("retried")
        ctx.nontrivial("reuse", k, msg, s["limit"], s["st"], s["use_async"], old["limit"], old["st"], len(s["items"]))


def wl_call_fault(ctx, rng):
    """The k-th rename / open-for-write / serialise call fails."""
    s = _settings(rng)
    path = ctx.path("out")
    kind = rng.choice(["save", "save", "rename", "open", "any"])
    k = rng.choice([1, 1, 2, 3, 5, 8])
    exc = rng.choice([OSError(errno.ENOSPC, "No space left on device"), OSError(errno.EIO, "I/O error"),
                      PermissionError(errno.EACCES, "denied"), RuntimeError("serialisation failed"),
                      RuntimeError("Error while serializing: IoError(Os { code: 28, message: \"No space left on device\" })")])
    # how long the fault lasts: a single call or everything from then on
    sticky = rng.random() < 0.5
    lock = threading.Lock()
    n = [0]
    fired = [0]
    saved = []

    def hit(tag):
        if kind not in (tag, "any"):
            return False
        with lock:
            n[0] += 1
            f = n[0] == k or (sticky and n[0] >= k)
            fired[0] += f
            return f

    def wrap(mod, name, tag, sel=None):
        orig = getattr(mod, name)
        saved.append((mod, name, orig))

        def f(*a, **kw):
            if (sel is None or sel(*a, **kw)) and hit(tag):
                raise exc
            return orig(*a, **kw)

        setattr(mod, name, f)

    def wr(file, mode="r", *a, **kw):
        return isinstance(file, (str, os.PathLike)) and str(file).startswith(path) and any(c in mode for c in "wax+")

    try:
        wrap(safetensors.torch, "save_file", "save")
        wrap(torch, "save", "save")
        wrap(os, "rename", "rename")
        wrap(os, "replace", "rename")
        wrap(shutil, "move", "rename")
        wrap(builtins, "open", "open", wr)
        returned = True
        err = None
        try:
            _save(path, s)
        except Exception as e:
            returned, err = False, e
    finally:
        for mod, name, orig in reversed(saved):
            setattr(mod, name, orig)
    if not fired[0]:
        ctx.event("fault-not-reached")
        judge(ctx, path, s, returned, "no fault fired")
        return
    ctx.event("fault-fired")
    ctx.event(f"fault-{kind}")
    ctx.event("error-raised" if not returned else "returned-normally")
    ctx.state(kind, k, type(exc).__name__, returned, s["st"], s["use_async"])
    judge(ctx, path, s, returned, f"fault {kind}#{k} {exc!r} sticky={sticky}")
    ctx.describe(dict(kind=kind, k=k, exc=repr(exc), sticky=sticky, raised=not returned))
    ctx.nontrivial(kind, k, repr(exc), sticky, s["limit"], s["st"], s["use_async"], s["thr"], len(s["items"]))


def wl_file_limit(ctx, rng):
    """The operating system refuses to let files grow past a limit (real EFBIG from the kernel)."""
    s = _settings(rng)
    path = ctx.path("out")
    lim = rng.choice([0, 1, 64, 200, 600, 2000, 5000, 20000, s["total"] // 2, max(1, s["total"] - 5)])
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    returned, err = True, None
    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
    try:
        _save(path, s)
    except Exception as e:
        returned, err = False, e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
    ctx.event("kernel-limit-hit" if not returned else "kernel-limit-not-hit")
    ctx.state(type(err).__name__, s["st"], s["use_async"], lim)
    judge(ctx, path, s, returned, f"file size limit {lim}")
    ctx.describe(dict(limit=lim, raised=repr(err)[:120]))
    if not returned:
        ctx.nontrivial("fsize", lim, s["limit"], s["st"], s["use_async"], len(s["items"]))


_WATCH = {"open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.truncate", "shutil.move", "os.symlink", "os.rmdir"}


def wl_crash(ctx, rng):
    """The process is killed at the k-th file-system operation below the output directory."""
    s = _settings(rng)
    path = ctx.path("out")
    k = rng.randint(1, 4 + 3 * len(s["items"]))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            n = [0]
            lock = threading.Lock()

            def hook(event, args):
                if event not in _WATCH or not args:
                    return
                p = args[0]
                if not isinstance(p, str) or not p.startswith(path):
                    return
                with lock:
                    n[0] += 1
                    if n[0] == k:
                        os.write(w, f"K{event}".encode())
                        os._exit(9)

            sys.addaudithook(hook)
            # also a kill between python-level operations inside native writers
            orig_st = safetensors.torch.save_file

            _save(path, s)
            os.write(w, b"D")
        finally:
            os._exit(0)
    os.close(w)
    msg = b""
    while True:
        b = os.read(r, 100)
        if not b:
            break
        msg += b
    os.close(r)
    os.waitpid(pid, 0)
    msg = msg.decode()
    returned = msg == "D"
    ctx.event("crashed" if msg.startswith("K") else ("completed" if returned else "raised"))
    ctx.state(msg, s["st"], s["use_async"])
    if not os.path.isdir(path):
        return
    judge(ctx, path, s, returned, f"process killed at file operation {k} ({msg})")
    if msg.startswith("K"):
        ctx.describe(dict(k=k, at=msg))
        ctx.nontrivial("crash", k, msg, s["limit"], s["st"], s["use_async"], len(s["items"]))


def wl_sigkill(ctx, rng):
    """SIGKILL at an arbitrary moment (reaches points inside native writers)."""
    import time

    s = _settings(rng, n=rng.choice([4, 8, 16]))
    path = ctx.path("out")
    pid = os.fork()
    if pid == 0:
        try:
            _save(path, s)
        finally:
            os._exit(0)
    time.sleep(rng.random() * 0.012)
    os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    killed = os.WIFSIGNALED(st)
    ctx.event("killed" if killed else "finished-before-kill")
    if os.path.isdir(path):
        judge(ctx, path, s, not killed, "SIGKILL")
        ctx.state(tuple(sorted(os.listdir(path))))
        if killed:
            ctx.nontrivial("kill", tuple(sorted(os.listdir(path))), s["limit"], len(s["items"]))


def wl_merge_fault(ctx, rng):
    """A whole merge under a kernel file-size limit."""
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions
    from vk.models import tiny_llama

    a = tiny_llama(ctx.path("a"), seed=1, layers=2)
    b = tiny_llama(ctx.path("b"), seed=2, layers=2)
    out = ctx.path("out")
    cfg = MergeConfiguration.model_validate(dict(
        merge_method="linear", models=[dict(model=a, parameters=dict(weight=1)), dict(model=b, parameters=dict(weight=1))]))
    opts = dict(out_shard_size=rng.choice([2000, 8000, 10**9]), async_write=rng.random() < 0.6, write_threads=rng.choice([1, 3]),
                quiet=True, copy_tokenizer=False, safe_serialization=rng.random() < 0.7)
    lim = rng.choice([300, 1500, 4000, 9000, 20000, 40000])
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    returned, err = True, None
    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
    try:
        run_merge(cfg, out, MergeOptions(**opts))
    except Exception as e:
        returned, err = False, e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
    ctx.event("merge-failed" if err else "merge-completed")
    from vk.ckpt import read_checkpoint

    ta, _, _ = read_checkpoint(a)
    tb, _, _ = read_checkpoint(b)
    try:
        ld = LazyTensorLoader.from_disk(out, lazy_unpickle=False)
        names = set(ld.index.tensor_paths)
    except Exception:
        ld = None
    if returned:
        ctx.ok(ld is not None, "silent-failure", f"merge returned normally under file limit {lim} but output does not load", stop=True)
        ctx.ok(os.path.exists(os.path.join(out, "config.json")), "silent-failure", "no config.json")
    if ld is not None:
        key = "silent-failure" if returned else "partial-looks-complete"
        if ctx.ok(names == set(ta), key, f"{len(names)} of {len(ta)} tensors", stop=True):
            for k in sorted(names):
                try:
                    t = ld.get_tensor(k)
                    good = torch.allclose(t, (ta[k] + tb[k]) / 2, atol=1e-5)
                except Exception as e:
                    good = False
                if not ctx.ok(good, key, f"{k} unreadable or wrong after a merge under file limit {lim}"):
                    break
    ctx.describe(dict(limit=lim, err=repr(err)[:100], **opts))
    ctx.nontrivial("merge", lim, tuple(opts.items()))


CHECK = Check(
    prop="P05",
    level="fault_enumeration",
    rule="saves with a fault at a chosen point: the k-th serialise/rename/open call raises (once or from then on), the "
    "kernel refuses file growth (RLIMIT_FSIZE), the process is killed at the k-th file operation (audit hook) or by "
    "SIGKILL at a random time, the same with an older finished checkpoint in the directory (what loads must be wholly the old or wholly the new one), whole merges under a file-size limit; oracle: normal return or loadable directory "
    "implies every tensor is present with its bits; non-trivial = the fault actually fired; distinct by fault point "
    "and settings; a state = fault kind/outcome/directory content",
    assumptions=["no fsync/power-loss model: a killed process, not a lost page cache"],
    workloads=[
        Workload("call_fault", wl_call_fault, 3000, 30000, require=["fault-fired", "error-raised", "fault-rename", "fault-open", "fault-save"]),
        Workload("file_limit", wl_file_limit, 1500, 15000, require=["kernel-limit-hit"]),
        Workload("crash", wl_crash, 800, 8000, require=["crashed", "unloadable-after-fault"]),
        Workload("reuse_crash", wl_reuse_crash, 1000, 10000, require=["crashed", "old-checkpoint-whole", "retried"]),
        Workload("sigkill", wl_sigkill, 300, 3000, require=["killed"]),
        Workload("merge_fault", wl_merge_fault, 80, 800, require=["merge-failed"]),
    ],
)
