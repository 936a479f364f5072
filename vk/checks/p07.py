"""P07: opening a pickled checkpoint never runs foreign code and leaves unpickling restored."""

import collections
import io
import os
import pickle
import struct
import sys
import threading
import zipfile

import torch
import torch._utils
from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.loader import TensorLoader

from vk.core import Check, Workload

ORIG = dict(Unpickler=pickle.Unpickler, load=pickle.load, rebuild=torch._utils._rebuild_tensor,
            loads=pickle.loads, register_parameter=torch.nn.Module.register_parameter, tload=torch.load)

# globals an attacker might reach for; none is a tensor-rebuilding helper
FOREIGN = [
    ("os", "system"), ("posix", "system"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "getattr"),
    ("builtins", "__import__"), ("builtins", "open"), ("builtins", "print"), ("builtins", "type"), ("builtins", "object"),
    ("builtins", "compile"), ("builtins", "setattr"), ("builtins", "map"), ("builtins", "input"), ("subprocess", "Popen"),
    ("subprocess", "run"), ("subprocess", "call"), ("shutil", "rmtree"), ("os", "remove"), ("os", "popen"), ("os", "execv"),
    ("nt", "system"), ("sys", "exit"), ("sys", "setrecursionlimit"), ("importlib", "import_module"), ("runpy", "run_path"),
    ("torch", "load"), ("torch", "save"), ("torch.hub", "load"), ("torch.serialization", "load"), ("torch", "compile"),
    ("torch.storage", "_load_from_bytes"), ("torch._utils", "_import_dotted_name"),
    ("torch._utils", "_flatten_dense_tensors"), ("torch.jit", "load"), ("torch.utils._config_module", "load_config"),
    ("torch", "FloatStorage.__init__"), ("numpy", "load"), ("numpy", "fromfile"), ("numpy.testing._private.utils", "runstring"),
    ("codecs", "open"), ("codecs", "decode"), ("_codecs", "lookup"), ("_codecs", "decode"), ("collections", "namedtuple"),
    ("collections", "deque"), ("collections", "OrderedDict.fromkeys"), ("functools", "partial"), ("functools", "reduce"),
    ("operator", "methodcaller"), ("operator", "attrgetter"), ("pickle", "loads"), ("pickle", "load"), ("_pickle", "loads"),
    ("marshal", "loads"), ("ctypes", "CDLL"), ("socket", "socket"), ("webbrowser", "open"), ("timeit", "timeit"),
    ("cProfile", "run"), ("pdb", "run"), ("vk.canary", "fire"), ("vk.canary", "Thing"), ("vk.canary", "FIRED.append"),
    ("mergekit.io.lazy_unpickle", "TorchArchiveReader"), ("mergekit.io.lazy_unpickle", "torch_lazy_load"),
    ("copyreg", "_reconstructor"), ("types", "CodeType"), ("types", "FunctionType"), ("", "system"), ("torch", "os.system"),
    ("torch", "classes"), ("torch", "_C"), ("torch", "serialization"), ("torch.nn", "Module"), ("argparse", "Namespace"),
    ("transformers", "AutoModel"), ("__builtin__", "eval"), ("__main__", "main"), ("os.path", "join"),
    ("uuid", "_get_command_stdout"), ("pty", "spawn"), 
    ("collections", "OrderedDictX"), ("collections.abc", "OrderedDict"), ("numpy", "memmap"),
    ("numpy.core.multiarray", "fromfile"), ("numpy", "dtype.__new__"), ("torch._utils", "_rebuild_tensor_v2.__globals__"),
]


def P(*ops):
    return b"\x80\x02" + b"".join(ops) + b"."


def _str(s):
    b = s.encode()
    return b"X" + struct.pack("<I", len(b)) + b


def glob(mod, name, style):
    if style == "GLOBAL":
        return b"c" + mod.encode() + b"\n" + name.encode() + b"\n"
    return _str(mod) + _str(name) + b"\x93"  # STACK_GLOBAL


def tensor_ops(key, storage="FloatStorage", n=4, size=(2, 2), rebuild=None, extra_hooks=None):
    pid = b"(" + _str("storage") + b"ctorch\n" + storage.encode() + b"\n" + _str(key) + _str("cpu") + b"K" + bytes([n]) + b"t" + b"Q"
    args = b"(" + pid + b"K\x00" + b"K" + bytes([size[0]]) + b"K" + bytes([size[1]]) + b"\x86" + b"K" + bytes([size[1]]) + b"K\x01\x86"
    args += b"\x89" + (extra_hooks or b"ccollections\nOrderedDict\n)R") + b"t"
    return (rebuild or b"ctorch._utils\n_rebuild_tensor_v2\n") + args + b"R"


def write_zip(path, pkl, datas=None, extra=None):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED) as z:
        z.writestr("archive/data.pkl", pkl)
        z.writestr("archive/version", "3\n")
        z.writestr("archive/byteorder", "little")
        for k, v in (datas or {"0": struct.pack("<4f", 1, 2, 3, 4)}).items():
            z.writestr(f"archive/data/{k}", v)


def attack(rng, mod, name, canary_path):
    style = rng.choice(["GLOBAL", "STACK_GLOBAL"])
    g = glob(mod, name, style)
    arg = _str(f"touch {canary_path}") if name in ("system", "popen") else _str("x")
    if name in ("eval", "exec"):
        arg = _str("__import__('vk.canary').canary.fire()")
    shape = rng.choice(["reduce", "value", "value", "value", "value_last", "bare", "in_dict", "newobj", "newobj_ex", "build", "inst", "obj", "hooks",
                        "as_rebuild", "as_storage", "pid", "key", "nested_list", "after_tensor", "memo", "ordered_build"])
    if style == "GLOBAL" and shape == "inst":
        return shape, P(b"(" + arg + b"i" + mod.encode() + b"\n" + name.encode() + b"\n")
    call = g + b"(" + arg + b"tR"
    table = {
        "reduce": P(call),
        "bare": P(g),
        # merely present as a value next to a good tensor: the file must be refused on opening
        "value": P(b"}" + _str("x") + g + b"s" + _str("w") + tensor_ops("0") + b"s"),
        "value_last": P(b"}" + _str("w") + tensor_ops("0") + b"s" + _str("x") + b"]" + g + b"a" + b"s"),
        "in_dict": P(b"}" + _str("w") + call + b"s"),
        "newobj": P(g + b"(" + arg + b"t\x81"),
        "newobj_ex": P(b"\x80\x04" + g + b"(" + arg + b"t}\x92"),
        "build": P(call + b"}" + _str("a") + b"K\x01sb"),
        "inst": P(call),
        "obj": P(b"(" + g + arg + b"o"),
        "hooks": P(b"}" + _str("w") + tensor_ops("0", extra_hooks=call) + b"s"),
        "as_rebuild": P(b"}" + _str("w") + tensor_ops("0", rebuild=g) + b"s"),
        "as_storage": P(b"}" + _str("w") + (b"(" + _str("storage") + g + _str("0") + _str("cpu") + b"K\x04tQ") + b"s"),
        "pid": P(b"(" + g + _str("x") + b"tQ"),
        "key": P(b"}" + call + tensor_ops("0") + b"s"),
        "nested_list": P(b"}" + _str("w") + b"](" + call + b"K\x01e" + b"s"),
        "after_tensor": P(b"}" + _str("w") + tensor_ops("0") + b"s" + _str("v") + call + b"s"),
        "memo": P(g + b"q\x00" + b"0" + b"h\x00(" + arg + b"tR"),
        "ordered_build": P(b"ccollections\nOrderedDict\n)R" + _str("w") + call + b"s"),
    }
    return shape, table[shape]


_DANGER = {"os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "ctypes.dlopen", "ctypes.dlsym",
           "socket.connect", "socket.bind", "os.remove", "os.rename", "os.rmdir", "shutil.rmtree", "webbrowser.open",
           "pty.spawn", "os.chmod", "builtins.input"}
_audit = {"on": False, "events": []}


def _hook(event, args):
    if _audit["on"] and event in _DANGER:
        _audit["events"].append((event, repr(args)[:200]))


_hook_installed = []


def _arm():
    if not _hook_installed:
        sys.addaudithook(_hook)
        _hook_installed.append(1)
    _audit["events"] = []
    _audit["on"] = True


def check_restored(ctx, where):
    ctx.event("restore-checked")
    for nm, cur in dict(Unpickler=pickle.Unpickler, load=pickle.load, rebuild=torch._utils._rebuild_tensor, loads=pickle.loads,
                        register_parameter=torch.nn.Module.register_parameter, tload=torch.load).items():
        if not ctx.ok(cur is ORIG[nm], "unpickling-restored", f"{nm} left patched after {where}"):
            pickle.Unpickler, pickle.load = ORIG["Unpickler"], ORIG["load"]
            torch._utils._rebuild_tensor = ORIG["rebuild"]
            torch.nn.Module.register_parameter = ORIG["register_parameter"]


def open_all(path, mode, key="w"):
    d = os.path.dirname(path)
    if mode == "open-lazy":
        return TensorLoader.get(path, use_lazy_unpickle=True)
    if mode == "open-eager":
        return TensorLoader.get(path, use_lazy_unpickle=False)
    if mode == "lazy":
        ld = TensorLoader.get(path, use_lazy_unpickle=True)
        return [ld.get_tensor(k) for k in list(ld.keys())]
    if mode == "eager":
        ld = TensorLoader.get(path, use_lazy_unpickle=False)
        return [ld.get_tensor(k) for k in list(ld.keys())]
    if mode == "index":
        return ShardedTensorIndex.from_file(path).tensor_paths
    if mode == "sharded-lazy" or mode == "sharded-eager":
        import json

        with open(os.path.join(d, "pytorch_model.bin.index.json"), "w") as f:
            json.dump({"weight_map": {key: os.path.basename(path)}}, f)
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=mode == "sharded-lazy")
        return ld.get_tensor(key)
    ld = LazyTensorLoader.from_disk(d, lazy_unpickle=True)
    return ld.get_tensor(key)


MODES = ["open-lazy", "open-lazy", "open-lazy", "open-eager", "lazy", "lazy", "eager", "index", "sharded-lazy", "sharded-lazy", "sharded-eager", "disk"]


def wl_attack(ctx, rng):
    import vk.canary as canary

    mod, name = rng.choice(FOREIGN) if rng.random() < 0.8 else ("vk.canary", rng.choice(["fire", "Thing"]))
    marker = ctx.path("marker")
    os.makedirs(ctx.path("m"))
    path = ctx.path("m", "pytorch_model.bin")
    shape, pkl = attack(rng, mod, name, marker)
    write_zip(path, pkl)
    mode = rng.choice(MODES)
    n0 = len(canary.FIRED)
    _arm()
    raised = None
    res = None
    try:
        res = open_all(path, mode)
    except BaseException as e:  # SystemExit from an attack must not kill the harness
        raised = e
    finally:
        _audit["on"] = False
    ctx.event("attack-offered")
    ctx.event(f"via-{mode}")
    ctx.state(mod, name, shape, mode)
    what = f"{mod}.{name} ({shape}) opened via {mode}"
    ctx.ok(len(canary.FIRED) == n0, "foreign-code-called", f"{what}: canary fired")
    ctx.ok(not os.path.exists(marker), "foreign-code-called", f"{what}: marker file created")
    ctx.ok(not _audit["events"], "foreign-code-called", lambda: f"{what}: audit saw {_audit['events'][:3]}")
    ctx.ok(raised is not None, "foreign-rejected", lambda: f"{what}: accepted, returned {type(res).__name__}")
    check_restored(ctx, f"rejecting {what}")
    ctx.describe(dict(target=f"{mod}.{name}", shape=shape, mode=mode, raised=repr(raised)[:100]))
    ctx.nontrivial(mod, name, shape, mode)


def wl_import(ctx, rng):
    """Merely naming a module must not import it."""
    d = ctx.path("pk")
    os.makedirs(d)
    modname = f"vkevil{rng.randrange(10**9)}"
    flag = ctx.path("flag")
    with open(os.path.join(d, modname + ".py"), "w") as f:
        f.write(f"open({flag!r},'w').write('x')\ndef go(*a):\n    return {{}}\n")
    sys.path.insert(0, d)
    try:
        os.makedirs(ctx.path("m"))
        path = ctx.path("m", "pytorch_model.bin")
        shape, pkl = attack(rng, modname, "go", ctx.path("marker"))
        write_zip(path, pkl)
        mode = rng.choice(MODES)
        raised = None
        try:
            open_all(path, mode)
        except Exception as e:
            raised = e
        ctx.event("import-attack")
        ctx.ok(not os.path.exists(flag) and modname not in sys.modules, "foreign-import", f"{modname} imported ({shape} via {mode})")
        ctx.ok(raised is not None, "foreign-rejected", f"unknown module accepted ({shape} via {mode})")
        check_restored(ctx, "import attack")
        ctx.nontrivial("import", shape, mode, rng.random())
    finally:
        sys.path.remove(d)
        sys.modules.pop(modname, None)


def wl_benign(ctx, rng):
    """Legitimate files still load, and corrupt ones fail cleanly with everything restored."""
    os.makedirs(ctx.path("m"))
    path = ctx.path("m", "pytorch_model.bin")
    sd = collections.OrderedDict((f"w{i}", torch.randn(3, 2)) for i in range(3)) if rng.random() < 0.5 else {
        "w": torch.arange(6).reshape(2, 3), "v": torch.randn(2).half()}
    torch.save(sd, path)
    damage = rng.choice([None, None, "truncate", "flip", "not-zip", "no-data"])
    if damage:
        with open(path, "rb") as f:
            data = bytearray(f.read())
        if damage == "truncate":
            data = data[: rng.randrange(1, len(data))]
        elif damage == "flip":
            for _ in range(rng.choice([1, 3, 20])):
                data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        elif damage == "not-zip":
            data = b"hello" * 10
        with open(path, "wb") as f:
            f.write(data)
        if damage == "no-data":
            write_zip(path, P(b"}" + _str("w") + tensor_ops("17") + b"s"))
    mode = rng.choice(["lazy", "eager", "sharded-lazy", "disk"])
    key = list(sd)[0]
    raised, res = None, None
    _arm()
    try:
        res = open_all(path, mode, key)
    except Exception as e:
        raised = e
    finally:
        _audit["on"] = False
    ctx.ok(not _audit["events"], "foreign-code-called", lambda: f"{damage} {mode}: {_audit['events'][:3]}")
    if damage is None:
        ctx.event("benign-loaded")
        ctx.ok(raised is None, "benign-loads", lambda: f"{mode}: {raised!r}")
        if raised is None:
            t = res[0] if isinstance(res, list) else res
            ctx.ok(torch.equal(t, sd[key]), "benign-value", mode)
    else:
        ctx.event("damaged-file")
    check_restored(ctx, f"{damage} via {mode}")
    ctx.nontrivial("benign", damage, mode, rng.random())


def wl_threads(ctx, rng):
    """Many threads opening good and bad files at once: afterwards everything is restored."""
    os.makedirs(ctx.path("m"))
    files = []
    for i in range(3):
        p = ctx.path("m", f"f{i}.bin")
        torch.save({"w": torch.full((2, 2), float(i))}, p)
        files.append((p, i))
    bad = ctx.path("m", "bad.bin")
    write_zip(bad, attack(rng, "vk.canary", "fire", ctx.path("x"))[1])
    files.append((bad, None))
    errs = []
    plan = [[rng.choice(files) for _ in range(6)] for _ in range(rng.choice([2, 4, 6]))]

    def go(lst):
        for p, i in lst:
            try:
                ld = TensorLoader.get(p, use_lazy_unpickle=True)
                t = ld.get_tensor("w")
                if i is None:
                    errs.append("bad file accepted")
                elif not torch.equal(t, torch.full((2, 2), float(i))):
                    errs.append("wrong value")
            except Exception as e:
                if i is not None:
                    errs.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=go, args=(l,)) for l in plan]
        [t.start() for t in ths]
        [t.join() for t in ths]
    finally:
        sys.setswitchinterval(old)
    ctx.event("concurrent-opens", len(plan))
    ctx.ok(not errs, "concurrent-open", lambda: f"{errs[:3]}")
    check_restored(ctx, "concurrent opening")
    p = ctx.path("m", "f1.bin")
    t = torch.load(p)["w"]
    ctx.ok(isinstance(t, torch.Tensor) and torch.equal(t, torch.full((2, 2), 1.0)), "unpickling-restored", "torch.load no longer returns tensors")
    ctx.nontrivial("thr", len(plan), rng.random())


CHECK = Check(
    prop="P07",
    level="exploration",
    rule="hand-assembled pickle byte streams naming ~90 foreign globals in 18 opcode positions (REDUCE, NEWOBJ, INST, OBJ, BUILD, "
    "hooks, storage type, persistent id, ...), opened through every loader entry point under an audit hook with canaries; plus "
    "modules that must not even be imported, damaged files, and concurrent opens; non-trivial = the file was offered to a "
    "loader; distinct by global x opcode position x entry point",
    assumptions=["audit events and canary side effects are the observable trace of foreign code"],
    workloads=[
        Workload("attack", wl_attack, 6000, 60000, require=["attack-offered", "restore-checked", "via-lazy", "via-eager", "via-index"]),
        Workload("import", wl_import, 600, 6000, require=["import-attack"]),
        Workload("benign", wl_benign, 800, 8000, require=["benign-loaded", "damaged-file"]),
        Workload("threads", wl_threads, 150, 1500, require=["concurrent-opens"]),
    ],
)
