SEEDS = [
 dict(id="s01-release-by-first-target", property="P02", needs="a requested target whose value is also an input of a later task, and values held in nested containers",
  breaks="tensors nested in tuples are left on the storage device when handed to an accelerated task",
  edits=[("mergekit/graph.py", "        elif isinstance(value, tuple):\n            return tuple(self._move_tensors(v, device, non_blocking) for v in value)\n        return value",
          "        elif isinstance(value, tuple):\n            return tuple(\n                self._move_tensors(v, device, non_blocking)\n                if not isinstance(v, (tuple, list))\n                else v\n                for v in value\n            )\n        return value")],
  demo='''
    import torch
    from typing import Any, Dict
    from mergekit.graph import Executor, Task
    class A(Task[Any]):
        def arguments(self): return {}
        def execute(self): return ((torch.ones(2), [torch.ones(3)]), torch.ones(1))
    seen = []
    class B(Task[Any]):
        a: A
        def arguments(self): return {"a": self.a}
        def uses_accelerator(self): return True
        def execute(self, a):
            seen.append((a[0][0].device.type, a[0][1][0].device.type, a[1].device.type))
            return torch.zeros(1)
    list(Executor([B(a=A())], math_device=torch.device("meta")).run(quiet=True))
    assert seen == [("meta", "meta", "meta")], seen
  '''),
 dict(id="s02-write-futures", property="P05", needs="asynchronous writing and a shard write that fails (disk full)",
  breaks="a failed background shard write is never reported and the checkpoint is finished without it",
  edits=[("mergekit/io/tensor_writer.py", "                for future in self._write_futures:\n                    future.result()\n", "                wait(self._write_futures)\n"),
         ("mergekit/io/tensor_writer.py", "from concurrent.futures import Future, ThreadPoolExecutor", "from concurrent.futures import Future, ThreadPoolExecutor, wait")],
  demo='''
    from helper import *
    from mergekit.io.tensor_writer import TensorWriter
    import safetensors.torch
    real = safetensors.torch.save_file
    n = [0]
    def bad(sd, p, metadata=None):
        n[0] += 1
        if n[0] == 2:
            open(p, "wb").write(b"xx")
            raise OSError(28, "No space left on device")
        return real(sd, p, metadata=metadata)
    safetensors.torch.save_file = bad
    w = TensorWriter(path("o"), max_shard_size=100, use_async=True, max_write_threads=2)
    for i in range(4):
        w.save_tensor(f"t{i}", torch.ones(20))
    try:
        w.finalize()
    except OSError:
        raise SystemExit(0)
    raise SystemExit(1)
  '''),
 dict(id="s03-shard-name-in-worker", property="P04", needs="asynchronous writing where another shard is dispatched before a worker starts",
  breaks="a shard is written under another shard's name when a worker starts late",
  edits=[("mergekit/io/tensor_writer.py", "                self._write_shard_task, shard_to_write, shard_index, shard_path\n", "                self._write_shard_task,\n                shard_to_write,\n                shard_index,\n"),
         ("mergekit/io/tensor_writer.py", "        self, shard_data: Dict[str, torch.Tensor], shard_index: int, shard_path: str\n    ):", "        self,\n        shard_data: Dict[str, torch.Tensor],\n        shard_index: int,\n        shard_path: Optional[str] = None,\n    ):\n        if shard_path is None:\n            prefix, extension = self._get_name_components()\n            shard_path = os.path.join(\n                self.out_path, f\"{prefix}-{self.shards_written}.{extension}\"\n            )")],
  demo='''
    from helper import *
    from mergekit.io.tensor_writer import TensorWriter
    import safetensors.torch, time
    real = safetensors.torch.save_file
    def slow(*a, **k):
        time.sleep(0.05)
        return real(*a, **k)
    safetensors.torch.save_file = slow
    try:
        w = TensorWriter(path("o"), max_shard_size=100, use_async=True, max_write_threads=1)
        for i in range(6):
            w.save_tensor(f"t{i}", torch.full((20,), float(i)))
        w.finalize()
        safetensors.torch.save_file = real
        got = read(path("o"))
        need(all(f"t{i}" in got and got[f"t{i}"][0] == i for i in range(6)), sorted(got))
    except OSError as e:
        need(False, repr(e))
  '''),
 dict(id="s04-gradient-rounding", property="P08", needs="a gradient parameter whose anchors do not coincide with layer positions near the upper end",
  breaks="gradients interpolate between the wrong anchors for some layers",
  edits=[("mergekit/config.py", "            scaled = t * (len(setting) - 1)\n            i0 = int(scaled)\n", "            scaled = t * (len(setting) - 1)\n            i0 = min(int(scaled), max(len(setting) - 3, 0))\n")],
  demo='''
    from mergekit.config import evaluate_setting
    for n in (2, 3, 4, 5, 7):
        s = [float((i * 7) % 5) for i in range(n)]
        for L in range(1, 30):
            for i in range(L):
                t = i / (L - 1) if L > 1 else 1
                x = t * (n - 1); a = int(x + 1e-9); b = min(a + 1, n - 1); f = x - a
                w = (1 - f) * s[a] + f * s[b]
                g = evaluate_setting("x", s, t)
                assert abs(g - w) < 1e-6, (n, L, i, g, w)
  '''),
 dict(id="s05-slerp-antiparallel", property="P10", needs="weights of the two models that point in (nearly) opposite directions",
  breaks="slerp of opposite directions blows up instead of interpolating linearly",
  edits=[("mergekit/merge_methods/slerp.py", "    if np.abs(dot) > DOT_THRESHOLD:", "    if dot > DOT_THRESHOLD:")],
  demo='''
    from helper import *
    a, ta = llama("a", seed=1)
    g = torch.Generator().manual_seed(5)
    b, tb = llama("b", tensors={k: -v * 1.5 + 1e-4 * torch.randn(v.shape, generator=g) for k, v in ta.items()})
    out = read(merge(dict(merge_method="slerp", base_model=a, models=[dict(model=a), dict(model=b)], dtype="float32", parameters=dict(t=0.4))))
    for k in out:
        w = 0.6 * ta[k] + 0.4 * tb[k]
        need((out[k] - w).abs().max() < 1e-3, (k, float((out[k] - w).abs().max())))
  '''),
 dict(id="s06-consensus-divisor", property="P11", needs="sign consensus with normalization, where only some models agree and their weights differ",
  breaks="the result is divided by the number of agreeing models' share instead of their weights when the mask is int8",
  edits=[("mergekit/merge_methods/generalized_task_arithmetic.py", "            divisor = (weights * mask).sum(dim=0)\n            divisor[divisor == 0] = 1", "            divisor = (weights * mask).sum(dim=0)\n            if self.int8_mask:\n                # mask entries are counted, scale back to weights\n                divisor = mask.sum(dim=0).to(weights.dtype) * weights.mean()\n            divisor[divisor == 0] = 1")],
  demo='''
    from helper import *
    b, tb = llama("b", seed=1)
    m = [llama(f"m{i}", seed=10 + i) for i in range(3)]
    W = [1.0, 0.25, 2.0]
    def run(i8):
        return read(merge(dict(merge_method="ties", base_model=b, dtype="float32", models=[dict(model=p, parameters=dict(weight=w, density=1.0)) for (p, _), w in zip(m, W)], parameters=dict(int8_mask=i8))))
    x, y = run(False), run(True)
    for k in x:
        need(torch.allclose(x[k], y[k], atol=1e-5), k)
  '''),
 dict(id="s07-della-flat-ranks", property="P12", needs="a matrix with rows of very different magnitude",
  breaks="keep probabilities follow ranks across the whole tensor instead of within each row",
  edits=[("mergekit/sparsify.py", "    if len(tensor.shape) < 2:\n        tensor = tensor.unsqueeze(0)\n    magnitudes = tensor.abs()\n", "    if len(tensor.shape) < 2:\n        tensor = tensor.unsqueeze(0)\n    elif len(tensor.shape) > 1 and tensor.shape[0] > 1:\n        tensor = tensor.reshape(1, -1)\n    magnitudes = tensor.abs()\n")],
  demo='''
    import torch
    from mergekit.sparsify import sparsify, SparsificationMethod
    torch.manual_seed(0)
    x = torch.rand(40, 500) + 0.5
    x[:20] *= 100
    y = sparsify(x, 0.5, SparsificationMethod.della_magprune, epsilon=0.4)
    f = (y[:20] != 0).float().mean()
    assert abs(f - 0.5) < 0.05, f
  '''),
 dict(id="s08-loader-lock", property="P06", needs="two threads reading tensors of different shards through one loader",
  breaks="a thread can read from the shard another thread has just switched to",
  edits=[("mergekit/io/lazy_tensor_loader.py", "            return self.current_shard.get_tensor(key).to(device)\n", "        return self.current_shard.get_tensor(key).to(device)\n")],
  demo='''
    from helper import *
    import threading, sys
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader
    import mergekit.io.lazy_tensor_loader as L
    real = L.TensorLoader.get.__func__
    import time
    class Slow:
        def __init__(self, x): self.x = x
        def keys(self): return self.x.keys()
        def get_tensor(self, k):
            return self.x.get_tensor(k)
    d, t = llama("a", layers=4, shards=4)
    sys.setswitchinterval(1e-6)
    ld = LazyTensorLoader.from_disk(d)
    names = sorted(t)
    errs = []
    def work(s):
        try:
            for i in range(3000):
                k = names[(i * s + s) % len(names)]
                if not torch.equal(ld.get_tensor(k), t[k]): errs.append(k)
        except Exception as e:
            errs.append(repr(e))
    ths = [threading.Thread(target=work, args=(s,)) for s in (1, 3, 5, 7, 11)]
    [x.start() for x in ths]; [x.join() for x in ths]
    need(not errs, errs[:2])
  '''),
 dict(id="s09-find-class-prefix", property="P07", needs="a pickled checkpoint naming a callable from a module under an accepted package",
  breaks="lazy unpickling resolves any name from modules that merely share a package with accepted types",
  edits=[("mergekit/io/lazy_unpickle.py", "            return ACCEPTABLE_TYPES[(module, name)]\n", "            return ACCEPTABLE_TYPES[(module, name)]\n        if module in (\"torch._utils\", \"torch\", \"collections\", \"_codecs\"):\n            # other rebuild helpers of the same modules\n            return super().find_class(module, name)\n")],
  demo='''
    from helper import *
    import pickle, zipfile, io
    from mergekit.io.loader import TensorLoader
    class Evil:
        def __reduce__(self):
            return (torch.save, (torch.ones(1), path("pwned")))
    class Evil2:
        def __reduce__(self):
            import torch._utils
            return (torch.set_num_threads, (3,))
    torch.set_num_threads(2)
    torch.save({"a": torch.ones(2)}, path("x.bin"))
    zi = zipfile.ZipFile(path("x.bin")); zo = zipfile.ZipFile(path("y.bin"), "w")
    root = zi.namelist()[0].split("/")[0]
    for n in zi.namelist():
        data = zi.read(n)
        if n.endswith("data.pkl"):
            data = pickle.dumps({"a": Evil2()}, protocol=2)
        zo.writestr(n, data)
    zo.close()
    try:
        TensorLoader.get(path("y.bin"), use_lazy_unpickle=True)
    except Exception as e:
        print("refused", type(e))
    need(torch.get_num_threads() == 2, "code ran")
  '''),
 dict(id="s10-cached-explore", property="P01", needs="a graph in which the same argument task object is rebuilt on every call and an equal task was added before",
  breaks="a task needed only through an already explored sibling with equal value is dropped from the schedule when it is itself a cached input",
  edits=[("mergekit/graph.py", "        if task in (cached_values or {}):\n            continue\n        for dep in task.arguments().values():\n            to_explore.add(dep)\n", "        if task in (cached_values or {}):\n            continue\n        for dep in task.arguments().values():\n            if dep in (cached_values or {}) and dep in to_explore:\n                to_explore.discard(dep)\n                continue\n            to_explore.add(dep)\n"),
         ("mergekit/graph.py", "    for target in targets:\n        edge_tups.append((dummy_handle, target))\n", "    for target in explored.intersection(targets):\n        edge_tups.append((dummy_handle, target))\n"),
         ],
  demo='''
    from typing import Any, Tuple
    from mergekit.graph import Executor, Task, TaskUniverse
    class T(Task[int]):
        n: int
        deps: Tuple[Any, ...] = ()
        def arguments(self): return {f"d{i}": d for i, d in enumerate(self.deps)}
        def execute(self, **k): return self.n + sum(k.values())
    a = T(n=1); b = T(n=2, deps=(a,))
    u = TaskUniverse([a, b])
    r = list(Executor([u.add_task(b), u.add_task(a)], cached_values={u.add_task(a): 5})._run(quiet=True))
    assert [v for _, v in r] == [7], r
  '''),
]
