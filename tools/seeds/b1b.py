import importlib.util, os
spec = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py")); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
SEEDS = [s for s in m.SEEDS if s["id"].startswith("s05")] + [
 dict(id="s03-shared-dropped", property="P04", needs="two saved tensors that share storage, without cloning",
  breaks="of tensors that share memory only one is written, though the others were saved too",
  edits=[("mergekit/io/tensor_writer.py", "                shard_data = {key: shard_data[key].clone() for key in shard_data}\n", "                unique = {\n                    (t.data_ptr(), t.numel()): key for key, t in shard_data.items()\n                }\n                shard_data = {\n                    key: shard_data[key].clone() for key in unique.values()\n                }\n")],
  demo='''
    from helper import *
    from mergekit.io.tensor_writer import TensorWriter
    x = torch.arange(12.0)
    w = TensorWriter(path("o"))
    w.save_tensor("a", x); w.save_tensor("b", x.view(3, 4)); w.save_tensor("c", torch.ones(2))
    w.finalize()
    got = read(path("o"))
    need(set(got) == {"a", "b", "c"}, sorted(got))
  '''),
 dict(id="s10-hash-index", property="P01", needs="two different tasks whose field values hash alike (-1 and -2)",
  breaks="different tasks with equal hashes are taken for one another, so one is never run and its value is the other's",
  edits=[("mergekit/graph.py", "        index = self.task_to_index.setdefault(task, len(self.tasks))\n        if index < len(self.tasks):\n            return TaskHandle(self, index)\n", "        _hash_key = (type(task), hash(task))\n        if _hash_key in self._type_id_to_index:\n            # equal tasks hash alike, avoids slow deep comparisons\n            return TaskHandle(self, self._type_id_to_index[_hash_key])\n        index = self.task_to_index.setdefault(task, len(self.tasks))\n        self._type_id_to_index[_hash_key] = index\n")],
  demo='''
    from mergekit.graph import Executor, Task
    class T(Task[int]):
        n: int
        def arguments(self): return {}
        def execute(self): return self.n
    r = [v for _, v in Executor([T(n=-1), T(n=-2)]).run(quiet=True)]
    assert sorted(r) == [-2, -1], r
  '''),
 dict(id="s11-prune-done-futures", property="P05", needs="asynchronous writing where an early shard's write fails before a later shard is dispatched",
  breaks="failures of writes that end early are forgotten, and the checkpoint is finished without that shard",
  edits=[("mergekit/io/tensor_writer.py", "            self._write_futures.append(future)\n", "            # only keep track of writes still in flight\n            self._write_futures = [f for f in self._write_futures if not f.done()]\n            self._write_futures.append(future)\n")],
  demo='''
    from helper import *
    from mergekit.io.tensor_writer import TensorWriter
    import safetensors.torch, time
    real = safetensors.torch.save_file
    n = [0]
    def bad(sd, p, metadata=None):
        n[0] += 1
        if n[0] == 1:
            open(p, "wb").write(b"xx")
            raise OSError(28, "No space left on device")
        return real(sd, p, metadata=metadata)
    safetensors.torch.save_file = bad
    w = TensorWriter(path("o"), max_shard_size=100, use_async=True, max_write_threads=1)
    for i in range(5):
        w.save_tensor(f"t{i}", torch.ones(20))
        time.sleep(0.1)
    try:
        w.finalize()
    except OSError:
        raise SystemExit(0)
    raise SystemExit(1)
  '''),
]
