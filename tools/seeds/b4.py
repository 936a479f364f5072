"""Planted bugs, fourth batch."""
SEEDS = [
 dict(id="s31-scalar-zero", property="P31", needs="a merge method written with the decorator whose scalar has a default, configured as zero or false",
  breaks="the default replaces the configured zero",
  edits=[("mergekit/merge_methods/easy_define.py", "            inner_kwargs[key.name] = self.parameters[key.name]\n", "            inner_kwargs[key.name] = self.parameters[key.name] or key.default_value\n")],
  demo='''
    from helper import *
    from typing import List
    from mergekit.merge_methods.easy_define import merge_method

    @merge_method(name="demo_scaled")
    def scaled(tensors: List[torch.Tensor], scale: float = 2.0) -> torch.Tensor:
        return tensors[0] * scale

    a, at = llama("a", seed=1)
    for s in (3.0, 0.0):
        t = read(merge(dict(merge_method="demo_scaled", dtype="float32", models=[dict(model=a)], parameters=dict(scale=s))))
        for k in at:
            need(torch.equal(t[k], at[k] * s), k)
  '''),
 dict(id="s32-adapter-trust", property="P30", needs="a reference with an adapter whose base model carries its own configuration code, without --trust-remote-code",
  breaks="the code of the base model runs untrusted",
  edits=[("mergekit/common.py", "            revision=self.model.revision,\n            trust_remote_code=trust_remote_code,\n        )\n        if self.override_architecture:", "            revision=self.model.revision,\n            trust_remote_code=trust_remote_code or self.lora is not None,\n        )\n        if self.override_architecture:")],
  demo='''
    from helper import *
    os.environ["HF_MODULES_CACHE"] = path("modules")
    from mergekit.common import ModelReference
    d, _ = llama("a", seed=1)
    mark = path("ran")
    c = json.load(open(os.path.join(d, "config.json")))
    c.update(model_type="demo_custom", auto_map={"AutoConfig": "configuration_demo.DemoConfig"})
    json.dump(c, open(os.path.join(d, "config.json"), "w"))
    open(os.path.join(d, "configuration_demo.py"), "w").write(
        "from transformers import LlamaConfig\\nopen(%r, 'w').close()\\nclass DemoConfig(LlamaConfig):\\n    model_type = 'demo_custom'\\n" % mark)
    ref = ModelReference.parse(d + "+" + path("adapter"))
    try:
        ref.config(trust_remote_code=False)
    except Exception as e:
        print(repr(e)[:100])
    need(not os.path.exists(mark), "untrusted code ran")
    ref.config(trust_remote_code=True)
    need(os.path.exists(mark), "trusted code did not run")
  '''),
 dict(id="s33-template-few-layers", property="P28", needs="a model without architecture definition with more than four layers, in one of which a model lacks a tensor the others have",
  breaks="the merge is refused instead of using the models that have the tensor",
  edits=[("mergekit/architecture/auto.py", "        for layer_idx in range(num_layers)\n", "        for layer_idx in range(min(num_layers, 4))\n")],
  demo='''
    from helper import *
    from mergekit.common import ModelReference
    def model(n, seed, drop):
        d = path(n); os.makedirs(d)
        g = torch.Generator().manual_seed(seed)
        t = {f"enc.layers.{l}.{w}": torch.randn(3, 3, generator=g) for l in range(6) for w in ("a.weight", "b.weight")}
        t["enc.norm.weight"] = torch.randn(3, generator=g)
        for k in drop:
            del t[k]
        save_file(t, os.path.join(d, "model.safetensors"), {"format": "pt"})
        json.dump(dict(model_type="demo_unknown", architectures=["DemoUnknownModel"], num_hidden_layers=6), open(os.path.join(d, "config.json"), "w"))
        return d, t
    import transformers
    class C(transformers.PretrainedConfig):
        model_type = "demo_unknown"
    transformers.AutoConfig.register("demo_unknown", C)
    a, at = model("a", 1, [])
    for l in (1, 5):
        b, bt = model(f"b{l}", 2, [f"enc.layers.{l}.b.weight"])
        out = read(merge(dict(merge_method="linear", dtype="float32", models=[dict(model=a, parameters=dict(weight=1)), dict(model=b, parameters=dict(weight=3))])))
        need(set(out) == set(at), set(at) ^ set(out))
        for k in at:
            want = (at[k] + 3 * bt[k]) / 4 if k in bt else at[k]
            need(torch.allclose(out[k], want, atol=1e-6), k)
  '''),
 dict(id="s34-clone-once", property="P04", needs="a tensor saved with clone and changed by its owner before the shard is written",
  breaks="the later content is written",
  edits=[("mergekit/io/tensor_writer.py", "        if clone:\n            tensor = tensor.clone()\n", "        if clone and tensor._base is not None:\n            tensor = tensor.clone()\n")],
  demo='''
    from helper import *
    from mergekit.io import TensorWriter
    for size in (10**9, 40):
        d = path(f"o{size}")
        w = TensorWriter(d, max_shard_size=size)
        x = torch.arange(6.0)
        w.save_tensor("a", x, clone=True)
        x += 1
        w.save_tensor("b", x[:3], clone=True)
        x += 1
        w.save_tensor("c", x, clone=True)
        w.finalize()
        t = read(d)
        need(torch.equal(t["a"], torch.arange(6.0)) and torch.equal(t["b"], torch.arange(3.0) + 1) and torch.equal(t["c"], torch.arange(6.0) + 2), t)
  '''),
 dict(id="s35-integer-weights", property="P16", needs="a BERT model whose position ids go beyond 256, merged with dtype bfloat16",
  breaks="the position ids are rounded",
  edits=[("mergekit/io/tasks.py", "                dtype=wi.force_dtype or self.dtype,\n", "                dtype=self.dtype or wi.force_dtype,\n")],
  demo='''
    from helper import *
    import transformers
    c = transformers.BertConfig(hidden_size=8, intermediate_size=8, num_hidden_layers=1, num_attention_heads=2, vocab_size=12, max_position_embeddings=600)
    torch.manual_seed(1)
    m = transformers.BertForMaskedLM(c)
    d = path("a")
    m.save_pretrained(d)
    t = load_file(os.path.join(d, "model.safetensors"))
    t["bert.embeddings.position_ids"] = torch.arange(600)[None]
    save_file(t, os.path.join(d, "model.safetensors"), {"format": "pt"})
    out = read(merge(dict(merge_method="passthrough", dtype="bfloat16", models=[dict(model=d)])))
    need(torch.equal(out["bert.embeddings.position_ids"], torch.arange(600)[None]), "position ids")
  '''),
]
