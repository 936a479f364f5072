SIM = '''
    import torch, contextlib
    class Dummy:
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def synchronize(self): pass
        def wait_stream(self, *_): pass
    if hasattr(torch, "accelerator"):
        torch.accelerator.current_accelerator = lambda *a, **k: torch.device("cpu")
        torch.accelerator.device_count = lambda *a, **k: 2
        torch.accelerator.synchronize = lambda *a, **k: None
    torch.cpu.device_count = lambda *a, **k: 2
    torch.cpu.synchronize = lambda *a, **k: None
    torch.cuda.Stream = Dummy
    torch.cuda.stream = lambda s: Dummy()
    torch.Stream = Dummy
'''
SEEDS = [
 dict(id="s12-trailing-deps", property="P03", needs="a closing main-thread task that depends both on another closing task and on a parallel task",
  breaks="the value a closing task needs from a parallel task is thrown away, it receives nothing",
  edits=[("mergekit/multigpu_executor.py", "            self.trailing_dependencies.update(task_handle.arguments().values())\n", "            deps = task_handle.arguments().values()\n            if any(d in trailing_tasks for d in deps):\n                # follows another trailing task, whose results stay on the main thread\n                continue\n            self.trailing_dependencies.update(deps)\n")],
  demo=SIM + '''
    from typing import Any
    from mergekit.graph import Task
    from mergekit.multigpu_executor import MultiGPUExecutor
    class P(Task[Any]):
        n: int
        def arguments(self): return {}
        def execute(self): return self.n
    class M(Task[Any]):
        p: P
        def arguments(self): return {"p": self.p}
        def main_thread_only(self): return True
        def execute(self, p): return p
    class F(Task[Any]):
        m: M
        p: P
        def arguments(self): return {"m": self.m, "p": self.p}
        def main_thread_only(self): return True
        def execute(self, m, p): return (m, p)
    f = F(m=M(p=P(n=1)), p=P(n=2))
    r = {type(t).__name__: v for t, v in MultiGPUExecutor([f], num_gpus=2).run(quiet=True)}
    assert r == {"F": (1, 2)}, r
  '''),
 dict(id="s13-shortest-model", property="P09", needs="models with different numbers of layers in a models: list",
  breaks="layers of the deeper models are silently left out where the merge must be refused",
  edits=[("mergekit/plan.py", "                    num_layers = module_arch.num_layers(model_cfg)\n", "                    num_layers = min(\n                        module_arch.num_layers(model_cfg),\n                        *(s.layer_range[1] for s in slices_in),\n                    ) if slices_in else module_arch.num_layers(model_cfg)\n")],
  demo='''
    from helper import *
    a, _ = llama("a", layers=2, seed=1)
    b, _ = llama("b", layers=3, seed=2)
    for order in ([a, b], [b, a]):
        out = path("o" + str(len(os.listdir(tmp))))
        try:
            merge(dict(merge_method="linear", models=[dict(model=m, parameters=dict(weight=1.0)) for m in order]), out)
        except Exception:
            continue
        need(False, "layers were left out")
  '''),
 dict(id="s15-base-token-zero", property="P13", needs="the token with id 0 of the base model, missing in one of several other models",
  breaks="a model that lacks the base's token 0 gets the average of the others instead of the base's row",
  edits=[("mergekit/tokenizer/embed.py", "                if permutations[self.base_model][token_id] >= 0:\n", "                if permutations[self.base_model].get(token_id, 0) > 0:\n")],
  demo='''
    from helper import *
    dirs = []
    V = [["red", "one"], ["red", "two"], ["blue", "two"]]
    ts = []
    for i, w in enumerate(V):
        ids = {t: k for k, t in enumerate([w[0], "<unk>", "<s>", "</s>", w[1]])}
        d, t = llama(f"m{i}", vocab=5, seed=i)
        tok(d, [], ids=ids)
        dirs.append(d); ts.append(t)
    out = merge(dict(merge_method="linear", base_model=dirs[0], tokenizer=dict(source="union"),
                     models=[dict(model=dirs[0], parameters=dict(weight=0.0)), dict(model=dirs[1], parameters=dict(weight=0.0)), dict(model=dirs[2], parameters=dict(weight=1.0))]))
    v = json.load(open(os.path.join(out, "tokenizer.json")))["model"]["vocab"]
    got = read(out)["model.embed_tokens.weight"][v["red"]]
    need(torch.equal(got, ts[0]["model.embed_tokens.weight"][0]), "base row of token 0")
  '''),
 dict(id="s16-vocab-size-cache", property="P14", needs="a model directory whose contents change between two merges of one process",
  breaks="the vocabulary size of the former contents is used, and rows of new tokens are lost",
  edits=[("mergekit/tokenizer/build.py", "def get_vocab_size(", "@functools.lru_cache(maxsize=128)\ndef get_vocab_size("),
         ("mergekit/tokenizer/build.py", "import json\n", "import functools\nimport json\n")],
  demo='''
    from helper import *
    def go(n, out):
        d, t = llama("a", vocab=3 + n, seed=n)
        tok(d, [f"w{i}" for i in range(n)])
        merge(dict(merge_method="linear", models=[dict(model=d, parameters=dict(weight=1.0))], tokenizer=dict(source="union")), path(out))
        e = read(path(out))["model.embed_tokens.weight"]
        shutil.rmtree(d)
        return e.shape == t["model.embed_tokens.weight"].shape and torch.equal(e, t["model.embed_tokens.weight"])
    r = [go(4, "o1"), go(7, "o2")]
    need(all(r), r)
  '''),
 dict(id="s17-model-set", property="P15", needs="a union tokenizer over several models, in processes with different hash seeds",
  breaks="the order in which models contribute tokens depends on the hash seed",
  edits=[("mergekit/config.py", "        models: Dict[ModelReference, None] = {}\n", "        models = set()\n"),
         ("mergekit/config.py", "            models[self.base_model] = None\n", "            models.add(self.base_model)\n"),
         ("mergekit/config.py", "            for model_in in self.models:\n                models[model_in.model] = None\n", "            for model_in in self.models:\n                models.add(model_in.model)\n"),
         ("mergekit/config.py", "            for s in self.slices:\n                for src in s.sources:\n                    models[src.model] = None\n        if self.modules:", "            for s in self.slices:\n                for src in s.sources:\n                    models.add(src.model)\n        if self.modules:"),
         ("mergekit/config.py", "                    for model_in in m.models:\n                        models[model_in.model] = None\n", "                    for model_in in m.models:\n                        models.add(model_in.model)\n"),
         ("mergekit/config.py", "                        for src in s.sources:\n                            models[src.model] = None\n        return list(models)", "                        for src in s.sources:\n                            models.add(src.model)\n        return ([self.base_model] if self.base_model else []) + [\n            m for m in models if m != self.base_model\n        ]"),
        ],
  demo='''
    from helper import *
    import subprocess, sys
    if len(sys.argv) > 1:
        from mergekit.config import MergeConfiguration
        c = MergeConfiguration.model_validate(json.loads(sys.argv[1]))
        print([str(m) for m in c.referenced_models()])
        raise SystemExit(0)
    cfg = dict(merge_method="linear", base_model="a/base", models=[dict(model=f"a/m{i}") for i in range(5)])
    seen = set()
    for s in range(4):
        seen.add(subprocess.run([sys.executable, __file__, json.dumps(cfg)], env={**os.environ, "PYTHONHASHSEED": str(s)}, capture_output=True, text=True, check=True).stdout)
    need(len(seen) == 1, seen)
  '''),
 dict(id="s18-optional-bias", property="P16", needs="a qwen2 source without one of its attention biases",
  breaks="a source that lacks a required bias is merged without it instead of being refused",
  edits=[("mergekit/_data/architectures/qwen2.json", '                "name": "model.layers.${layer_index}.self_attn.v_proj.bias"\n', '                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",\n                "optional": true\n')],
  demo='''
    from helper import *
    def mk(n, missing):
        def edit(t):
            for l in range(2):
                for a in "qkv":
                    t[f"model.layers.{l}.self_attn.{a}_proj.bias"] = torch.ones(8)
            if missing:
                del t["model.layers.0.self_attn.v_proj.bias"], t["model.layers.1.self_attn.v_proj.bias"]
        d, t = llama(n, edit=edit)
        c = json.load(open(os.path.join(d, "config.json")))
        c.update(model_type="qwen2", architectures=["Qwen2ForCausalLM"])
        json.dump(c, open(os.path.join(d, "config.json"), "w"))
        return d
    a = mk("a", False)
    merge(dict(merge_method="passthrough", models=[dict(model=a)]))
    b = mk("b", True)
    try:
        merge(dict(merge_method="passthrough", models=[dict(model=b)]))
    except Exception:
        raise SystemExit(0)
    need(False, "missing weight not refused")
  '''),
 dict(id="s19-auto-template-first", property="P17", needs="chat_template: auto, where the first model's template is not the most common",
  breaks="the automatic choice takes the first template rather than the most common",
  edits=[("mergekit/merge.py", "                if template:\n                    model_templates.append(template.strip())\n", "                if template and template.strip() not in model_templates:\n                    model_templates.append(template.strip())\n")],
  demo='''
    from helper import *
    A = "{% for m in messages %}A {{ m['content'] }}{% endfor %}"
    B = "{% for m in messages %}B {{ m['content'] }}{% endfor %}"
    dirs = []
    for i, t in enumerate([A, B, B]):
        d, _ = llama(f"m{i}", vocab=5, seed=i)
        tok(d, ["x", "y"], chat_template=t)
        dirs.append(d)
    out = merge(dict(merge_method="linear", chat_template="auto", models=[dict(model=d, parameters=dict(weight=1.0)) for d in dirs]), copy_tokenizer=True)
    import transformers
    r = transformers.AutoTokenizer.from_pretrained(out).apply_chat_template([dict(role="user", content="x")], tokenize=False)
    need(r == "B x", r)
  '''),
 dict(id="s20-shared-expert-cache", property="P18", needs="two experts with the same source model and different residual scales",
  breaks="an expert gets the scaled weights of an earlier expert with the same source",
  edits=[("mergekit/moe/mixtral.py", "                    tensor = expert_loader.get_tensor(source_name)\n                    tensor = noise_and_scale(\n                        tensor,\n                        expert,\n                        is_residual=source_param == \"down_proj\",\n                    )\n",
          "                    # the same model may be used for several experts\n                    key = (expert.source_model, expert.noise_scale, source_name)\n                    tensor = expert_tensors.get(key, None)\n                    if tensor is None:\n                        tensor = expert_tensors[key] = noise_and_scale(\n                            expert_loader.get_tensor(source_name),\n                            expert,\n                            is_residual=source_param == \"down_proj\",\n                        )\n"),
         ("mergekit/moe/mixtral.py", "            for expert_idx, expert in enumerate(config.experts):\n                expert_loader = loaders.get(expert.source_model)\n                for source_param", "            expert_tensors = {}\n            for expert_idx, expert in enumerate(config.experts):\n                expert_loader = loaders.get(expert.source_model)\n                for source_param")],
  demo='''
    from helper import *
    from mergekit.moe.config import MoEMergeConfig
    from mergekit.options import MergeOptions
    from mergekit.scripts.moe import build
    a, ta = llama("a", vocab=6)
    tok(a, ["x", "y", "z"])
    out = path("o")
    build(MoEMergeConfig.model_validate(dict(base_model=a, gate_mode="random", dtype="float32", architecture="mixtral",
          experts=[dict(source_model=a, positive_prompts=["x"], residual_scale=0.5), dict(source_model=a, positive_prompts=["y"], residual_scale=2.0)])),
          out, MergeOptions(), allow_all_same=True)
    import transformers
    m = transformers.AutoModelForCausalLM.from_pretrained(out, dtype=torch.float32)
    sd = m.state_dict()
    w = sd["model.layers.0.mlp.experts.down_proj"]
    ref = ta["model.layers.0.mlp.down_proj.weight"]
    need(torch.allclose(w[0], ref * 0.5) and torch.allclose(w[1], ref * 2.0), "scales")
  '''),
 dict(id="s21-lora-cache-case", property="P19", needs="two adapters whose paths differ only by case",
  breaks="the cached copy for one adapter is taken for another's",
  edits=[("mergekit/common.py", "            + str(binascii.crc32(self.__str__().encode()))\n", "            + str(binascii.crc32(self.__str__().casefold().encode()))\n")],
  demo='''
    from helper import *
    from mergekit.common import ModelReference
    a, t = llama("a")
    def adapter(n, s):
        d = path(n, "ad")
        os.makedirs(d)
        json.dump(dict(peft_type="LORA", task_type="CAUSAL_LM", base_model_name_or_path=a, r=1, lora_alpha=1, target_modules=["q_proj"], inference_mode=True), open(d + "/adapter_config.json", "w"))
        sd = {}
        for l in range(2):
            sd[f"base_model.model.model.layers.{l}.self_attn.q_proj.lora_A.weight"] = torch.ones(1, 8) * s
            sd[f"base_model.model.model.layers.{l}.self_attn.q_proj.lora_B.weight"] = torch.ones(8, 1)
        save_file(sd, d + "/adapter_model.safetensors")
        return d
    for n, s in (("run", 1.0), ("RUN", 2.0)):
        ref = ModelReference.model_validate(a + "+" + adapter(n, s)).merged(cache_dir=path("cache"))
        k = "model.layers.0.self_attn.q_proj.weight"
        need(torch.allclose(read(ref.model.path)[k], t[k] + s), n)
  '''),
 dict(id="s22-lowrank-svd", property="P20", needs="weight matrices much larger than the rank, with a flat spectrum",
  breaks="the extracted adapter is a randomised approximation, not the best one of its rank",
  edits=[("mergekit/scripts/extract_lora.py", "        u, s, vh = torch.linalg.svd(\n            task_vector.to(dtype=torch.float32), full_matrices=False\n        )\n",
          "        if min(task_vector.shape) > 4 * self.max_rank:\n            # much faster when only a few singular vectors are needed\n            u, s, v = torch.svd_lowrank(\n                task_vector.to(dtype=torch.float32), q=self.max_rank\n            )\n            vh = v.T\n        else:\n            u, s, vh = torch.linalg.svd(\n                task_vector.to(dtype=torch.float32), full_matrices=False\n            )\n")],
  demo='''
    import torch
    from mergekit.architecture import WeightInfo
    from mergekit.scripts.extract_lora import TaskVectorDecompositionTask
    from mergekit.graph import Task
    class T(Task[torch.Tensor]):
        def arguments(self): return {}
        def execute(self): return None
    torch.manual_seed(0)
    x = torch.randn(48, 40)
    a, b = TaskVectorDecompositionTask(weight_info=WeightInfo(name="w.weight"), input_task=T(), max_rank=4).execute(x)
    s = torch.linalg.svdvals(x)
    best = s[4:].pow(2).sum().sqrt()
    got = (x - b @ a).norm()
    assert got <= best * 1.0001, (got, best)
  '''),
 dict(id="s23-byte-before-exact", property="P21", needs="a base vocabulary that has both a one-character token and its byte token, with byte matches allowed",
  breaks="tokens both models have get the row of the byte token instead of their own",
  edits=[("mergekit/scripts/tokensurgeon.py", "        if token in safe_orig_vocab:\n            orig_idx = safe_orig_vocab[token]\n            res[donor_idx] = orig_embed[orig_idx]\n            stats.exact_match += 1\n        elif (\n            allow_byte\n            and (orig_idx := match_byte_token(token, safe_orig_vocab)) is not None\n        ):\n            res[donor_idx] = orig_embed[orig_idx]\n            stats.byte_match += 1\n",
          "        if (\n            allow_byte\n            and (orig_idx := match_byte_token(token, safe_orig_vocab)) is not None\n        ):\n            res[donor_idx] = orig_embed[orig_idx]\n            stats.byte_match += 1\n        elif token in safe_orig_vocab:\n            orig_idx = safe_orig_vocab[token]\n            res[donor_idx] = orig_embed[orig_idx]\n            stats.exact_match += 1\n")],
  demo='''
    from helper import *
    from mergekit.scripts import tokensurgeon as ts
    from mergekit.architecture import WeightInfo
    a, ta = llama("a", vocab=6)
    tok(a, ["x", "<0x78>", "y"])
    b, tb = llama("b", vocab=5, seed=3)
    tok(b, ["x", "y"])
    from click.testing import CliRunner
    r = CliRunner().invoke(ts.main, [a, b, path("o"), "--approximation-method", "mean", "--byte-match", "yes"])
    if r.exception and r.exit_code:
        import traceback; traceback.print_exception(*r.exc_info)
        raise SystemExit(3)
    e = read(path("o"))["model.embed_tokens.weight"]
    need(torch.equal(e[3], ta["model.embed_tokens.weight"][3]), "x")
  '''),
]
