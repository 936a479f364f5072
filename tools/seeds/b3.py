SEEDS = [
 dict(id="s24-pickled-shards", property="P22", needs="a merge of an earlier run stored as several pickled shards, and a lazy re-run",
  breaks="a finished intermediate merge is not recognised, so it is run again and replaced",
  edits=[("mergekit/scripts/multimerge.py", "    \"model.safetensors.index.json\",\n    \"pytorch_model.bin.index.json\",\n", "    \"model.safetensors.index.json\",\n")],
  demo='''
    from helper import *
    from click.testing import CliRunner
    import yaml
    from mergekit.scripts.multimerge import main
    a, _ = llama("a", seed=1)
    b, _ = llama("b", seed=2)
    lin = lambda ms, **k: dict(merge_method="linear", dtype="float32", models=[dict(model=m, parameters=dict(weight=1.0)) for m in ms], **k)
    cfg = path("c.yml")
    open(cfg, "w").write(yaml.dump_all([lin([a, b], name="first"), lin(["first", a])]))
    args = [cfg, "--out-path", path("out"), "-I", path("i"), "--no-safe-serialization", "--out-shard-size", "1K", "--no-copy-tokenizer"]
    def stamp():
        r = CliRunner().invoke(main, args)
        need(r.exit_code == 0, repr(r.exception))
        d = path("i", "first")
        need(any(f.startswith("pytorch_model-") for f in os.listdir(d)), "not sharded")
        return {f: os.stat(os.path.join(d, f)).st_mtime_ns for f in os.listdir(d)}
    one = stamp()
    two = stamp()
    need(one == two, "a finished merge was run again")
  '''),
 dict(id="s25-seed-zero", property="P24", needs="--random-seed 0",
  breaks="seed 0 is taken for no seed, so the run is not reproducible",
  edits=[("mergekit/options.py", "        if self.random_seed is not None:\n", "        if self.random_seed:\n")],
  demo='''
    from helper import *
    from mergekit.options import MergeOptions
    for s in (0, 1, 12345):
        vals = []
        for i in range(2):
            torch.manual_seed(99 + i)
            MergeOptions(random_seed=s, quiet=True).apply_global_options()
            vals.append(torch.rand(4).tolist())
        need(vals[0] == vals[1], f"seed {s} is not applied")
  '''),
 dict(id="s26-module-references", property="P17", needs="a modules: recipe whose slices have several sources, and whose second source appears nowhere else",
  breaks="models used inside modules: are left out of the model card",
  edits=[("mergekit/config.py", "                if m.slices:\n                    for s in m.slices:\n                        for src in s.sources:\n", "                if m.slices:\n                    for s in m.slices:\n                        for src in s.sources[:1]:\n")],
  demo='''
    from helper import *
    from mergekit.config import MergeConfiguration
    from mergekit.card import generate_card
    cfg = MergeConfiguration.model_validate(dict(merge_method="linear", modules=dict(default=dict(slices=[dict(sources=[dict(model="/x/a", layer_range=[0, 2]), dict(model="/x/b", layer_range=[0, 2])])]))))
    need({m.model.path for m in cfg.referenced_models()} == {"/x/a", "/x/b"}, "a model is not listed")
    card = generate_card(cfg, "", "n")
    need("* /x/a" in card and "* /x/b" in card, card)
  '''),
 dict(id="s27-raw-base-intersection", property="P23", needs="--tensor-intersection and a tensor that every listed model has but the base model lacks",
  breaks="tensors are written although not every model has them",
  edits=[("mergekit/scripts/merge_raw_pytorch.py", "            if tensor_intersection:\n                continue\n", "            if tensor_intersection and not (\n                config.base_model\n                and all(m.model in has_tensor for m in config.models)\n            ):\n                continue\n            elif tensor_intersection:\n                inputs = {model: inputs[model] for model in has_tensor}\n")],
  demo='''
    from helper import *
    import yaml
    from click.testing import CliRunner
    from mergekit.scripts.merge_raw_pytorch import main
    g = torch.Generator().manual_seed(1)
    files = []
    for n, names in (("base", "ab"), ("m", "abc"), ("k", "abc")):
        files.append(path(n + ".safetensors"))
        save_file({x: torch.randn(3, 4, generator=g) for x in names}, files[-1])
    open(path("c.yml"), "w").write(yaml.dump(dict(merge_method="task_arithmetic", base_model=files[0], models=[dict(model=f, parameters=dict(weight=1.0)) for f in files[1:]])))
    r = CliRunner().invoke(main, [path("c.yml"), path("out"), "--tensor-intersection"])
    need(r.exit_code == 0, repr(r.exception))
    need(set(read(path("out"))) == {"a", "b"}, "wrong tensors")
  '''),
 dict(id="s28-negative-density", property="P26", needs="a ties or dare_ties genome whose density gene is negative (a search step across zero)",
  breaks="a negative density gene drops the whole model where its magnitude counts",
  edits=[("mergekit/evo/genome.py", "                    values = torch.abs(values).clamp(0, 1)\n", "                    values = values.clamp(0, 1)\n")],
  demo='''
    from helper import *
    from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition
    ms = [llama(n, seed=i)[0] for i, n in enumerate("abc")]
    g = ModelGenome(ModelGenomeDefinition(models=ms[1:], base_model=ms[0], merge_method="ties", layer_granularity=1))
    x = torch.full((2, 2, 1, 2), 0.5)
    x[0, 1, 0, 1] = -0.25
    x[1, 0, 0, 1] = -1.5
    cfg = g.genotype_merge_config(x.view(-1).numpy())
    got = [[s.parameters["density"] for s in sl.sources[:2]] for sl in cfg.slices]
    need(got == [[0.5, 0.25], [1.0, 0.5]], got)
  '''),
 dict(id="s29-fill-prefix-anywhere", property="P27", needs="a base model some of whose names contain the prefix twice",
  breaks="the submodel's tensor is looked up under a shortened name",
  edits=[("mergekit/scripts/fill_missing_params.py", "            return name[len(prefix) + 1 :]\n        return name\n", "            return name.split(prefix + \".\")[-1]\n        return name\n")],
  demo='''
    from helper import *
    from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
    g = torch.Generator().manual_seed(1)
    sub = ["layers.0.w", "lm.layers.0.w", "norm.w"]
    def model(n, names):
        d = path(n); os.makedirs(d)
        t = {k: torch.randn(2, 3, generator=g) for k in names}
        save_file(t, os.path.join(d, "model.safetensors"), {"format": "pt"})
        open(os.path.join(d, "config.json"), "w").write("{}")
        return d, t
    b, bt = model("base", ["lm." + s for s in sub] + ["vision.w"])
    s, st = model("sub", sub)
    copy_and_fill_missing_params(b, s, 10**9, path("out"))
    out = read(path("out"))
    for k in bt:
        want = st[k[3:]] if k.startswith("lm.") else bt[k]
        need(torch.equal(out[k], want), k)
  '''),
 dict(id="s30-shuffle-joined", property="P29", needs="layershuffle choosing one model for three or more consecutive layers after another model's layers",
  breaks="a run of layers of one model starts at the wrong layer",
  edits=[("mergekit/scripts/layershuffle.py", "                out_slices[-1].sources[0].layer_range = (\n                    out_slices[-1].sources[0].layer_range[0],\n", "                out_slices[-1].sources[0].layer_range = (\n                    min(out_slices[-1].sources[0].layer_range[0], layer_idx - 1)\n                    if len(out_slices) < 2\n                    else max(out_slices[-1].sources[0].layer_range[0], layer_idx - 1),\n")],
  demo='''
    from helper import *
    import random
    from click.testing import CliRunner
    from mergekit.scripts.layershuffle import main
    a, at = llama("a", layers=8, seed=1)
    b, bt = llama("b", layers=8, seed=2)
    for seed in range(6):
        out = path("o%d" % seed)
        r = CliRunner().invoke(main, [out, "-m", a, "-m", b, "--random-seed", str(seed), "--no-copy-tokenizer"])
        need(r.exit_code == 0, repr(r.exception))
        t = read(out)
        n = json.load(open(os.path.join(out, "config.json")))["num_hidden_layers"]
        need(n == 8, f"{n} layers")
        for l in range(8):
            k = f"model.layers.{l}.mlp.up_proj.weight"
            need(any(torch.equal(t[k], m[k]) for m in (at, bt)), k)
  '''),
 dict(id="s31-scratch-beside", property="P25", needs="mergekit-extract-lora (or any tool with references) on a model directory with an adapter, and the adapter cache",
  breaks="",
  edits=[], demo="") ,
]
SEEDS = [s for s in SEEDS if s["edits"]]
