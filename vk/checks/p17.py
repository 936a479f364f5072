"""P17: the output directory carries the donor's tokenizer, the requested chat template, and the recipe."""

import filecmp
import json
import os

import torch
import yaml
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import llama_config, llama_shapes, write_ckpt
from vk.toks import CHARS, SPECIAL, load, write_tokenizer

TEMPLATES = [
    "{% for m in messages %}<A>{{ m.role }}:{{ m.content }}{% endfor %}",
    "{% for m in messages %}{{ m['content'] }}</s>{% endfor %}{% if add_generation_prompt %}GO{% endif %}",
    "{{ bos_token }}{% for m in messages %}[{{ m['role'] }}] {{ m['content'] }}\n{% endfor %}",
    "{%- for m in messages -%}\n" + "{#- " + "padding comment " * 40 + "-#}\n<long {{ m.role }}>{{ m.content }}{% endfor %}",
]
BUILTIN = ["alpaca", "chatml", "llama3", "mistral", "exaone"]
MESSAGES = [[dict(role="user", content="a b")], [dict(role="user", content="c"), dict(role="assistant", content="d e"), dict(role="user", content="f")]]
COMPANIONS = ["tokenizer_config.json", "special_tokens_map.json", "added_tokens.json", "generation_config.json", "merges.txt", "tokenizer.model", "tokenizer.json", "chat_template.jinja",
              "chat_template.json", "video_preprocessor_config.json"]


def render(tok, template=None):
    res = []
    for m in MESSAGES:
        for gen in (False, True):
            res.append(tok.apply_chat_template(m, tokenize=False, add_generation_prompt=gen, chat_template=template))
    return res


def wl_companions(ctx, rng):
    n = rng.choice([1, 2, 3, 4])
    models = []
    tpool = rng.sample(TEMPLATES, rng.randint(1, 3))
    for i in range(n):
        p = ctx.path(f"m{i}")
        toks = SPECIAL + CHARS[:6] + [f"w{j}" for j in rng.sample(range(12), 4)]
        cfg = llama_config(layers=1, hidden=4, inter=3, heads=2, vocab=len(toks) + 4, tie=False)
        write_ckpt(p, cfg, {nm: torch.full(sh, float(3 ** i)) for nm, sh in llama_shapes(cfg).items()}, "st", None, rng)
        tpl = rng.choice(tpool + [None])
        if rng.random() < 0.9:
            write_tokenizer(p, toks, rng.sample(["<|x|>", "<|y|>"], rng.randint(0, 2)), kind=rng.choice(["BPE", "WordLevel"]))
            if tpl is not None:
                how = rng.choice(["config", "jinja", "padded"])
                if rng.random() < 0.3:
                    # one of several templates, in either of the layouts transformers writes
                    more = {k: f"{k}:" + rng.choice(TEMPLATES) for k in rng.sample(["tool_use", "rag", "think"], rng.randint(1, 2))}
                    if how == "jinja":
                        os.makedirs(os.path.join(p, "additional_chat_templates"))
                        for k, v in more.items():
                            open(os.path.join(p, "additional_chat_templates", k + ".jinja"), "w").write(v)
                    elif how == "config":
                        how = "list"
                        cj = json.load(open(os.path.join(p, "tokenizer_config.json")))
                        cj["chat_template"] = [dict(name="default", template=tpl)] + [dict(name=k, template=v) for k, v in more.items()]
                        json.dump(cj, open(os.path.join(p, "tokenizer_config.json"), "w"))
                if how == "list":
                    pass
                elif how == "jinja":
                    open(os.path.join(p, "chat_template.jinja"), "w").write(tpl)
                else:
                    cj = json.load(open(os.path.join(p, "tokenizer_config.json")))
                    cj["chat_template"] = tpl if how == "config" else "\n" + tpl + "  "
                    json.dump(cj, open(os.path.join(p, "tokenizer_config.json"), "w"))
            has = True
            for f in rng.sample(["special_tokens_map.json", "merges.txt", "tokenizer.model", "chat_template.json", "video_preprocessor_config.json"], rng.randint(0, 4)):
                with open(os.path.join(p, f), "wb") as fh:
                    fh.write(json.dumps(dict(unk_token="<unk>", bos_token="<s>", eos_token="</s>")).encode() if f.startswith("special") else
                             b"#version: 0.2\n" if f.startswith("merges") else bytes(rng.randrange(256) for _ in range(40)))
            if rng.random() < 0.1:
                # one that only sentencepiece could read
                with open(os.path.join(p, "tokenizer.model"), "wb") as fh:
                    fh.write(b"\x0a" + bytes(rng.randrange(256) for _ in range(40)))
                os.remove(os.path.join(p, "tokenizer.json"))
                has = False
            if rng.random() < 0.3:
                json.dump(dict(bos_token_id=1, eos_token_id=2, max_length=7 + i), open(os.path.join(p, "generation_config.json"), "w"))
        else:
            has, tpl = False, None
        models.append(dict(path=p, has=has, tpl=tpl))
    base = rng.choice([None] + list(range(n)))
    order = rng.sample(range(n), n)
    donor = models[base if base is not None else order[0]]
    want = rng.choice([None, None, "auto", "auto", "builtin", "literal"])
    lit = None
    c = dict(merge_method="linear", dtype="float32", models=[dict(model=models[i]["path"], parameters=dict(weight=rng.choice([1.0, 0.5, [0.25, 0.75], [dict(filter="mlp", value=0.3), dict(value=0.6)]]))) for i in order])
    if base is not None:
        c["base_model"] = models[base]["path"]
    if want == "auto":
        c["chat_template"] = "auto"
    elif want == "builtin":
        c["chat_template"] = rng.choice(BUILTIN)
        import importlib.resources
        from mergekit._data import chat_templates

        lit = importlib.resources.files(chat_templates).joinpath(c["chat_template"] + ".jinja").read_text()
    elif want == "literal":
        lit = c["chat_template"] = rng.choice(TEMPLATES)
    tokcfg = rng.random() < 0.25 and donor["has"]
    if tokcfg:
        c["tokenizer"] = dict(source="base")
    copy = rng.random() < 0.85
    card = rng.random() < 0.7
    src = rng.random() < 0.5
    text = yaml.safe_dump(c) + "# a comment the author wrote: 'ünïcode'\n" if src else None
    ctx.describe(dict(n=n, base=base, order=order, template=c.get("chat_template", "")[:40], tokenizer=tokcfg, copy=copy, card=card, has=[m["has"] for m in models],
                      tpls=[m["tpl"] and TEMPLATES.index(m["tpl"]) for m in models]))
    out = ctx.path("out")
    cfg = MergeConfiguration.model_validate(c)
    run_merge(cfg, out, MergeOptions(quiet=True, copy_tokenizer=copy, write_model_card=card), config_source=text)
    files = set(os.listdir(out))
    ctx.event("template:" + str(want))
    if not tokcfg and not copy:
        ctx.event("no-copy")
        ctx.ok(not files & {"tokenizer.json", "tokenizer_config.json", "chat_template.jinja"}, "copied-anyway", lambda: f"{sorted(files)}")
    elif not donor["has"]:
        ctx.event("donor-without-tokenizer")
        if copy and want is None and os.path.exists(os.path.join(donor["path"], "tokenizer.model")):
            for f in COMPANIONS:
                if os.path.exists(os.path.join(donor["path"], f)):
                    ctx.event("sentencepiece-file")
                    ctx.ok(f in files and filecmp.cmp(os.path.join(donor["path"], f), os.path.join(out, f), False), "companion-file", lambda: f)
        ctx.ok("tokenizer.json" not in files, "tokenizer-from-elsewhere", lambda: f"{sorted(files)}")
        ctx.ok({"config.json", "model.safetensors.index.json"} <= files or "config.json" in files, "model-still-saved", lambda: f"{sorted(files)}")
    else:
        ctx.ok("tokenizer.json" in files and "tokenizer_config.json" in files, "tokenizer-missing", lambda: f"{sorted(files)}", stop=True)
        a, b = load(donor["path"]), load(out)
        ctx.event("tokenizer-compared")
        va, vb = a.get_vocab(), b.get_vocab()
        ctx.ok(va == vb, "vocabulary", lambda: f"{set(va.items()) ^ set(vb.items())}"[:200])
        for _ in range(4):
            s = " ".join(rng.choices(sorted(va), k=6))
            ctx.ok(a.encode(s) == b.encode(s), "encoding", lambda: s)
            ctx.ok(a.decode(a.encode(s)) == b.decode(a.encode(s)), "decoding", lambda: s)
        ctx.ok(a.special_tokens_map == b.special_tokens_map, "special-tokens", lambda: f"{a.special_tokens_map} {b.special_tokens_map}")
        if want is None:
            exp = [donor["tpl"]]
        elif want == "auto":
            cand = [m["tpl"] for m in models if m["has"] and m["tpl"]]
            top = max((cand.count(t) for t in cand), default=0)
            exp = [t for t in TEMPLATES if top and cand.count(t) == top] or [donor["tpl"]]
            if len(exp) == 1 and top:
                ctx.event("auto-plurality")
        else:
            exp = [lit]
        if exp == [None]:
            ctx.ok(not b.chat_template, "template-from-nowhere", lambda: f"{b.chat_template!r}"[:100])
        else:
            ctx.ok(bool(b.chat_template), "template-missing", lambda: f"expected {exp!r}"[:120], stop=True)
            try:
                got = ("ok", render(b))
            except Exception as e:
                got = ("raises", str(e))
            ok = False
            for e in exp:
                try:
                    w = ("ok", render(a, e))
                except Exception as x:
                    w = ("raises", str(x))
                # surrounding blanks of a template are not significant
                ok = ok or got == w or (w[0] == got[0] == "ok" and [x.strip() for x in w[1]] == [x.strip() for x in got[1]])
            ctx.event("template-rendered")
            ctx.ok(ok, "template", lambda: f"{want}: renders {got[1]!r}"[:200])
        if want is None:
            if isinstance(a.chat_template, dict):
                ctx.event("several-templates")
            ctx.ok(a.chat_template == b.chat_template or isinstance(a.chat_template, str), "templates", lambda: f"{a.chat_template!r} became {b.chat_template!r}"[:300])
        if want is None and not tokcfg:
            for f in COMPANIONS:
                if os.path.exists(os.path.join(donor["path"], f)):
                    ctx.event("companion-file")
                    ctx.ok(f in files and filecmp.cmp(os.path.join(donor["path"], f), os.path.join(out, f), False), "companion-file", lambda: f)
    if card:
        ctx.event("card")
        ctx.ok({"README.md", "mergekit_config.yml"} <= files, "card-missing", lambda: f"{sorted(files)}", stop=True)
        got = open(os.path.join(out, "mergekit_config.yml"), encoding="utf-8").read()
        if text is not None:
            ctx.ok(got == text, "recipe-text", lambda: got[:200])
        again = MergeConfiguration.model_validate(yaml.safe_load(got))
        # following the saved recipe gives the same model
        out2 = ctx.path("again")
        run_merge(again, out2, MergeOptions(quiet=True, write_model_card=False))
        ta, tb = read_checkpoint(out)[0], read_checkpoint(out2)[0]
        ctx.event("recipe-followed")
        ctx.ok(set(ta) == set(tb) and all(torch.equal(ta[k], tb[k]) for k in ta), "recipe-equal", lambda: got[:300])
        ca, cb = (json.load(open(os.path.join(o, "config.json"))) for o in (out, out2))
        ctx.ok(ca == cb, "recipe-equal-config", lambda: f"{ca} {cb}"[:300])
        md = open(os.path.join(out, "README.md"), encoding="utf-8").read()
        ctx.ok(got.strip() in md, "recipe-in-card", lambda: md[-300:])
        meta = yaml.safe_load(md.split("---")[1])
        ctx.ok(isinstance(meta, dict), "card-metadata", lambda: md[:200])
        for m in order:
            ctx.ok(models[m]["path"] in md.replace(got.strip(), ""), "card-names-models", lambda: models[m]["path"])
    else:
        ctx.ok(not {"README.md", "mergekit_config.yml"} & files, "card-unwanted", lambda: f"{sorted(files)}")
    ctx.nontrivial(want, tokcfg, copy, card, base, tuple(m["tpl"] for m in models), tuple(m["has"] for m in models))


CHECK = Check(
    prop="P17",
    level="exploration",
    rule="1-4 tiny models with different tokenizers and chat templates (in the config, as a file, padded with blanks, missing), every chat_template "
    "setting, with and without a tokenizer configuration, tokenizer copying and model card; the saved directory is loaded back and compared with the donor's "
    "tokenizer, the expected template by what it renders, the saved recipe by parsing; distinct by setting and template assignment",
    workloads=[
        Workload("companions", wl_companions, 500, 6000, require=["template:None", "template:auto", "template:builtin", "template:literal", "no-copy",
                                                                  "auto-plurality", "tokenizer-compared", "template-rendered", "companion-file", "card", "several-templates"]),
    ],
)
