"""P21: a transplanted tokenizer brings each token its own embedding, and leaves the rest of the model alone."""

import json
import os
import warnings

import tokenizers
import torch
import transformers as T
from mergekit.scripts.tokensurgeon import main as surgeon
from mergekit.tokensurgeon import batch_omp, well_trained_tokens

from vk import toks
from vk.archs import make
from vk.ckpt import read_checkpoint, same_bits
from vk.core import Check, Workload
from vk.methods import DT, EPS

warnings.simplefilter("ignore")
BASES = ["llama", "llama", "llama-tied", "llama-bias", "mistral", "qwen2", "qwen2-tied", "qwen3", "gemma", "gemma2", "gemma3_text", "phi", "phi", "phi3", "gpt2", "gpt_bigcode", "gpt_neox",
         "stablelm", "starcoder2", "olmo2", "cohere", "cohere2", "falcon", "granite", "glm4", "arcee", "lfm2", "mixtral", "mamba"]
DONORS = ["llama", "llama", "llama-tied", "mistral", "qwen2", "gemma2", "gpt2", "gpt_neox", "phi3"]
RESIZABLE = {"llama", "llama-tied", "llama-bias", "mistral", "qwen2", "qwen2-tied", "qwen3", "gemma", "gemma2", "gemma3_text", "phi3", "granite", "arcee", "olmo2"}
STYLES = [("PreTrainedTokenizerFast", "Ġ"), ("LlamaTokenizerFast", "▁"), ("GPT2TokenizerFast", "Ġ"), ("PreTrainedTokenizerFast", "▁"), ("Qwen2TokenizerFast", "Ġ")]
WORDS = ["ab", "abc", "abcd", "cd", "de", "def", "fgh", "bad", "cab", "fad", "deed", "hi", "hij", "kl", "mno", "p.q", "ba", "feed", "ace", "aced", "bead", "fab", "lid", "nod", "pin", "unk", "s", "eos", "bos", "un"]
LETTERS = "ABCDEFGH"
EXTRA = ["<|x|>", "<|y|>", "<|z|>"]
MERGES = [("a", "b"), ("c", "d"), ("d", "e"), ("b", "a"), ("h", "i"), ("ab", "c")]
ROLES = {"<unk>": "unk", "<s>": "bos", "</s>": "eos"}
DETERMINISTIC = ["mean", "zero", "subword", "omp", "common_interpolation", "landmark_pca", "stb", "mp_rope"]


def pool():
    out = [("w", c) for c in toks.CHARS] + [("w", w) for w in WORDS] + [("s", w) for w in WORDS] + [("s", c) for c in toks.CHARS[:6]]
    out += [("c", c) for c in LETTERS] + [("b", f"<0x{ord(c):02X}>") for c in LETTERS] + [("x", t) for t in EXTRA]
    return out


def lay_out(rng, keys, style, rename):
    """Token strings in id order, and key -> id."""
    cls, mark = style
    keys = [("r", r) for r in ROLES.values()] + keys
    names = {("r", r): (s if not rename or r == "unk" else f"<|{r}|>") for s, r in ROLES.items()}
    for k in keys:
        if k[0] != "r":
            names[k] = mark + k[1] if k[0] == "s" else k[1]
    order = list(keys)
    if rng.random() < 0.7:
        rng.shuffle(order)
    order = [k for k in order if k[0] != "x"] + [k for k in order if k[0] == "x"]  # added tokens come last
    return [names[k] for k in order], {k: i for i, k in enumerate(order)}, names


def write_tok(path, tokens, names, style, pad):
    at = [t for t in tokens if t in EXTRA]
    body = [t for t in tokens if t not in EXTRA]
    spec = [names[("r", r)] for r in ROLES.values()]
    toks.write_tokenizer(path, body, added=at, special=at, merges=[m for m in MERGES if {*m, m[0] + m[1]} <= set(body)],
                         extra=dict(tokenizer_class=style[0], unk_token=spec[0], bos_token=spec[1], eos_token=spec[2], **({"pad_token": spec[2]} if pad else {})))


def byte_key(k, vocab):
    if k[0] in ("w", "c") and len(k[1]) == 1:
        alt = ("b", f"<0x{ord(k[1]):02X}>")
        return alt if alt in vocab else None
    if k[0] == "b":
        c = chr(int(k[1][3:-1], 16))
        return next(((a, c) for a in ("w", "c") if (a, c) in vocab), None)
    return None


def prefix_key(k, vocab):
    if k[0] == "r":
        return None
    for i in range(len(k[1]) - 1, 0, -1):
        p = k[1][:i]
        for kind in ("s",) if k[0] == "s" else ("w", "c", "b", "x"):
            if (kind, p) in vocab:
                return (kind, p)
    return None


def ref_omp(targets, points, k, tol):
    """Orthogonal matching pursuit; rows whose choices are not clear-cut are None."""
    res = []
    for t in targets:
        chosen, r, c = [], t.clone(), None
        for _ in range(k):
            inner = (points @ r).abs()
            if chosen:
                inner[chosen] = -1
            top = torch.topk(inner, min(2, len(inner)))
            if len(inner) - len(chosen) > 1 and float(top.values[0] - top.values[1]) < tol * float(t.norm() * points.norm(dim=1).max()):
                chosen = None
                break
            chosen.append(int(top.indices[0]))
            a = points[chosen].T
            if torch.linalg.cond(a) > 1e3:
                chosen = None
                break
            c = torch.linalg.lstsq(a, t.unsqueeze(1), driver="gelsd").solution.squeeze(1)
            r = t - a @ c
        res.append((chosen, c) if chosen is not None else None)
    return res


def ref_neighbours(targets, points, k, cosine, scheme, tol):
    res = []
    for t in targets:
        if cosine:
            d = 1 - (points @ t) / (points.norm(dim=1) * t.norm()).clamp_min(1e-6)
        else:
            d = (points - t).norm(dim=1)
        v, i = torch.sort(d)
        if k < len(d) and float(v[k] - v[k - 1]) < tol:
            res.append(None)
            continue
        i = i[:k]
        p = points[i]
        if scheme == "distance_proportional":
            w = (1 - v[:k]).clamp_min(0) if cosine else 1 / v[:k].clamp_min(1e-6)
            if cosine and float(w.sum()) < 0.05:
                res.append(None)
                continue
            if not cosine and float(v[0]) < 50 * tol:
                res.append(None)  # the weight of a point this close depends on rounding
                continue
            w = w / w.sum()
        elif scheme == "least_squares":
            if torch.linalg.cond(p) > 100:
                res.append(None)
                continue
            w = torch.linalg.lstsq(p.T, t.unsqueeze(1), driver="gelsd").solution.squeeze(1)
        else:
            m = torch.zeros(k + 1, k + 1, dtype=p.dtype)
            m[:k, :k] = p @ p.T
            m[:k, k] = m[k, :k] = 1
            if torch.linalg.cond(m) > 300:
                res.append(None)
                continue
            w = torch.linalg.lstsq(m, torch.cat([p @ t, torch.ones(1, dtype=p.dtype)]).unsqueeze(1), driver="gelsd").solution.squeeze(1)[:k]
        res.append((i.tolist(), w))
    return res


def embed_names(fam, model):
    names = {}
    sd = model.state_dict()
    ein, eout = model.get_input_embeddings(), model.get_output_embeddings()
    for n, p in model.named_modules():
        if p is ein:
            names["embed"] = n + ".weight"
        if p is eout and (p.weight is not ein.weight):
            names["head"] = n + ".weight"
    return {k: v for k, v in names.items() if v in sd}


def build(ctx, rng, which, fam, dtype, rows, hidden, embeds, spec_ids):
    over = {}
    if hidden != 8:
        over["hidden_size"] = hidden
    m = make(fam, seed=rng.randrange(1 << 20), dtype=dtype, layers=rng.choice([1, 2]) if fam not in ("lfm2",) else None, vocab_size=rows, **over)
    for k, v in spec_ids.items():
        setattr(m.config, k, v)
    names = embed_names(fam, m)
    with torch.no_grad():
        sd = m.state_dict()
        for part, nm in names.items():
            sd[nm][: len(embeds[part])] = embeds[part].to(dtype)[:rows]
    p = ctx.path(which)
    m.save_pretrained(p)
    return p, m, names


def ropes(cfg):
    p = getattr(cfg, "rope_parameters", None) or {}
    return getattr(cfg, "num_attention_heads", None), p.get("full_attention", p).get("rope_theta", 10000.0)


def wl_transplant(ctx, rng):
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    bf, df = rng.choice(BASES), rng.choice(DONORS)
    bh = rng.choice([8, 16]) if bf in RESIZABLE else 8
    dh = rng.choice([8, 16]) if df in RESIZABLE else 8
    bdt, ddt = rng.choice(["float32"] * 3 + ["bfloat16", "float16"]), rng.choice(["float32"] * 3 + ["bfloat16", "float16"])
    allk = pool()
    rng.shuffle(allk)
    ns, nb, nd = rng.randint(18, 34), rng.randint(3, 12), rng.randint(2, 12)
    shared, bonly, donly = allk[:ns], allk[ns : ns + nb], allk[ns + nb : ns + nb + nd]
    if rng.random() < 0.06:
        donly = []
        ctx.event("nothing-missing")
    bs, ds = (rng.choice([s for s in STYLES if not (f.startswith("qwen2") and s[1] == "▁")]) for f in (bf, df))
    brename, drename = rng.random() < 0.5, rng.random() < 0.5
    btoks, bid, bnames = lay_out(rng, shared + bonly, bs, brename)
    dtoks, did, dnames = lay_out(rng, shared + donly, ds, drename)
    pad = rng.random() < 0.3  # without one, some tokenizer classes add a token of their own
    bpad, dpad = (pad or s[0].startswith("Qwen2") or f.startswith("qwen2") for s, f in ((bs, bf), (ds, df)))
    # relation of the two embedding spaces
    relation = rng.choice(["random", "image", "image", "noisy", "same"])
    if relation == "same":
        bh = dh = bh if df in RESIZABLE else 8
        if bf not in RESIZABLE:
            bh = dh = 8
    if relation == "image":
        dh = max(dh, bh) if df in RESIZABLE else dh
    lat = {part: {k: torch.randn(bh, generator=g, dtype=torch.float64) for k in allk + [("r", r) for r in ROLES.values()]} for part in ("embed", "head")}
    offset = rng.random() < 0.3 and relation != "same"
    image = {}
    for part in ("embed", "head"):
        q = torch.linalg.qr(torch.randn(max(bh, dh), max(bh, dh), generator=g, dtype=torch.float64))[0][:bh, :dh]
        c = torch.randn(dh, generator=g, dtype=torch.float64) * (1 if offset else 0)
        image[part] = {}
        for k, v in lat[part].items():
            x = v @ q + c
            if relation == "noisy":
                x = x + 0.3 * torch.randn(dh, generator=g, dtype=torch.float64)
            elif relation == "same":
                x = v
            elif relation == "random":
                x = torch.randn(dh, generator=g, dtype=torch.float64)
            image[part][k] = x
    exact_image = relation in ("image", "same") and dh >= bh
    hostile = []
    if rng.random() < 0.25:
        # rows as real checkpoints have them: zero padding rows and identical untrained ones
        hostile = rng.sample(sorted(did), min(len(did), rng.randint(2, 5)))
        kind = rng.choice(["zero", "same"])
        for part in ("embed", "head"):
            row = torch.zeros(dh, dtype=torch.float64) if kind == "zero" else torch.randn(dh, generator=g, dtype=torch.float64) * 0.05
            for k in hostile:
                image[part][k] = row
        hostile = [kind, hostile]
        exact_image = False
        ctx.event("hostile-rows:" + kind)

    def matrix(src, ids):
        return torch.stack([src[k] for k, _ in sorted(ids.items(), key=lambda kv: kv[1])])

    brows = len(bid) + rng.choice([0, 0, 0, 5])
    drows = len(did) + rng.choice([0, 0, 0, 7])
    boob = doob = 0
    if rng.random() < 0.12:
        boob = rng.randint(1, 3)
        brows = len(bid) - boob
        ctx.event("base-tokens-beyond-matrix")
    if rng.random() < 0.12:
        doob = rng.randint(1, 3)
        drows = len(did) - doob
        ctx.event("donor-tokens-beyond-matrix")
    specs = lambda ids, rows: {f"{r}_token_id": min(ids[("r", r)], rows - 1) for r in ("bos", "eos")} | dict(pad_token_id=min(ids[("r", "eos")], rows - 1))
    bp, bm, bn = build(ctx, rng, "base", bf, DT[bdt], brows, bh, {p: matrix(lat[p], bid) for p in lat}, specs(bid, brows))
    dp, dm, dn = build(ctx, rng, "donor", df, DT[ddt], drows, dh, {p: matrix(image[p], did) for p in image}, specs(did, drows))
    write_tok(bp, btoks, bnames, bs, bpad)
    write_tok(dp, dtoks, dnames, ds, dpad)
    for p, ids, names in ((bp, bid, bnames), (dp, did, dnames)):
        tk = T.AutoTokenizer.from_pretrained(p)
        if tk.get_vocab() != {names[t]: i for t, i in ids.items()}:
            ctx.event("tokenizer-rewritten")
            return

    usable = lambda ids, rows: {k: i for k, i in ids.items() if i < rows}
    bv, dv = usable(bid, brows), usable(did, drows)
    # special roles: pad shares a token with eos, so it makes no key of its own
    both = [k for k in dv if k in bv]
    nshared = len(both)
    method = rng.choice(["omp", "omp", "omp", "common_interpolation", "common_interpolation", "subword", "subword", "landmark_pca", "stb", "mp_rope", "mean", "zero", "randn", "john_hewitt"])
    if relation == "same":
        method = rng.choice([method, "mp_rope"])
    if method == "mp_rope" and "mamba" in (bf, df):
        return
    k = rng.choice([1, 2, 3, 5, min(bh, dh), max(bh, dh) + 1, nshared])
    if method == "stb":
        k = rng.choice([2, 3, 5, min(bh, dh)])
    cosine = rng.random() < 0.3
    scheme = rng.choice(["distance_proportional", "distance_proportional", "barycentric", "least_squares"])
    sub = rng.choice(["mean", "sum", "weighted_mean", "first_last"])
    pm, bm_ = rng.choice(["no", "no", "yes", "embed", "lm_head"]), rng.choice(["no", "no", "yes", "embed", "lm_head"])
    scale = rng.choice([None, None, 0.5, 3.0])
    noise = rng.choice([None, None, None, 0.25])
    bsz = rng.choice([None, None, -1, 1, 2, 3])
    flags = ["-a", method, "-k", str(k), "-w", scheme, "-s", sub, "-pm", pm, "-bm", bm_]
    flags += ["-c"] if cosine else []
    flags += ["-nvs", str(scale)] if scale else []
    flags += ["-nvn", str(noise)] if noise else []
    flags += ["--batch-size", str(bsz)] if bsz else []
    for f in ("--async-write", "--no-safe-serialization", "--lazy-unpickle", "--clone-tensors"):
        if rng.random() < 0.15:
            flags.append(f)
    if rng.random() < 0.15:
        flags += ["--out-shard-size", "2K"]
    out = ctx.path("out")
    ctx.describe(dict(base=bf, donor=df, bh=bh, dh=dh, bdt=bdt, ddt=ddt, styles=[bs[0], ds[0]], relation=relation, offset=offset, flags=flags, shared=nshared, missing=len(donly),
                      boob=boob, doob=doob, hostile=str(hostile), brows=brows, drows=drows))
    ctx.event("method:" + method)
    surgeon.main([bp, dp, out, *flags], standalone_mode=False)
    ctx.event("transplanted")

    ext = "bin" if "--no-safe-serialization" in flags else "safetensors"
    bt = read_checkpoint(bp)[0]
    dt_ = read_checkpoint(dp)[0]
    ot = read_checkpoint(out, ext)[0]
    want_rows = len(did)
    bparts = {p: n for p, n in bn.items()}
    # everything else is the base's
    packed = bf == "mixtral"  # written under the names the current transformers uses; judged after loading
    extra = set(ot) - set(bt) if not packed else ()
    ctx.ok(not extra, "unexpected-tensor", lambda: str(sorted(extra)[:5]))
    for n, t in bt.items():
        if bf == "phi" and n == "lm_head.bias":
            ctx.event("output-bias-judged")
            b = ot[n].double()
            for key, i in did.items():
                w = t.double()[bv[key]] if key in bv else t.double().mean()
                ctx.ok(float((b[i] - w).abs()) <= (0 if key in bv else 4 * EPS[bdt] * (1 + abs(float(w)))), "output-bias", lambda: f"{key}: {float(b[i])}, expected {float(w)}")
            continue
        if n in bparts.values() or packed and ".block_sparse_moe." in n:
            continue
        if not ctx.ok(n in ot, "lost-tensor", lambda: n):
            continue
        ctx.event("kept-tensor")
        ctx.ok(same_bits(t, ot[n]), "kept-tensor", lambda: f"{bf}: {n} is not the base model's")
    dtype_b = DT[bdt]
    eb = EPS[bdt]
    for part, nm in bparts.items():
        if nm not in bt:
            continue
        dn_ = dn.get(part) or dn["embed"]
        if dn_ not in dt_:
            dn_ = dn["embed"]
        own = dn_ == dn.get(part)  # else a tied donor's embedding stands for its output's
        B, D = bt[nm], dt_[dn_]
        if not ctx.ok(nm in ot, "lost-tensor", lambda: nm):
            continue
        O = ot[nm]
        if not ctx.ok(tuple(O.shape) == (want_rows, B.shape[1]) and O.dtype == B.dtype, "shape", lambda: f"{nm}: {tuple(O.shape)} {O.dtype}, expected {want_rows} rows of {B.shape[1]} {B.dtype}"):
            continue
        ctx.ok(bool(torch.isfinite(O).all()), "finite", lambda: f"{nm}: not finite ({method} k={k}) in rows {[i for i in range(len(O)) if not torch.isfinite(O[i]).all()][:5]}")
        new = []
        # the part of the model each option names
        here = "lm_head" if part == "head" else "embed"
        for key, i in did.items():
            if i >= drows:
                ctx.event("no-donor-row")
                ctx.ok(bool((O[i] == 0).all()), "no-donor-row", lambda: f"{nm} row {i} {key}")
                continue
            src, how = None, None
            if key in bv:
                src, how = bv[key], "exact"
            elif bm_ in ("yes", here) and (a := byte_key(key, bv)):
                src, how = bv[a], "byte"
            elif pm in ("yes", here) and (a := prefix_key(key, bv)):
                src, how = bv[a], "prefix"
            if how:
                ctx.event(how + "-row")
                if how != "exact":
                    ctx.event(f"{how}-{here}-only" if (bm_ if how == "byte" else pm) == here else f"{how}-{here}")
                ctx.ok(torch.equal(O[i], B[src]), how + "-match", lambda: f"{bf} {nm}: token {key} should have the base's row {src}, differs by {float((O[i].double() - B[src].double()).abs().max()):.3g}")
            else:
                new.append(key)
        if new:
            judge(ctx, dict(part=part, nm=nm, method=method, k=k, cosine=cosine, scheme=scheme, sub=sub, ropes=ropes(bm.config) == ropes(dm.config), scale=scale or 1.0, noise=noise, hostile=hostile), O, B, D, new, both, bv, dv, did,
                  bp, dnames, exact_image and own, offset, lat[part], bdt, ddt, relation if own else "")
        else:
            ctx.event("none-to-approximate")

    # configuration and tokenizer
    cfg = json.load(open(os.path.join(out, "config.json")))
    ctx.ok(cfg.get("vocab_size") == want_rows, "config-vocab", lambda: f"{cfg.get('vocab_size')} != {want_rows}")
    for key, v in specs(did, drows).items():
        got = cfg.get(key)
        ctx.ok(got == v, "config-special", lambda: f"{key} is {got}, the donor's is {v}")
    t0, t1 = T.AutoTokenizer.from_pretrained(dp), tokenizers.Tokenizer.from_file(os.path.join(out, "tokenizer.json"))
    ctx.ok(t0.get_vocab() == t1.get_vocab(), "tokenizer", "vocabulary differs from the donor's")
    s = "ab cd deed <|x|> feed hij"
    ctx.ok(t0(s, add_special_tokens=False)["input_ids"] == t1.encode(s, add_special_tokens=False).ids, "tokenizer", "encodes differently from the donor's")
    # the model works, and texts of shared tokens mean what they meant
    kw = dict(dtype=torch.float32, output_loading_info=True)
    if bf == "mamba":
        return
    m1, info = T.AutoModelForCausalLM.from_pretrained(out, **kw)
    ctx.ok(not info["missing_keys"] and not info["unexpected_keys"] and not info["mismatched_keys"], "loads", lambda: str({k: sorted(v)[:4] for k, v in info.items() if v}))
    m0 = T.AutoModelForCausalLM.from_pretrained(bp, dtype=torch.float32)
    sd0, sd1 = m0.state_dict(), m1.state_dict()
    eout = [n for n, m in m0.named_modules() if m is m0.get_output_embeddings()]
    for n in sd0:
        if n not in bparts.values() and not (eout and n.startswith(eout[0] + ".")):
            ctx.ok(torch.equal(sd0[n], sd1[n]), "kept-parameter", lambda: f"{bf}: {n} differs once loaded")
    if len(both) >= 4 and boob == 0 and doob == 0:
        ks = [rng.choice(both) for _ in range(5)]
        try:
            with torch.no_grad():
                a = m0(torch.tensor([[bv[k_] for k_ in ks]]), attention_mask=torch.ones(1, 5)).logits[0].double()
        except Exception:
            return  # this tiny configuration cannot be run
        with torch.no_grad():
            b = m1(torch.tensor([[dv[k_] for k_ in ks]]), attention_mask=torch.ones(1, 5)).logits[0].double()
        sel_a, sel_b = a[:, [bv[k_] for k_ in both]], b[:, [dv[k_] for k_ in both]]
        fin = torch.isfinite(sel_a) & torch.isfinite(sel_b)
        ctx.event("function-judged")
        ctx.ok(bool(((sel_a - sel_b).abs()[fin] <= 1e-4 * (1 + sel_a[fin].abs().max() if fin.any() else 1)).all()), "function",
               lambda: f"{bf}: logits of shared tokens differ by {float((sel_a - sel_b).abs()[fin].max()):.3g}")
    ctx.nontrivial(bf, df, bdt, ddt, bh, dh, tuple(flags), relation)


def judge(ctx, o, O, B, D, new, both, bv, dv, did, bp, dnames, exact_image, offset, lat, bdt, ddt, relation):
    """Rows computed for the tokens the base model lacks."""
    method, k, scale = o["method"], o["k"], o["scale"]
    got = torch.stack([O[did[t]] for t in new]).double()
    Bd, Dd = B.double(), D.double()
    tg = Dd[[dv[t] for t in new]]
    order = sorted(both, key=lambda t: dv[t])
    A, P = Dd[[dv[t] for t in order]], Bd[[bv[t] for t in order]]
    want = [None] * len(new)
    tol_in = 1e-5 if ddt == "float32" else 1e-3
    slackmul = 20
    if method == "mean":
        want = [Bd.mean(0)] * len(new)
    elif method == "zero":
        want = [torch.zeros(Bd.shape[1], dtype=torch.float64)] * len(new)
    elif method == "subword":
        tk = T.AutoTokenizer.from_pretrained(bp)
        for j, t in enumerate(new):
            if t[0] == "r":
                continue
            ids = tk((" " if t[0] == "s" else "") + t[1], add_special_tokens=False)["input_ids"]
            if any(i >= len(Bd) for i in ids) or not ids:
                continue
            r, n = Bd[ids], len(ids)
            if o["sub"] == "mean":
                want[j] = r.mean(0)
            elif o["sub"] == "sum":
                want[j] = r.sum(0)
            elif o["sub"] == "first_last":
                want[j] = r[0] if o["part"] == "head" else r[-1]
            else:
                w = torch.arange(1, n + 1, dtype=torch.float64)
                w = w.flip(0) if o["part"] == "head" else w
                want[j] = (w.unsqueeze(1) * r).sum(0) / w.sum()
            if n > 1:
                ctx.event("several-pieces:" + o["sub"])
    elif method == "omp" and k <= min(A.shape):
        for j, s in enumerate(ref_omp(tg, A, k, tol_in)):
            if s:
                want[j] = s[1] @ P[s[0]]
    elif method == "common_interpolation":
        for j, s in enumerate(ref_neighbours(tg, A, k, o["cosine"], o["scheme"], tol_in * 10)):
            if s:
                want[j] = s[1] @ P[s[0]]
    elif method == "landmark_pca" and A.shape[1] == P.shape[1] and len(A) >= A.shape[1] + 2:
        ma, mb = A.mean(0), P.mean(0)
        u, s, vt = torch.linalg.svd((A - ma).T @ (P - mb))
        if float(s[-1]) > 1e-2 * float(s[0]):
            q = u @ vt
            want = [(t - ma) @ q + mb for t in tg]
            slackmul = 400
    full = (method == "omp" and k >= A.shape[1] and not o["hostile"]) or (method == "common_interpolation" and o["scheme"] == "least_squares" and k > A.shape[1])
    if exact_image and not offset and full and A.shape[1] == P.shape[1] and len(A) >= A.shape[1] + 2:
        # the donor's space is an image of the base's: a full basis determines every token
        c = torch.linalg.svdvals(A)
        if float(c[0] / c[-1]) < 20:
            for j, t in enumerate(new):
                if want[j] is None:
                    want[j] = lat[t]
                    ctx.event("recovered-in-full")
            slackmul = 10000
    if method == "mp_rope" and relation == "same" and k >= A.shape[1] and o["ropes"] and not o["hostile"]:
        want = [lat[t] for t in new]
        slackmul = 20000
        ctx.event("recovered-in-full:mp_rope")
    if method == "stb" and exact_image and A.shape[1] == P.shape[1] and len(A) >= A.shape[1] + 2 and not o["hostile"] and not offset:
        # coefficients of centred targets in the donor's basis, applied to the base's
        ctx.event("stb-projected")
        q = torch.linalg.lstsq(A, P).solution
        want = [(t - Dd.mean(0)) @ q + Bd.mean(0) for t in tg]
        slackmul = 20000
    e = max(EPS[bdt], EPS[ddt] if method not in ("mean", "zero", "subword") else 0)
    if method == "omp":
        slackmul = max(slackmul, 600)
    if o["scheme"] != "distance_proportional" and method == "common_interpolation":
        slackmul = max(slackmul, 400)
    if method == "subword" or method == "mean":
        slackmul = 40
    for j, t in enumerate(new):
        if want[j] is None:
            ctx.event("not-determined:" + method)
            continue
        w, v = want[j] * scale, got[j]
        if o["noise"]:
            dev = (v - w).abs() / scale
            ctx.event("noise-judged")
            ctx.ok(float(dev.max()) < o["noise"] * 7 + 0.05 and float(dev.max()) > 0, "noise", lambda: f"{o['nm']} {t}: deviates by {float(dev.max()):.3g} with noise {o['noise']}")
            continue
        ctx.event("judged:" + method)
        mag = float(P.abs().max()) * scale + float(w.abs().max())
        if method in ("omp", "common_interpolation", "landmark_pca"):
            mag += 1
        ctx.ok(float((v - w).abs().max()) <= slackmul * e * mag + 1e-6, "approximation:" + method,
               lambda: f"{o['nm']} token {t} ({o['scheme']}, cosine={o['cosine']}, {o['sub']}, k={k}, {ddt}->{bdt}): off by {float((v - w).abs().max()):.3g} (allowed {slackmul * e * mag:.2g})")
    if method == "randn" and not o["noise"]:
        x = got / scale
        ctx.event("judged:randn")
        ctx.ok(x.unique().numel() > x.numel() // 2 and float(x.abs().max()) < 7 and (x.numel() < 60 or (abs(float(x.mean())) < 6 / x.numel() ** 0.5 and 0.5 < float(x.std()) < 1.6)), "randn",
               lambda: f"mean {float(x.mean())} std {float(x.std())}")
    if method == "john_hewitt" and not o["noise"]:
        mu, sd = Bd.mean(0), Bd.std(0)
        x = (got / scale - mu) / sd.clamp_min(1e-6)
        ctx.event("judged:john_hewitt")
        ctx.ok(float(x.abs().max()) < 8 and (x.numel() < 60 or (abs(float(x.mean())) < 1 and 0.3 < float(x.std()) < 2)), "john_hewitt", lambda: f"mean {float(x.mean())} std {float(x.std())}")


def ref_well(names, ids, embed, head, q=0.01):
    """Tokens that are not under-trained, or None for those too close to a threshold."""
    E, H = embed.double(), None if head is None else head.double()
    unused = set(range(len(E))) - set(ids.values()) | {i for t, i in ids.items() if "unused_token" in names[t] or "reserved_special_token" in names[t]}
    bad, unsure = set(unused), set()

    def mark(v, above):
        thr = float(torch.quantile(v, 1 - q if above else q))
        thr = max(thr, 0.5) if above else thr
        for i, x in enumerate(v.tolist()):
            if abs(x - thr) < 2e-2:
                unsure.add(i)
            elif (x > thr) == above and x != thr:
                bad.add(i)

    if H is not None:
        mark(E.norm(dim=1), False)
    if unused:
        u = sorted(unused)
        mark(torch.nn.functional.cosine_similarity(E, E[u].mean(0, keepdim=True), dim=1), True)
        if H is not None:
            mark(torch.nn.functional.cosine_similarity(H, H[u].mean(0, keepdim=True), dim=1), True)
    return {t: (False if i in unused else None if i in unsure else i not in bad) for t, i in ids.items()}


def wl_magikarp(ctx, rng):
    """Under-trained tokens are neither copied nor used, and junk stays zero."""
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    allk = pool() + [("w", f"<unused_token_{i}>") for i in range(3)] + [("w", f"<|reserved_special_token_{i}|>") for i in range(4)]
    rng.shuffle(allk)
    ns, nb, nd = rng.randint(25, 45), rng.randint(3, 10), rng.randint(3, 10)
    shared, bonly, donly = allk[:ns], allk[ns : ns + nb], allk[ns + nb : ns + nb + nd]
    bf, df = rng.choice(["llama", "llama-tied", "mistral", "gpt_neox"]), rng.choice(["llama", "llama-tied", "phi3"])
    bdt, ddt = rng.choice(["float32", "float32", "bfloat16"]), rng.choice(["float32", "float32", "float16"])
    st = [("PreTrainedTokenizerFast", "Ġ"), ("LlamaTokenizerFast", "▁")]
    sides = {}
    for which, fam, keys, dt in (("base", bf, shared + bonly, bdt), ("donor", df, shared + donly, ddt)):
        style = rng.choice(st)
        tk, ids, names = lay_out(rng, keys, style, rng.random() < 0.5)
        rows = len(ids) + rng.choice([0, 3, 6])
        vec = torch.randn(8, generator=g, dtype=torch.float64)
        mats = {}
        for part in ("embed", "head"):
            m = torch.randn(len(ids), 8, generator=g, dtype=torch.float64)
            for i in rng.sample(range(len(ids)), rng.randint(0, 5)):
                m[i] = vec * rng.uniform(0.5, 2) + 0.05 * m[i]  # under-trained rows look alike
            for i in rng.sample(range(len(ids)), rng.randint(0, 2)):
                m[i] *= 0.01
            for t, i in ids.items():
                if "unused" in t[1] or "reserved" in t[1]:
                    m[i] = vec + 0.05 * m[i]
            mats[part] = m
        p, m, parts = build(ctx, rng, which, fam, DT[dt], rows, 8, mats, dict(bos_token_id=ids[("r", "bos")], eos_token_id=ids[("r", "eos")], pad_token_id=ids[("r", "eos")]))
        write_tok(p, tk, names, style, True)
        if T.AutoTokenizer.from_pretrained(p).get_vocab() != {names[t]: i for t, i in ids.items()}:
            return
        ck = read_checkpoint(p)[0]
        e = ck[parts["embed"]]
        h = ck.get(parts.get("head"))
        if h is None and which == "donor":
            h = e  # a tied output embedding counts as one
        sides[which] = (p, ids, ref_well(names, ids, e, h), ck, parts, rows)
    ctx.describe(dict(base=bf, donor=df, bdt=bdt, ddt=ddt, shared=ns))
    (bp, bid, bw, bck, bparts, _), (dp, did, dw, dck, dparts, drows) = sides["base"], sides["donor"]
    good = {t for t in bid if t in did and bw[t] is not False and dw[t] is not False}
    out = ctx.path("out")
    surgeon.main([bp, dp, out, "-a", "mean", "--magikarp"], standalone_mode=False)
    ot = read_checkpoint(out)[0]
    for part, nm in bparts.items():
        if nm not in bck:
            continue
        O, B = ot[nm], bck[nm]
        mean = B.double().mean(0)
        for t, i in did.items():
            a, b = bw.get(t), dw[t]
            if a is None and t in bid or b is None:
                ctx.event("too-close")
                continue
            a = bool(a)
            want = "exact" if a and b else "new" if a or b else "junk"
            ctx.event("magikarp:" + want)
            row = O[i].double()
            if want == "exact":
                ctx.ok(torch.equal(O[i], B[bid[t]]), "magikarp-exact", lambda: f"{nm} {t}: well-trained in both models, but not the base's row")
            elif want == "junk":
                ctx.ok(bool((row == 0).all()), "magikarp-junk", lambda: f"{nm} {t}: under-trained in both models, but not zero")
            else:
                ctx.ok(float((row - mean).abs().max()) < 0.02 * (1 + float(mean.abs().max())), "magikarp-new", lambda: f"{nm} {t}: base well-trained={a} donor={b}, not approximated")
    ctx.nontrivial(bf, df, bdt, ddt, ns, tuple(sorted(str(t) for t in good)))


def wl_pursuit(ctx, rng):
    """Orthogonal matching pursuit on many kinds of candidates, judged from its output alone."""
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    D, N, B = rng.choice([4, 8, 24, 48]), rng.choice([6, 12, 40, 90]), rng.choice([1, 2, 5])
    k = rng.choice([1, 2, min(N, D), min(N, D + 3), N, max(1, min(N, D) // 2)])
    dt = rng.choice(["float32", "float32", "float64", "bfloat16"])
    pts = torch.randn(N, D, generator=g, dtype=torch.float64)
    kind = rng.choice(["plain", "plain", "duplicates", "zeros", "low-rank", "scaled", "correlated"])
    if kind == "duplicates":
        for _ in range(max(1, N // 3)):
            pts[rng.randrange(N)] = pts[rng.randrange(N)]
    elif kind == "zeros":
        pts[torch.rand(N, generator=g) < 0.3] = 0
        pts[0] = 0
    elif kind == "low-rank":
        r = max(1, D // 3)
        pts = torch.randn(N, r, generator=g, dtype=torch.float64) @ torch.randn(r, D, generator=g, dtype=torch.float64)
    elif kind == "scaled":
        pts *= 10 ** (torch.rand(N, 1, generator=g, dtype=torch.float64) * 4 - 2)
    elif kind == "correlated":
        pts = pts * 0.2 + torch.randn(1, D, generator=g, dtype=torch.float64)
    tgt = torch.randn(B, D, generator=g, dtype=torch.float64)
    how = [rng.choice(["free", "span", "point", "zero", "tiny"]) for _ in range(B)]
    for i, h in enumerate(how):
        if h == "span":
            j = rng.sample(range(N), min(3, N))
            tgt[i] = sum(rng.uniform(-2, 2) * pts[x] for x in j)
        elif h == "point":
            tgt[i] = pts[rng.randrange(N)]
        elif h == "zero":
            tgt[i] = 0
        elif h == "tiny":
            tgt[i] *= 1e-4
    pts, tgt = pts.to(getattr(torch, dt)), tgt.to(getattr(torch, dt))
    interval = rng.choice([256, 256, 2, 3, 7])
    ctx.describe(dict(D=D, N=N, B=B, k=k, dtype=dt, kind=kind, targets=how, interval=interval))
    ind, coef = batch_omp(tgt, pts, k, reorthogonalize_interval=interval)
    P, Tt, C = pts.double(), tgt.double(), coef.double()
    e = 2e-7 if dt != "float64" else 1e-12
    ctx.ok(tuple(ind.shape) == (B, k) and tuple(coef.shape) == (B, k), "pursuit-shape", f"{tuple(ind.shape)} {tuple(coef.shape)}", stop=True)
    if not ctx.ok(bool(torch.isfinite(C).all()), "pursuit-finite", lambda: f"coefficients {coef}"):
        return
    for b in range(B):
        ii = ind[b].tolist()
        ctx.ok(len(set(ii)) == k and all(0 <= x < N for x in ii), "pursuit-distinct", lambda: f"{ii}")
        a = P[ii].T
        t, approx = Tt[b], P[ii].T @ C[b]
        best = torch.linalg.lstsq(a, t.unsqueeze(1), rcond=1e-4, driver="gelsd").solution
        bestres = float((t - (a @ best).squeeze(1)).norm())
        res = float((t - approx).norm())
        # directions the candidates barely span may be left out
        slack = 1e-3 * float(t.norm()) + 1e3 * e * float((C[b].abs().unsqueeze(0) * a.abs()).sum())
        ctx.event("pursuit-optimal-judged")
        ctx.ok(res <= bestres + slack, "pursuit-optimal", lambda: f"{kind}/{how[b]} k={k} D={D}: residual {res:.4g}, best on the chosen points {bestres:.4g}")
        # each point chosen was the best match for what was left
        if kind in ("plain", "duplicates", "zeros", "low-rank"):
            r = t.clone()
            for s in range(k):
                if float(r.norm()) < 1e-3 * float(t.norm()) + 1e-12:
                    break
                inner = (P @ r).abs()
                if s:
                    inner[ii[:s]] = -1
                if float(inner.max()) < 1e-2 * float(r.norm()) * float(P.norm(dim=1).max()):
                    break
                ctx.event("pursuit-greedy-judged")
                if not ctx.ok(float(inner[ii[s]]) >= float(inner.max()) * (1 - 1e-2) - 1e-4 * float(t.norm()) * float(P.norm(dim=1).max()), "pursuit-greedy",
                              lambda: f"{kind}/{how[b]} step {s}: chose a match of {float(inner[ii[s]]):.4g}, best {float(inner.max()):.4g}"):
                    break
                sub = P[ii[: s + 1]].T
                r = t - (sub @ torch.linalg.lstsq(sub, t.unsqueeze(1), rcond=1e-4, driver="gelsd").solution).squeeze(1)
        if bestres < 1e-6 * float(t.norm()):
            ctx.event("pursuit-exact")
    if kind == "zeros":
        ctx.event("pursuit-zero-points")
    ctx.nontrivial(D, N, B, k, dt, kind, tuple(how), interval)


CHECK = Check(
    prop="P21",
    level="exploration",
    rule="pairs of tiny base and donor models of 27 and 9 families (equal or unequal widths, tied or not, three dtypes, padded or short matrices) with tokenizers that share a random part "
    "of their vocabulary under other ids, word-start marks and special tokens, run through mergekit-tokensurgeon with random methods and options; distinct by families, dtypes, flags and relation "
    "of the two embedding spaces",
    assumptions=["the tokenizer classes of transformers are trusted to report their vocabulary", "rows whose choice of neighbours is not clear-cut in double precision are not judged",
                 "the random methods are judged by coarse statistics, mp_rope only where it must reproduce its target"],
    workloads=[
        Workload("transplant", wl_transplant, 500, 9000,
                 require=["transplanted", "kept-tensor", "exact-row", "byte-embed-only", "byte-lm_head-only", "prefix-embed-only", "prefix-lm_head-only", "function-judged", "no-donor-row",
                          "hostile-rows:zero", "hostile-rows:same", "noise-judged", "recovered-in-full", "recovered-in-full:mp_rope", "several-pieces:weighted_mean", "several-pieces:first_last",
                          "several-pieces:sum", "several-pieces:mean", "base-tokens-beyond-matrix", "donor-tokens-beyond-matrix", "none-to-approximate", "output-bias-judged"]
                 + ["judged:" + m for m in DETERMINISTIC] + ["judged:randn", "judged:john_hewitt"]),
        Workload("magikarp", wl_magikarp, 80, 1200, require=["magikarp:exact", "magikarp:junk", "magikarp:new"]),
        Workload("pursuit", wl_pursuit, 400, 9000, require=["pursuit-optimal-judged", "pursuit-greedy-judged", "pursuit-exact", "pursuit-zero-points"]),
    ],
)
