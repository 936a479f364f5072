"""P10: averaging, interpolation and selection methods compute what their documentation says."""

import math

import torch

from vk.core import Check, Workload
from vk.methods import EPS, SCEN, build_and_run, judge

D = torch.float64


def dtype_of(rng):
    return rng.choice(["float32"] * 6 + ["bfloat16", "float16"])


def amax(ts):
    return max(float(t.double().abs().max()) for t in ts) if ts else 0.0


def num_w(rng):
    return rng.choice([0.0, 1.0, 0.5, 0.25, 2.0, -0.5, round(rng.uniform(0.05, 1.5), 3)])


# ---- linear / passthrough ---------------------------------------------------


def wl_linear(ctx, rng):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    norm = rng.choice([None, True, False, 1, 0])
    ws = [num_w(rng) for _ in range(n)]
    if norm in (None, True, 1) and abs(sum(ws)) < 0.3:
        ws[0] += 1.5
        if abs(sum(ws)) < 0.3:
            ws = [1.0] * n
    dt = dtype_of(rng)
    gp = {} if norm is None else dict(normalize=norm)
    c = build_and_run(ctx, rng, "linear", n, False, gp, [dict(weight=w) for w in ws], dt)
    ctx.describe(dict(method="linear", weights=ws, normalize=norm, dtype=dt))
    for it in c.items:
        w = sum(wi * t.to(D) for wi, t in zip(ws, it["tensors"]))
        sc = sum(abs(wi) for wi in ws) * amax(it["tensors"])
        if norm in (None, True, 1):
            w, sc = w / sum(ws), sc / abs(sum(ws))
        judge(ctx, "linear", it, w, sc, dt, info=f"weights {ws} normalize={norm}")
    ctx.nontrivial("linear", ws, norm, dt)


def wl_passthrough(ctx, rng):
    scale = rng.choice([None, None, 0.0, 1.0, 0.5, -2.0, round(rng.uniform(-2, 2), 3)])
    dt = dtype_of(rng)
    c = build_and_run(ctx, rng, "passthrough", 1, False, {}, [dict(scale=scale)] if scale is not None else [None], dt)
    for it in c.items:
        x = it["tensors"][0]
        if scale is None:
            ctx.event("weight-judged")
            ctx.ok(torch.equal(it["got"], x), "value:passthrough", lambda: f"{it['name']} changed")
        else:
            judge(ctx, "passthrough", it, x.to(D) * scale, abs(scale) * amax([x]), dt, info=f"scale {scale}")
    ctx.nontrivial("passthrough", scale, dt, c.items[0]["got"].shape)


# ---- slerp ------------------------------------------------------------------


def ref_slerp(t, a, b, dim_all=True):
    """spherical interpolation of flattened a -> b; returns list of acceptable answers and a condition number"""
    na, nb = a.norm(), b.norm()
    lerp = (1 - t) * a + t * b
    if na == 0 or nb == 0:
        return [], 1.0
    cos = float((a * b).sum() / (na * nb))
    cos = max(-1.0, min(1.0, cos))
    th = math.acos(cos)
    if th < 1e-7 or math.pi - th < 1e-7:
        return [lerp], 1.0
    s = math.sin(th)
    sl = math.sin((1 - t) * th) / s * a + math.sin(t * th) / s * b
    return [sl, lerp, cos], 1.0 / s


def wl_slerp(ctx, rng):
    dt = dtype_of(rng)
    t = rng.choice([0.0, 1.0, 0.5, 0.1, 0.9, round(rng.uniform(0, 1), 3)])
    c = build_and_run(ctx, rng, "slerp", 1, True, dict(t=t), None, dt, kinds=SCEN + ["opposed", "opposed"])
    ctx.describe(dict(method="slerp", t=t, dtype=dt))
    for it in c.items:
        a, b = it["base"].to(D), it["tensors"][0].to(D)
        sc = amax([it["base"], it["tensors"][0]])
        ok = torch.isfinite(it["got"]).all()
        ctx.ok(bool(ok), "finite:slerp", lambda: f"{it['name']} ({it['kind']}) not finite")
        if t in (0.0, 1.0):
            # the end points are the models themselves
            ctx.event("endpoint-judged")
            judge(ctx, "slerp", it, a if t == 0 else b, sc, dt, cond=4, info=f"t={t}", key="endpoint:slerp")
            continue
        r, cond = ref_slerp(t, a, b)
        if not r:
            continue
        if len(r) == 1:
            judge(ctx, "slerp", it, r[0], sc, dt, cond=4, info=f"t={t} colinear")
            continue
        sl, lerp, cos = r
        if abs(cos) > 0.9997:
            judge(ctx, "slerp", it, lerp, sc, dt, cond=4, info=f"t={t} cos={cos:.5f} (nearly colinear: linear)")
            ctx.event("colinear" if cos > 0 else "opposed")
        elif abs(cos) < 0.9993:
            judge(ctx, "slerp", it, sl, sc, dt, cond=4 * min(cond, 100), info=f"t={t} cos={cos:.5f}")
            ctx.event("slerp-proper")
    ctx.nontrivial("slerp", t, dt, c.items[0]["got"].shape, rng.random())


def wl_nuslerp(ctx, rng):
    dt = rng.choice(["float32"] * 8 + ["bfloat16", "float16"])
    has_base = rng.random() < 0.5
    ws = [rng.choice([0.0, 1.0, 0.5, 2.0, round(rng.uniform(0, 2), 3)]) for _ in range(2)]
    gp = {}
    flat = rng.choice([None, True, False, False])
    row = rng.choice([None, True, False])
    if flat is not None:
        gp["nuslerp_flatten"] = flat
    if row is not None:
        gp["nuslerp_row_wise"] = row
    c = build_and_run(ctx, rng, "nuslerp", 2, has_base, gp, [dict(weight=w) for w in ws], dt)
    t = 0.5 if abs(sum(ws)) < 1e-6 else ws[1] / sum(ws)
    ctx.describe(dict(method="nuslerp", weights=ws, base=has_base, **gp))
    for it in c.items:
        x, y = [v.to(D) for v in it["tensors"]]
        off = it["base"].to(D) if has_base else torch.zeros_like(x)
        if has_base:
            x = (it["tensors"][0] - it["base"]).to(D)
            y = (it["tensors"][1] - it["base"]).to(D)
        sc = max(amax([x, y]), amax([off]))
        if flat is not False:
            groups = [(slice(None),)]
            X, Y = x.reshape(1, -1), y.reshape(1, -1)
        elif row and x.dim() > 1:
            X, Y = x.transpose(0, -1), y.transpose(0, -1)
        else:
            X, Y = (x, y) if x.dim() > 1 else (x.reshape(1, -1), y.reshape(1, -1))
        out = torch.zeros_like(X)
        unsure = torch.zeros_like(X, dtype=torch.bool)
        cond = 1.0
        for i in range(X.shape[0]):
            r, cn = ref_slerp(t, X[i], Y[i])
            if not r:
                if float(X[i].norm()) == 0 and float(Y[i].norm()) == 0:
                    out[i] = 0
                else:
                    unsure[i] = True
                    # interpolating with a zero vector has no direction, but must stay between the ends
                continue
            if len(r) == 1:
                if float((X[i] * Y[i]).sum()) < 0:
                    unsure[i] = True
                else:
                    out[i] = r[0]
                continue
            if r[2] < (-0.999 if dt == "float32" else -0.96):
                unsure[i] = True
                continue
            out[i] = r[0]
            cond = max(cond, min(cn, 50.0))
        if flat is not False or x.dim() == 1:
            out, unsure = out.reshape(x.shape), unsure.reshape(x.shape)
        elif row:
            out, unsure = out.transpose(0, -1), unsure.transpose(0, -1)
        ctx.ok(bool(torch.isfinite(it["got"]).all()), "finite:nuslerp", lambda: f"{it['name']} ({it['kind']}, {dt}) not finite")
        if dt == "float16" and sc > 100:
            continue
        judge(ctx, "nuslerp", it, off + out, sc, dt, cond=8 * cond if dt == "float32" else 6, unsure=unsure,
              info=f"weights {ws} flatten={flat} row={row} base={has_base}")
    if flat is False:
        ctx.event("rowcol-wise")
    ctx.nontrivial("nuslerp", ws, flat, row, has_base, dt)


def wl_multislerp(ctx, rng):
    dt = rng.choice(["float32"] * 8 + ["bfloat16", "float16"])
    n = rng.choice([1, 2, 2, 3, 4])
    has_base = rng.random() < 0.5
    ws = [rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.1, 2), 3)]) for _ in range(n)]
    gp = {}
    nw = rng.choice([None, True, False])
    if nw is not None:
        gp["normalize_weights"] = nw
    kinds = None
    if n > 2:
        # weighted sums of more than two directions that vanish are refused (documented)
        kinds = ["indep", "small", "one-same", "two-same", "zero-base", "scaled", "outlier"] + (["tiny"] if dt == "float32" else [])
    elif n == 2:
        kinds = ["indep", "small", "tiny", "one-same", "two-same", "zero-base", "scaled", "outlier", "sparse", "same-as-base", "grid", "shift"]
    c = build_and_run(ctx, rng, "multislerp", n, has_base, gp, [dict(weight=w) for w in ws], dt, kinds=kinds)
    ctx.describe(dict(method="multislerp", weights=ws, base=has_base, **gp))
    W = [w / sum(ws) for w in ws] if nw in (None, True) else ws
    for it in c.items:
        ctx.ok(bool(torch.isfinite(it["got"]).all()), "finite:multislerp", lambda: f"{it['name']} ({it['kind']}, {dt}, base={has_base}) not finite")
        if n == 1:
            judge(ctx, "multislerp", it, it["tensors"][0].to(D), amax(it["tensors"]), dt)
            continue
        off = it["base"].to(D) if has_base else torch.zeros(it["got"].shape, dtype=D)
        xs = [(t - it["base"]).to(D) if has_base else t.to(D) for t in it["tensors"]]
        nrm = [float(x.norm()) for x in xs]
        us = [x / q if q > 0 else x for x, q in zip(xs, nrm)]
        mean = sum(w * u for w, u in zip(W, us))
        mn = float(mean.norm())
        if mn < 1e-6:
            if max(nrm) == 0:
                judge(ctx, "multislerp", it, off, amax([off]) + 1e-6, dt, cond=4)
            continue
        if mn < 0.05 or min([q for q in nrm if q > 0], default=1) < 1e-3:
            continue
        mean = mean / mn
        tan = sum(w * (u - (u * mean).sum() * mean) for w, u in zip(W, us))
        tn = float(tan.norm())
        res = mean * math.cos(tn) + (tan * (math.sin(tn) / tn) if tn > 1e-12 else 0 * tan)
        res = res * sum(w * q for w, q in zip(W, nrm))
        sc = amax([off]) + float(res.abs().max()) + amax(xs)
        judge(ctx, "multislerp", it, off + res, sc, dt, cond=8 / mn, info=f"weights {ws} normalize={nw} base={has_base}")
    ctx.nontrivial("multislerp", ws, nw, has_base, dt)


def wl_karcher(ctx, rng):
    dt = rng.choice(["float32"] * 8 + ["bfloat16"])
    n = rng.choice([1, 2, 2, 3, 4])
    gp = {}
    if rng.random() < 0.4:
        gp["max_iter"] = rng.choice([10, 20, 50])
    if rng.random() < 0.3:
        gp["tol"] = rng.choice([1e-5, 1e-6])
    c = build_and_run(ctx, rng, "karcher", n, False, gp, None, dt)
    ctx.describe(dict(method="karcher", n=n, **gp))
    for it in c.items:
        ctx.ok(bool(torch.isfinite(it["got"]).all()), "finite:karcher", lambda: f"{it['name']} ({it['kind']}, {dt}) not finite")
        xs = [t.to(D) for t in it["tensors"]]
        if n == 1:
            judge(ctx, "karcher", it, xs[0], amax(xs), dt)
            continue
        nrm = [float(x.norm()) for x in xs]
        s = sum(nrm) / n
        if max(nrm) == 0:
            judge(ctx, "karcher", it, 0 * xs[0], 1e-6, dt)
            continue
        us = [x / q for x, q in zip(xs, nrm) if q > 1e-3]
        if len(us) < len([q for q in nrm if q > 0]):
            continue
        # skip sets without a well-defined mean
        pair = min(float((a * b).sum()) for a in us for b in us)
        if pair < -0.9:
            continue
        u = sum(us)
        u = u / u.norm()
        for _ in range(gp.get("max_iter", 10) * 20):
            T = torch.zeros_like(u)
            for v in us:
                dv = float((u * v).sum().clamp(-1, 1))
                th = math.acos(dv)
                if th > 1e-9:
                    T += th / math.sin(th) * (v - dv * u) / len(us)
            q = float(T.norm())
            if q < 1e-12:
                break
            u = math.cos(q) * u + math.sin(q) * T / q
            u = u / u.norm()
        tol = 2e-3 if dt == "float32" else 0.06
        got = it["got"].to(D)
        ctx.event("weight-judged")
        ctx.event("kind:" + it["kind"])
        ctx.ok(abs(float(got.norm()) - s) <= tol * s, "value:karcher", lambda: f"{it['name']} ({it['kind']}) norm {float(got.norm()):.5g}, mean norm {s:.5g}")
        dev = float((got / max(float(got.norm()), 1e-30) - u).norm())
        ctx.ok(dev <= ((5e-3 if pair > -0.3 else 0.15) if dt == "float32" else 0.2), "value:karcher", lambda: f"{it['name']} ({it['kind']}) direction off by {dev:.3g} from the Karcher mean")
    ctx.nontrivial("karcher", n, str(gp), dt, rng.random())


# ---- selection methods --------------------------------------------------------


def wl_nearswap(ctx, rng):
    dt = dtype_of(rng)
    t = rng.choice([0.0, 1e-4, 1e-3, 0.01, 0.1, 1.0])
    c = build_and_run(ctx, rng, "nearswap", 1, True, dict(t=t), None, dt)
    ctx.describe(dict(method="nearswap", t=t, dtype=dt))
    for it in c.items:
        a, b = it["base"].to(D), it["tensors"][0].to(D)
        d = (a - b).abs()
        w = torch.where(d > 0, (t / d.clamp(min=1e-30)).clamp(0, 1), torch.ones_like(d))
        unsure = (d > 0) & (d < 4e-6) if dt == "float32" else (d < 1e-2)
        judge(ctx, "nearswap", it, w * b + (1 - w) * a, amax([a, b]), dt, cond=4, unsure=unsure, info=f"t={t}")
    ctx.nontrivial("nearswap", t, dt, rng.random())


def wl_model_stock(ctx, rng):
    dt = rng.choice(["float32"] * 8 + ["bfloat16"])
    n = rng.choice([2, 2, 3, 4])
    fw = rng.choice([None, False, True])
    c = build_and_run(ctx, rng, "model_stock", n, True, {} if fw is None else dict(filter_wise=fw), None, dt)
    ctx.describe(dict(method="model_stock", n=n, filter_wise=fw))
    for it in c.items:
        b = it["base"].to(D)
        xs = [t.to(D) for t in it["tensors"]]
        offs = [(t - it["base"]).to(D) for t in it["tensors"]]
        if not fw:
            B, X, O = b.reshape(1, -1), [x.reshape(1, -1) for x in xs], [o.reshape(1, -1) for o in offs]
        else:
            sh = b.shape if b.dim() > 1 else (1, -1)
            B, X, O = b.reshape(sh), [x.reshape(sh) for x in xs], [o.reshape(sh) for o in offs]
        ncos, tiny = [], torch.zeros(B.shape[0], dtype=torch.bool)
        for i in range(n):
            for j in range(i + 1, n):
                pr = O[i].norm(dim=-1) * O[j].norm(dim=-1)
                tiny |= (pr < 1e-5) & (pr > 0)
                ncos.append(torch.where(pr > 0, (O[i] * O[j]).sum(-1) / pr.clamp(min=1e-30), torch.zeros_like(pr)).clamp(-1, 1))
        cos = torch.stack(ncos).mean(0)
        den = 1 + (n - 1) * cos
        t = (n * cos / den).unsqueeze(-1)
        res = t * (sum(X) / n) + (1 - t) * B
        unsure = (tiny | (den.abs() < 0.2)).unsqueeze(-1).expand_as(B)
        sc = amax(xs + [b])
        judge(ctx, "model_stock", it, res.reshape(b.shape), sc, dt, cond=60 if dt == "float32" else 12,
              unsure=unsure.reshape(b.shape), info=f"n={n} filter_wise={fw}")
    ctx.nontrivial("model_stock", n, fw, dt, rng.random())


def wl_arcee(ctx, rng):
    dt = rng.choice(["float32"] * 8 + ["bfloat16", "float16"])
    c = build_and_run(ctx, rng, "arcee_fusion", 1, True, {}, None, dt)
    ctx.describe(dict(method="arcee_fusion", dtype=dt))
    for it in c.items:
        a, b = it["base"].to(D), it["tensors"][0].to(D)
        got = it["got"].to(D)
        tol = 40 * EPS[dt] * amax([a, b]) + 1e-12
        is_a, is_b = (got - a).abs() <= tol, (got - b).abs() <= tol
        ctx.event("weight-judged")
        ctx.ok(bool((is_a | is_b).all()), "value:arcee_fusion", lambda: f"{it['name']} ({it['kind']}): an element is neither the base's nor the other model's")
        if dt != "float32" or it["kind"] in ("tiny", "grid", "shift", "same-as-base", "all-zero", "zero-row", "one-same"):
            continue
        p, q = torch.softmax(b, -1) + 1e-8, torch.softmax(a, -1) + 1e-8
        kl = (p * (p / q).log()).sum(-1, keepdim=True)
        imp = (b - a).abs() * kl
        s = imp.reshape(-1).sort().values
        qn = lambda f: float(s[int(f * (s.numel() - 1))])
        thr = qn(0.5) + 1.5 * (qn(0.75) - qn(0.25))
        # rounding of the divergence may move elements next to the threshold, and the threshold itself
        slack = 2e-3 * abs(thr) + 1e-6 * float(imp.abs().max()) + 1e-7 * float((b - a).abs().max())
        hi, lo = imp > thr + slack, imp < thr - slack
        sep = (a - b).abs() > 4 * tol
        ctx.event("mask-judged")
        ctx.ok(bool((is_b | ~(hi & sep)).all()), "value:arcee_fusion", lambda: f"{it['name']} ({it['kind']}): an important change was not taken")
        ctx.ok(bool((is_a | ~(lo & sep)).all()), "value:arcee_fusion", lambda: f"{it['name']} ({it['kind']}): an unimportant change was taken")
    ctx.nontrivial("arcee", dt, rng.random())


# ---- embeddings of different sizes ---------------------------------------------


def wl_embed_sizes(ctx, rng):
    """Without a configured tokenizer, embeddings with different row counts are merged over their common rows."""
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    from vk.ckpt import read_checkpoint
    from vk.models import llama_config, llama_shapes, write_ckpt

    method = rng.choice(["linear", "slerp", "nuslerp", "karcher", "model_stock", "arcee_fusion", "task_arithmetic"])
    two = method in ("slerp", "arcee_fusion")
    n = 1 if two else rng.choice([2, 3]) if method != "nuslerp" else 2
    has_base = two or method in ("model_stock", "task_arithmetic")
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    hidden, inter = rng.choice([4, 8]), rng.choice([3, 8])
    vocs = [rng.choice([5, 6, 9, 12, 17]) for _ in range(n + has_base)]
    if method == "task_arithmetic":
        vocs[0] = min(vocs)
    if len(set(vocs)) == 1:
        vocs[-1] += 3
    paths, tens = [], []
    for i, v in enumerate(vocs):
        cfg = llama_config(layers=1, hidden=hidden, inter=inter, heads=2, vocab=v)
        t = {k: torch.randn(s, generator=g) for k, s in llama_shapes(cfg).items()}
        p = ctx.path(f"v{i}")
        write_ckpt(p, cfg, t, "st", None, rng)
        paths.append(p)
        tens.append(t)
    order = list(range(n + has_base))
    rng.shuffle(order)
    c = dict(merge_method=method, dtype="float32")
    ents = [dict(model=paths[i]) for i in order]
    ws = {i: rng.choice([1.0, 0.5, 0.25]) for i in order}
    if method in ("linear", "nuslerp", "task_arithmetic"):
        for e, i in zip(ents, order):
            e["parameters"] = dict(weight=ws[i])
    if has_base:
        c["base_model"] = paths[0]
    if method == "slerp":
        c["parameters"] = dict(t=0.5)
    c["models"] = ents
    out = ctx.path("out")
    run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True, copy_tokenizer=False))
    got, _, _ = read_checkpoint(out)
    rows = vocs[0] if method == "task_arithmetic" else min(vocs)
    for nm in ("model.embed_tokens.weight", "lm_head.weight"):
        x = got[nm].double()
        ctx.event("mismatch-judged")
        ctx.ok(tuple(x.shape) == (rows, hidden), f"submatrix:{method}", lambda: f"{method} {nm}: shape {tuple(x.shape)} from vocabularies {vocs}", stop=True)
        ins = [t[nm][:rows].double() for t in tens]
        if method == "linear":
            w = sum(ws[i] * ins[i] for i in order) / sum(ws.values())
        elif method == "task_arithmetic":
            w = ins[0] + sum(ws[i] * (ins[i] - ins[0]) for i in order if i)
        elif method in ("slerp", "nuslerp"):
            a, b = (ins[0], ins[1]) if has_base else (ins[order[0]], ins[order[1]])
            t = 0.5 if has_base else ws[order[1]] / sum(ws.values())
            r, _ = ref_slerp(t, a, b)
            if len(r) < 3 or abs(r[2]) > 0.99:
                continue
            w = r[0]
        elif method == "arcee_fusion":
            ctx.ok(bool((((x - ins[0]).abs() < 1e-5) | ((x - ins[1]).abs() < 1e-5)).all()), f"submatrix:{method}", lambda: f"{nm}: elements not from the common rows")
            continue
        else:
            nrm = sum(float(i.norm()) for i in ins) / len(ins)
            if method == "karcher":
                ctx.ok(abs(float(x.norm()) - nrm) < 1e-3 * nrm, f"submatrix:{method}", lambda: f"{nm}: norm {float(x.norm()):.5g}, mean norm over common rows {nrm:.5g}")
            continue
        ctx.ok(bool(((x - w).abs() < 1e-4).all()), f"submatrix:{method}", lambda: f"{method} {nm}: differs by {float((x - w).abs().max()):.3g}, vocabularies {vocs}")
    ctx.nontrivial("embed", method, tuple(vocs), tuple(order))


CHECK = Check(
    prop="P10",
    level="exploration",
    rule="end-to-end merges of tiny models whose weights stand in 18 kinds of relation (independent, small/tiny/sparse/outlier "
    "changes, identical, colinear, zero, grids...), all parameters of linear, passthrough, slerp, nuslerp, multislerp, karcher, "
    "nearswap, model_stock and arcee_fusion, three dtypes, models or repeated slices; every output weight is compared with a "
    "float64 evaluation of the documented formula; distinct by method and parameters",
    assumptions=["where the formula is ill-conditioned (antipodal or zero vectors, vanishing weight sums, ties at a threshold) only "
                 "finiteness, dtype and shape are judged"],
    workloads=[
        Workload("linear", wl_linear, 220, 4000, require=["weight-judged", "repeated-layer"]),
        Workload("passthrough", wl_passthrough, 80, 800, require=["weight-judged"]),
        Workload("slerp", wl_slerp, 220, 4000, require=["slerp-proper", "endpoint-judged", "opposed", "colinear"]),
        Workload("nuslerp", wl_nuslerp, 220, 4000, require=["rowcol-wise", "repeated-layer"]),
        Workload("multislerp", wl_multislerp, 200, 3000, require=["weight-judged"]),
        Workload("karcher", wl_karcher, 160, 2000, require=["weight-judged"]),
        Workload("nearswap", wl_nearswap, 120, 2000, require=["weight-judged"]),
        Workload("model_stock", wl_model_stock, 160, 2500, require=["weight-judged"]),
        Workload("embed_sizes", wl_embed_sizes, 120, 1500, require=["mismatch-judged"]),
        Workload("arcee", wl_arcee, 160, 2500, require=["mask-judged"]),
    ],
)
