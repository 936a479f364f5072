"""P11: task-vector methods combine the models' changes as documented."""

import itertools
import math

import torch

from vk.core import Check, Workload
from vk.methods import EPS, build_and_run, judge

D = torch.float64
DEFAULTS = {  # documented / published defaults: sign consensus, pruning, normalize, rescale
    "task_arithmetic": (False, None, False, False),
    "ties": (True, "magnitude", True, False),
    "breadcrumbs": (False, "outliers", False, False),
    "breadcrumbs_ties": (True, "outliers", False, False),
    "dare_linear": (False, "random", False, True),
    "dare_ties": (True, "random", False, True),
    "della": (True, "della", True, True),
    "della_linear": (False, "della", False, True),
}


def amax(ts):
    return max([float(t.double().abs().max()) for t in ts if t.numel()] or [0.0])


def wnum(rng, neg):
    return rng.choice([1.0, 0.5, 0.25, 2.0, round(rng.uniform(0.1, 1.5), 3)] + ([-0.5, -1.0] if neg else []) + [0.0] * (rng.random() < 0.15))


def pick(rng, default, *choices):
    """an explicit setting, or None for the default -> (setting or None, effective)"""
    if rng.random() < 0.45:
        return None, default
    v = rng.choice(choices)
    return v, v


def prune_ref(delta, mode, density, gamma):
    """-> (keep mask, undecided mask) of the magnitude based pruning"""
    n = delta.numel()
    keep = torch.ones_like(delta, dtype=torch.bool)
    und = torch.zeros_like(keep)
    if mode is None or density >= 1:
        return keep, und
    a = delta.abs().double().reshape(-1)
    s = a.sort(descending=True).values
    if mode == "magnitude":
        top, k = 0, int(density * n)
    else:
        k = int(density * n)
        top = min(int(gamma * n), n - k)
    lo, hi = top, top + k  # ranks [lo, hi) are kept
    keep = torch.zeros(n, dtype=torch.bool)
    und = torch.zeros(n, dtype=torch.bool)
    if k <= 0:
        return keep.reshape(delta.shape), und.reshape(delta.shape)
    vmax, vmin = float(s[lo]), float(s[hi - 1])
    keep = (a <= vmax) & (a >= vmin)
    eps = 1e-6 * (float(s[0]) + 1e-30)
    # equal magnitudes on both sides of a cut may be kept or dropped
    if lo > 0 and float(s[lo - 1]) - vmax <= eps:
        und |= (a - vmax).abs() <= 2 * eps
    if hi < n and vmin - float(s[hi]) <= eps:
        und |= (a - vmin).abs() <= 2 * eps
    und |= keep & (a == 0)
    und &= a > 0  # dropping a zero changes nothing
    return keep.reshape(delta.shape), und.reshape(delta.shape)


def consensus(wd, dt):
    """weighted deltas [n,...] -> (mask, undecided)"""
    s = wd.sum(0)
    S = wd.abs().sum(0)
    und = (s.abs() <= (1e-5 if dt == "float32" else 8 * EPS[dt]) * S) & (S > 0)
    maj = torch.where(s >= 0, 1.0, -1.0)
    return (wd.sign() == maj), und


def mix(deltas, ws, cons, norm, lam, dt="float32"):
    """-> (mixed delta, undecided, condition number per element)"""
    dl = torch.stack(deltas)
    w = torch.tensor(ws, dtype=D).reshape([-1] + [1] * (dl.dim() - 1))
    wd = dl * w
    cond = torch.ones_like(dl[0])
    und = torch.zeros_like(dl[0], dtype=torch.bool)
    if cons:
        m, und = consensus(wd, dt)
        mixed = (wd * m).sum(0)
        div = (w * m).sum(0)
        absw = (w.abs() * m).sum(0)
    else:
        mixed = wd.sum(0)
        div = w.sum(0).expand_as(mixed).clone()
        absw = w.abs().sum(0).expand_as(mixed)
    if norm:
        und = und | ((div.abs() < 0.02) & (absw > 0.0) & (mixed != 0))
        div = torch.where(div == 0, torch.ones_like(div), div)
        mixed = mixed / div
        cond = (absw / div.abs()).clamp(min=1)
    return mixed * lam, und, cond


def rescale(delta, keep):
    b, a = float(delta.abs().sum()), float((delta * keep).abs().sum())
    return b / a if a > 1e-7 and b > 1e-7 else 1.0


def setup(rng, method, neg_ok=True):
    cons, mode, dnorm, dresc = DEFAULTS[method]
    gp = {}
    for nm, dv in (("normalize", dnorm), ("rescale", dresc)):
        s, eff = pick(rng, dv, True, False)
        if s is not None:
            gp[nm] = s
        if nm == "normalize":
            norm = eff
        else:
            resc = eff
    lam, lameff = pick(rng, 1.0, 1.0, 0.5, 0.0, -1.0, 1.7, 2.0)
    if lam is not None:
        gp["lambda"] = lam
    if rng.random() < 0.3:
        gp["int8_mask"] = rng.choice([True, False])
    return cons, mode, norm, resc, lameff, gp


def deterministic(method, hid):
    def run(ctx, rng):
        cons, mode, norm, resc, lam, gp = setup(rng, method)
        n = rng.choice([1, 2, 2, 3, 4, 5])
        neg = rng.random() < 0.5
        mp, eff = [], []
        for _ in range(n):
            p = dict(weight=wnum(rng, neg))
            dens, gam = 1.0, 0.01
            if mode and rng.random() < 0.85:
                dens = p["density"] = rng.choice([0.9, 0.7, 0.5, 0.3, 0.2, 1.0, round(rng.uniform(0.15, 0.98), 3)])
            if mode == "outliers" and rng.random() < 0.8:
                gam = p["gamma"] = rng.choice([0.0, 0.01, 0.1, 0.2, 0.5, 0.05])
            mp.append(p)
            eff.append((p["weight"], dens, gam))
        dt = rng.choice(["float32"] * 8 + ["bfloat16", "float16"])
        c = build_and_run(ctx, rng, method, n, True, gp, mp, dt, hid=hid)
        ctx.describe(dict(method=method, params=gp, models=mp, dtype=dt))
        for it in c.items:
            b = it["base"]
            deltas = [(t - b).to(D) for t in it["tensors"]]
            und = torch.zeros(b.shape, dtype=torch.bool)
            pr, skip, scale = [], False, amax([b])
            for d, (w, dens, gam) in zip(deltas, eff):
                k, u = prune_ref(d, mode, dens, gam)
                und |= u
                f = 1.0
                if resc and mode and dens < 1:
                    f = rescale(d, k)
                    skip = skip or bool(u.any())
                pr.append(d * k * f)
                scale += abs(w) * f * amax([d]) * abs(lam)
                if bool((~k & (d != 0)).any()):
                    ctx.event("pruned")
            if skip:
                ctx.event("skipped-tie")
                continue
            mixed, u2, cond = mix(pr, [e[0] for e in eff], cons, norm, lam, dt)
            if cons and n > 1:
                ctx.event("consensus")
            judge(ctx, method, it, b.to(D) + mixed, scale, dt, cond=4 * cond if dt == "float32" else 2 * cond, unsure=und | u2,
                  info=f"params {gp} models {mp}")
            same = torch.stack([d == 0 for d in deltas]).all(0)
            if bool(same.any()):
                ctx.event("unchanged-judged")
                ctx.ok(bool((it["got"] == b)[same].all()), f"unchanged:{method}",
                       lambda: f"{it['name']} ({it['kind']}): an element no model changes differs from the base model's")
        ctx.nontrivial(method, str(gp), str(mp), dt)

    return run


def random_pruning(method):
    def run(ctx, rng):
        cons, mode, norm, resc, lam, gp = setup(rng, method)
        if lam in (0.0,):
            gp["lambda"] = lam = 1.0
        n = rng.choice([1, 1, 2, 2, 3])
        subset = n > 1 and rng.random() < 0.5
        if subset:
            gp["rescale"] = resc = False
            norm = gp["normalize"] = rng.random() < 0.3
            kinds = ["indep", "small"]
        else:
            kinds = ["disjoint"] if n > 1 else ["indep", "small", "disjoint"]
        mp, eff = [], []
        for i in range(n):
            p = dict(weight=rng.choice([1.0, 0.5, 0.75, 2.0, 0.3]) if not subset else [1.0, 0.37, 0.61][i])
            dens, ep = 1.0, 0.15
            if rng.random() < 0.9:
                if mode == "della":
                    dens = p["density"] = rng.choice([0.3, 0.5, 0.7, 0.6, 0.4])
                    if rng.random() < 0.7:
                        ep = p["epsilon"] = rng.choice([0.05, 0.1, 0.2, 0.25])
                else:
                    dens = p["density"] = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9, round(rng.uniform(0.1, 0.95), 3)])
            mp.append(p)
            eff.append((p["weight"], dens, ep))
        c = build_and_run(ctx, rng, method, n, True, gp, mp, "float32", kinds=kinds, hid=[4, 6, 8, 12, 16],
                          opts=dict(random_seed=rng.randrange(2**31)))
        ctx.describe(dict(method=method, params=gp, models=mp))
        ws = [e[0] for e in eff]
        stat = [[0.0, 0.0, 0.0, 0.0] for _ in range(n)]  # sum(k-p), sum var, rank-weighted, its variance
        cross = {}
        for it in c.items:
            b = it["base"].to(D)
            got = it["got"].to(D) - b
            deltas = [(t - it["base"]).to(D) for t in it["tensors"]]
            tol = 3e-6 * (amax([b]) + amax(deltas) * 2) * max(1.0, abs(lam))
            ctx.event("weight-judged")
            keeps = []
            if subset:
                # every element is what some choice of kept changes gives
                best = torch.full(b.shape, float("inf"), dtype=D)
                second = best.clone()
                arg = torch.zeros(b.shape, dtype=torch.long)
                for code in range(2**n):
                    ks = [(code >> i) & 1 for i in range(n)]
                    if any(not ks[i] and eff[i][1] >= 1 for i in range(n)):
                        continue
                    v, u, _ = mix([d * k for d, k in zip(deltas, ks)], ws, cons, norm, lam)
                    e = torch.where(u, torch.zeros_like(v), (got - v).abs())
                    second = torch.where(e < best, best, torch.minimum(second, e))
                    arg = torch.where(e < best, torch.full_like(arg, code), arg)
                    best = torch.minimum(best, e)
                ctx.event("subset-judged")
                ctx.ok(bool((best <= 4 * tol).all()), f"subset:{method}",
                       lambda: f"{it['name']} ({it['kind']}): value off by {float(best.max()):.3g} from every choice of kept changes; {gp} {mp}")
                if not cons:
                    sure = second > 20 * tol
                    for i in range(n):
                        keeps.append((((arg >> i) & 1).bool(), sure))
            else:
                for i, d in enumerate(deltas):
                    own = d != 0
                    if not bool(own.any()):
                        continue
                    div = 1.0
                    if norm:
                        div = ws[i] if cons else sum(ws)
                    fac = ws[i] * lam / div
                    x = torch.where(own, got / torch.where(own, d, torch.ones_like(d)), torch.zeros_like(d))
                    big = own & (d.abs() * abs(fac) > 200 * tol)
                    kept = own & (got.abs() > 0.5 * d.abs() * abs(fac))
                    f = rescale(d, kept.to(D)) if resc and eff[i][1] < 1 else 1.0
                    want = d * fac * f * kept
                    err = torch.where(big, (got - want).abs(), torch.zeros_like(got))
                    small = bool((own & ~big).any())
                    t2 = tol * (4 + 4 * f) + (0.02 * want.abs() if small else 0)
                    ctx.ok(bool((err <= t2).all()), f"kept-or-dropped:{method}",
                           lambda: f"{it['name']} ({it['kind']}) model {i}: an element is neither dropped nor its change times {fac * f:.6g}: "
                                   f"off by {float(err.max()):.3g}; {gp} {mp}")
                    keeps.append((kept, big)) if n == 1 else None
                    acc(stat[i], d, kept, big, eff[i], mode)
                if n == 1:
                    keeps = []
                for i in range(n):
                    if eff[i][1] >= 1:
                        continue
                    ctx.event("rescaled" if resc else "not-rescaled")
                none = torch.stack([d == 0 for d in deltas]).all(0)
                ctx.ok(bool((got[none] == 0).all()), f"unchanged:{method}", lambda: f"{it['name']}: an element no model changes differs from the base")
            if keeps:
                for i, d in enumerate(deltas):
                    acc(stat[i], d, keeps[i][0], keeps[i][1] & (d.abs() > 0), eff[i], mode)
                if mode == "random":
                    for i, j in itertools.combinations(range(n), 2):
                        pi, pj = eff[i][1], eff[j][1]
                        if pi >= 1 or pj >= 1:
                            continue
                        m = keeps[i][1] & keeps[j][1]
                        v = ((keeps[i][0].to(D) - pi) * (keeps[j][0].to(D) - pj))[m]
                        cr = cross.setdefault((i, j), [0.0, 0.0])
                        cr[0] += float(v.sum())
                        cr[1] += v.numel() * pi * (1 - pi) * pj * (1 - pj)
        for i in range(n):
            s, v, r, rv = stat[i]
            if v > 0:
                ctx.event("density-judged")
                ctx.ok(abs(s) <= 6.5 * math.sqrt(v) + 3, f"density:{method}",
                       lambda: f"model {i}: {s:+.1f} more elements kept than density {eff[i][1]} gives (sigma {math.sqrt(v):.1f})")
            if rv > 0 and mode == "della":
                ctx.event("rank-judged")
                ctx.ok(abs(r) <= 6.5 * math.sqrt(rv) + 2, f"rank:{method}",
                       lambda: f"model {i}: larger changes are not kept with the probability epsilon {eff[i][2]} gives ({r:+.1f}, sigma {math.sqrt(rv):.1f})")
        for (i, j), (s, v) in cross.items():
            if v > 3:
                ctx.event("independence-judged")
                ctx.ok(abs(s) <= 6.5 * math.sqrt(v) + 3, f"independent:{method}",
                       lambda: f"models {i} and {j} drop the same positions ({s:+.1f}, sigma {math.sqrt(v):.1f})")
        ctx.nontrivial(method, str(gp), str(mp))

    return run


def acc(st, d, kept, sure, e, mode):
    w, dens, ep = e
    if dens >= 1:
        return
    if mode == "random":
        p = torch.full(d.shape, dens, dtype=D)
        rn = torch.zeros_like(p)
    else:
        x = d.abs().reshape(d.shape if d.dim() > 1 else (1, -1))
        L = x.shape[1]
        rk = x.argsort(1).argsort(1).to(D)
        rn = (rk / (L - 1) if L > 1 else torch.full_like(rk, 0.5)).reshape(d.shape)
        p = dens - ep + 2 * ep * rn
        sure = sure & (d != 0)
    k = kept.to(D)[sure]
    p, rn = p[sure], rn[sure]
    st[0] += float((k - p).sum())
    st[1] += float((p * (1 - p)).sum())
    c = rn - 0.5
    st[2] += float(((k - p) * c).sum())
    st[3] += float((p * (1 - p) * c * c).sum())


def wl_sce(ctx, rng):
    n = rng.choice([1, 2, 2, 3, 4])
    gp = {}
    topk, tk = pick(rng, 1.0, 1.0, 0.9, 0.5, 0.25, 0.1, 0.02, round(rng.uniform(0.05, 0.95), 3))
    if topk is not None:
        gp["select_topk"] = topk
    if rng.random() < 0.3:
        gp["int8_mask"] = rng.choice([True, False])
    dt = rng.choice(["float32"] * 8 + ["bfloat16"])
    c = build_and_run(ctx, rng, "sce", n, True, gp, None, dt)
    ctx.describe(dict(method="sce", n=n, params=gp, dtype=dt))
    for it in c.items:
        b = it["base"].to(D)
        dl = torch.stack([(t - it["base"]).to(D) for t in it["tensors"]])
        ctx.ok(bool(torch.isfinite(it["got"]).all()), "finite:sce", lambda: f"{it['name']} ({it['kind']}) not finite")
        if tk < 1:
            var = dl.var(0, unbiased=False)
            mx = float(var.max())
            lim = 1e-9 * float((dl**2).max()) + 1e-14
            if dt != "float32" and it["kind"] not in ("same-as-base", "all-zero"):
                continue
            if bool(((var <= lim) & (dl != 0).any(0)).any()):
                ctx.event("skipped-degenerate")
                continue
            nz = int((var > 0).sum())
            k = int(nz * tk)
            s = var.reshape(-1).sort(descending=True).values
            if k == 0:
                dl = dl * 0
                ctx.event("nothing-selected")
            else:
                if k < s.numel() and float(s[k - 1] - s[k]) <= 1e-5 * mx + 1e-14 and float(s[k]) > 0:
                    ctx.event("skipped-tie")
                    continue
                dl = dl * (var >= s[k - 1])
                ctx.event("selected")
        ms = (dl**2).mean(dim=list(range(1, dl.dim())))
        tot = float(ms.sum())
        if tot < 1e-7:
            w = torch.full_like(ms, 1.0 / n)
        elif tot < 1e-5:
            continue
        else:
            w = ms / tot
        w = w.reshape([-1] + [1] * (dl.dim() - 1))
        m, und = consensus(dl, dt)
        ew = w * m
        den = ew.sum(0)
        und |= (den > 0) & (den < 2e-5)
        mixed = (dl * ew).sum(0) / torch.where(den > 0, den, torch.ones_like(den))
        ctx.event("sce-judged")
        judge(ctx, "sce", it, b + mixed, amax([b]) + amax([dl]), dt, cond=6, unsure=und, info=f"{gp} n={n}")
    ctx.nontrivial("sce", n, str(gp), dt)


def wl_ram(ctx, rng):
    plus = rng.random() < 0.5
    n = rng.choice([1, 2, 2, 3, 4])
    gp = {}
    e, eps = pick(rng, 1e-5, 1e-5, 1e-4, 0.01, 0.1, 0.3)
    if e is not None:
        gp["epsilon"] = e
    r, al = 0.1, 0.2
    if plus:
        x, r = pick(rng, 0.1, 0.0, 0.1, 0.5, 1.0)
        if x is not None:
            gp["r"] = x
        x, al = pick(rng, 0.2, 0.1, 0.5, 1.0, 3.0)
        if x is not None:
            gp["alpha"] = x
    method = "ramplus_tl" if plus else "ram"
    c = build_and_run(ctx, rng, method, n, True, gp, None, "float32")
    ctx.describe(dict(method=method, n=n, params=gp))
    for it in c.items:
        b = it["base"].to(D)
        dl = torch.stack([(t - it["base"]).to(D) for t in it["tensors"]])
        und = ((dl.abs() - eps).abs() < 1e-5 * eps + 2e-7).any(0)
        act = dl.abs() > eps
        cnt = act.sum(0)
        one, many = cnt == 1, cnt > 1
        lam = torch.ones(n, dtype=D)
        if plus:
            if bool(und.any()):
                continue
            for i in range(n):
                sh, un = int((act[i] & many).sum()), int((act[i] & one).sum())
                lam[i] = 1 + r * min(max(sh / un, 0), al) if un else 1.0
        lam = lam.reshape([-1] + [1] * (dl.dim() - 1))
        z = dl * act
        mixed = (z * one * lam).sum(0) + (z * many).sum(0) / cnt.clamp(min=1)
        for nm, m in (("inactive", cnt == 0), ("unique", one), ("shared", many)):
            if bool(m.any()):
                ctx.event(nm)
        judge(ctx, method, it, b + mixed, amax([b]) + amax([dl]) * (1 + abs(r)), "float32", cond=4, unsure=und, info=f"{gp} n={n}")
    ctx.nontrivial(method, n, str(gp))


H8 = [8, 12, 16]
CHECK = Check(
    prop="P11",
    level="exploration",
    rule="end-to-end merges of tiny models whose changes from the base stand in 18 kinds of relation, all parameters of every task-vector "
    "method, three dtypes, models or repeated slices; deterministic methods are compared element by element with a float64 evaluation of the "
    "documented rule; for randomly pruning methods each element must be what some choice of kept changes gives (with the norm-preserving "
    "factor), and kept fractions, rank dependence and independence between models must fit the configured probabilities within 6.5 sigma; "
    "distinct by method and parameters",
    assumptions=["equal magnitudes at a pruning cut and vanishing sign sums may be decided either way"],
    workloads=[
        Workload("task_arithmetic", deterministic("task_arithmetic", None), 160, 2500, require=["weight-judged", "repeated-layer", "unchanged-judged"]),
        Workload("ties", deterministic("ties", H8), 220, 4000, require=["pruned", "consensus", "repeated-layer"]),
        Workload("breadcrumbs", deterministic("breadcrumbs", H8), 160, 2500, require=["pruned"]),
        Workload("breadcrumbs_ties", deterministic("breadcrumbs_ties", H8), 120, 2500, require=["pruned", "consensus"]),
        Workload("dare_linear", random_pruning("dare_linear"), 120, 2000, require=["subset-judged", "density-judged", "rescaled", "independence-judged"]),
        Workload("dare_ties", random_pruning("dare_ties"), 120, 2000, require=["subset-judged", "density-judged", "rescaled"]),
        Workload("della", random_pruning("della"), 120, 2000, require=["subset-judged", "rank-judged", "rescaled"]),
        Workload("della_linear", random_pruning("della_linear"), 120, 2000, require=["subset-judged", "rank-judged", "rescaled"]),
        Workload("sce", wl_sce, 160, 2500, require=["sce-judged", "selected", "nothing-selected"]),
        Workload("ram", wl_ram, 160, 2500, require=["inactive", "unique", "shared"]),
    ],
)
