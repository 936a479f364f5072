"""P12: sparsification keeps the right share of a tensor, and nothing else changes."""

import math

import torch
from mergekit.sparsify import RescaleNorm, SparsificationMethod, sparsify

from vk.core import Check, Workload

D = torch.float64
DT = {"f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16}
EPS = {"f32": 1.2e-7, "f16": 9.8e-4, "bf16": 7.9e-3}


def shape_of(rng):
    nd = rng.choice([1, 1, 2, 2, 2, 3, 4])
    if nd == 1:
        return (rng.choice([1, 2, 3, 7, 10, 50, 100, 333]),)
    if nd == 2:
        return (rng.choice([1, 2, 5, 16, 40]), rng.choice([1, 2, 3, 8, 33, 64]))
    if nd == 3:
        return (rng.choice([1, 4, 8]), rng.choice([1, 3, 16]), rng.choice([1, 3, 4]))
    return (2, 3, rng.choice([1, 4]), 5)


def tensor_of(rng, g, shape, dt):
    kind = rng.choice(["normal", "normal", "small", "ties", "zeros", "half-zero", "wide", "large", "allneg", "const"])
    x = torch.randn(shape, generator=g)
    if kind == "small":
        x = x * 1e-3
    elif kind == "ties":
        x = torch.randint(-3, 4, shape, generator=g).float()
    elif kind == "zeros":
        x = x * 0
    elif kind == "half-zero":
        x = x * (torch.rand(shape, generator=g) < 0.5)
    elif kind == "wide":
        x = x * 10.0 ** torch.randint(-3, 3, shape, generator=g).float()
    elif kind == "large":
        x = x * 2000
    elif kind == "allneg":
        x = -x.abs()
    elif kind == "const":
        x = torch.full(shape, 0.75)
    return x.to(DT[dt]), kind


NORMS = {None: None, "l1": lambda t: t.abs().sum(), "l2": lambda t: t.norm(), "linf": lambda t: t.abs().max()}


def common(ctx, rng, method, density, dt, shape=None, x=None, kind=None, norm="?", **kw):
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    if x is None:
        x, kind = tensor_of(rng, g, shape or shape_of(rng), dt)
    if norm == "?":
        norm = rng.choice([None, None, "l1", "l2", "linf"])
    keep = x.clone()
    torch.manual_seed(rng.randrange(2**31))
    y = sparsify(x, density, SparsificationMethod(method), rescale_norm=RescaleNorm(norm) if norm else None, **kw)
    info = f"{method} density={density} norm={norm} {kw} on {kind} {tuple(x.shape)} {dt}"
    ctx.describe(info)
    ctx.ok(torch.equal(x, keep), "input-modified", lambda: info)
    ctx.ok(y.shape == keep.shape and y.dtype == keep.dtype, "form", lambda: f"{info}: {tuple(y.shape)} {y.dtype}", stop=True)
    x64, y64 = keep.to(D), y.to(D)
    if dt == "f16" and norm and density < 1 and not bool(torch.isfinite(y64).all()):
        m = y64 != 0
        if float(x64[m].abs().max()) * float(NORMS[norm](x64) / NORMS[norm](x64 * m)) > 6e4:
            return None  # the rescaled value exceeds what half precision can hold
    ctx.ok(bool(torch.isfinite(y64).all()), "finite", lambda: info, stop=True)
    if density >= 1:
        ctx.event("identity")
        ctx.ok(torch.equal(y, keep), "identity", lambda: info)
        return None
    kept = y64 != 0
    ctx.ok(bool((~kept | (x64 != 0)).all()), "invented", lambda: f"{info}: a zero became nonzero")
    # one common factor for everything that is kept
    f = 1.0
    if norm and bool(kept.any()):
        b, a = float(NORMS[norm](x64)), float(NORMS[norm](x64 * kept))
        if b > 2e-7 and a > 2e-7:
            f = b / a
            ctx.event("norm-judged")
        elif b > 5e-8:
            f = None
    if f is not None:
        want = x64 * kept * f
        tol = 12 * EPS[dt] * want.abs() + 1e-6 * float(x64.abs().max()) * EPS[dt]
        if dt == "f16":
            tol = tol + 1e-7
            if float(want.abs().max()) > 6e4:
                return x64, kept, kind, info
        ctx.event("values-judged")
        bad = (y64 - want).abs() > tol
        ctx.ok(not bool(bad.any()), "values", lambda: f"{info}: kept element {float(x64[bad][0])!r} became {float(y64[bad][0])!r}, expected factor {f:.7g}")
    return x64, kept, kind, info


def rank_window(ctx, x64, kept, lo, hi, info):
    """ranks (descending magnitude) [lo, hi) are kept; zeros cannot be told apart from dropped ones"""
    a = x64.abs().reshape(-1)
    k = kept.reshape(-1)
    s = a.sort(descending=True).values
    n = a.numel()
    nz = int((a > 0).sum())
    exp = max(0, min(hi, nz) - min(lo, nz))
    ctx.event("rank-judged")
    ctx.ok(int(k.sum()) == exp, "count", lambda: f"{info}: {int(k.sum())} nonzero elements kept of {n}, expected {exp}")
    if exp:
        top, bot = float(s[lo]), float(s[min(hi, nz) - 1])
        ctx.ok(float(a[k].max()) <= top and float(a[k].min()) >= bot, "which",
               lambda: f"{info}: kept magnitudes {float(a[k].min()):.6g}..{float(a[k].max()):.6g}, expected {bot:.6g}..{top:.6g}")


def dens(rng):
    return rng.choice([0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 0.9, 0.99, 1.0, 1, 1.5, round(rng.uniform(0.02, 0.99), 3)])


def wl_magnitude(ctx, rng):
    for _ in range(8):
        d, dt = dens(rng), rng.choice(["f32", "f32", "f16", "bf16"])
        sh = shape_of(rng)
        n = math.prod(sh)
        if d < 1 and int(d * n) == 0:
            d = 0.999 if int(0.999 * n) else 1.0
        r = common(ctx, rng, "magnitude", d, dt, shape=sh)
        if r:
            rank_window(ctx, r[0], r[1], 0, int(d * n), r[3])
    ctx.nontrivial("magnitude", d, sh, dt, rng.random())


def wl_outliers(ctx, rng):
    for _ in range(8):
        d, dt = dens(rng), rng.choice(["f32", "f32", "f16", "bf16"])
        gam = rng.choice([0.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9])
        sh = shape_of(rng)
        n = math.prod(sh)
        r = common(ctx, rng, "magnitude_outliers", d, dt, shape=sh, gamma=gam)
        if r:
            k = int(d * n)
            top = min(int(gam * n), n - k)
            ctx.event("top-removed" if top else "no-top-removed")
            rank_window(ctx, r[0], r[1], top, top + k, r[3])
    ctx.nontrivial("outliers", d, gam, sh, dt, rng.random())


def stats(ctx, key, kept, p, what, info):
    v = float((p * (1 - p)).sum())
    s = float((kept.to(D) - p).sum())
    ctx.event("density-judged")
    ctx.ok(abs(s) <= 6.5 * math.sqrt(v) + 2, key, lambda: f"{info}: {what}: {s:+.1f} elements more than expected (sigma {math.sqrt(v):.1f})")


def wl_random(ctx, rng):
    dt = rng.choice(["f32", "f32", "f16", "bf16"])
    d = rng.choice([0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, round(rng.uniform(0.02, 0.98), 3)])
    for _ in range(4):
        common(ctx, rng, "random", rng.choice([d, 1.0]), dt)
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    sh = rng.choice([(200, 150), (20000,), (30, 20, 40)])
    x = (torch.randn(sh, generator=g) + 3 * torch.randn(sh, generator=g).sign()).to(DT[dt])
    masks = []
    for _ in range(2):
        r = common(ctx, rng, "random", d, dt, x=x.clone(), kind="statistics", norm=rng.choice([None, "l1"]))
        p = torch.full_like(r[0], float(torch.tensor(d, dtype=DT[dt] if dt == "bf16" else torch.float32)))
        stats(ctx, "density:random", r[1], p, "kept", r[3])
        # no dependence on magnitude, row or column
        big = r[0].abs() > r[0].abs().median()
        stats(ctx, "uniform:random", r[1][big], p[big], "kept among the larger half", r[3])
        fl = r[1].reshape(-1)
        stats(ctx, "uniform:random", fl[: fl.numel() // 2], p.reshape(-1)[: fl.numel() // 2], "kept in the first half", r[3])
        stats(ctx, "uniform:random", fl[::2], p.reshape(-1)[::2], "kept in even positions", r[3])
        pp = float(p.reshape(-1)[0])
        for lag in (1, sh[-1]):
            if lag < fl.numel():
                z = fl.to(D) - pp
                c, sg = float((z[lag:] * z[:-lag]).sum()), pp * (1 - pp) * math.sqrt(fl.numel() - lag)
                ctx.ok(abs(c) <= 6.5 * sg + 3, "independent:random", lambda: f"{r[3]}: elements {lag} apart are kept together ({c:+.1f}, sigma {sg:.1f})")
        masks.append(fl)
    z = (masks[0].to(D) - pp) * (masks[1].to(D) - pp)
    sg = pp * (1 - pp) * math.sqrt(z.numel())
    ctx.ok(abs(float(z.sum())) <= 6.5 * sg + 3, "independent:random", lambda: "two draws keep the same positions")
    ctx.nontrivial("random", d, dt, sh)


def wl_della(ctx, rng):
    dt = rng.choice(["f32", "f32", "f16", "bf16"])
    d = rng.choice([0.3, 0.4, 0.5, 0.6, 0.7])
    ep = rng.choice([0.05, 0.1, 0.15, 0.25])
    for _ in range(4):
        common(ctx, rng, "della_magprune", rng.choice([d, d, 1.0]), dt, epsilon=ep)
    r = common(ctx, rng, "della_magprune", 0.0, dt, epsilon=ep, norm=None)
    ctx.ok(not bool(r[1].any()), "density:della", lambda: "density 0 keeps elements")
    # statistics: rows with very different magnitudes, so that ranking across rows would show
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    rows, cols = rng.choice([(60, 201), (200, 41), (1, 5000)])
    base = torch.linspace(0.5, 1.5, cols)
    x = torch.stack([base[torch.randperm(cols, generator=g)] * (1.0 if rng.random() < 0.5 else 8.0) for _ in range(rows)])
    x = x * (torch.randint(0, 2, x.shape, generator=g) * 2 - 1)
    if rows == 1:
        x = x[0]
    x = x.to(DT[dt])
    r = common(ctx, rng, "della_magprune", d, dt, x=x, kind="statistics", epsilon=ep, norm=rng.choice([None, "l1"]))
    a = r[0].abs().reshape(rows, cols)
    # average rank among equal magnitudes
    srt = a.sort(1).values
    lo = torch.searchsorted(srt, a, right=False).to(D)
    hi = torch.searchsorted(srt, a, right=True).to(D) - 1
    rn = (lo + hi) / 2 / (cols - 1)
    p = d - ep + 2 * ep * rn
    kept = r[1].reshape(rows, cols)
    stats(ctx, "density:della", kept, p, "kept", r[3])
    for nm, m in (("smallest third", rn < 1 / 3), ("largest third", rn > 2 / 3), ("middle third", (rn >= 1 / 3) & (rn <= 2 / 3))):
        stats(ctx, "rank:della", kept[m], p[m], "kept in the " + nm + " of each row", r[3])
    ctx.event("rank-judged")
    ctx.nontrivial("della", d, ep, dt, rows, cols)


CHECK = Check(
    prop="P12",
    level="exploration",
    rule="random tensors (1 to 4 dimensions, single elements, ties, zeros, wide and large ranges, three dtypes) through every sparsification "
    "method, density, gamma, epsilon and norm; exact count and rank window of what is kept for the deterministic methods, statistical tests "
    "(6.5 sigma) of density, rank dependence and independence for the random ones, exact common factor restoring the norm; distinct by parameters",
    workloads=[
        Workload("magnitude", wl_magnitude, 600, 12000, require=["rank-judged", "norm-judged", "identity"]),
        Workload("outliers", wl_outliers, 600, 12000, require=["rank-judged", "top-removed", "no-top-removed"]),
        Workload("random", wl_random, 400, 8000, require=["density-judged", "norm-judged"]),
        Workload("della", wl_della, 400, 8000, require=["density-judged", "rank-judged"]),
    ],
)
