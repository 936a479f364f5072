"""Run merges in a process of their own: stdin has {jobs: [[config, out, options, noise]]}; prints digests."""

import hashlib
import json
import os
import random
import sys


def digest(path):
    res = {}
    for root, _, files in os.walk(path):
        for f in sorted(files):
            p = os.path.join(root, f)
            res[os.path.relpath(p, path)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
    return res


def main():
    job = json.load(sys.stdin)
    import torch

    torch.set_num_threads(1)
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    from vk.ckpt import read_checkpoint, bits

    out = []
    if job.get("reverse"):
        job["jobs"].reverse()
    for c, path, opts, noise in job["jobs"]:
        if noise:
            torch.manual_seed(noise)
            torch.randn(noise % 17 + 1)
            random.seed(noise)
        rec = dict(out=path)
        try:
            run_merge(MergeConfiguration.model_validate(c), path, MergeOptions(**opts))
            t = read_checkpoint(path)[0]
            rec["tensors"] = {k: hashlib.sha256(bits(v)[2]).hexdigest()[:16] + str(v.dtype) + str(tuple(v.shape)) for k, v in t.items()}
            rec["files"] = digest(path)
        except Exception as e:
            rec["error"] = f"{type(e).__name__}: {e}"[:300]
        out.append(rec)
    if job.get("reverse"):
        out.reverse()
    sys.stdout.write("\n@@" + json.dumps(dict(res=out, hashseed=os.environ.get("PYTHONHASHSEED"), strhash=hash("mergekit"))) + "\n")


if __name__ == "__main__":
    main()
