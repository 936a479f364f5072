import argparse
import importlib
import json
import logging
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    args = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    sys.path.insert(0, "/repo")
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    hub = None
    if args.prop == "P32":
        from vk import hubserver

        hub = hubserver.start()
    import mergekit

    if not os.path.abspath(mergekit.__file__).startswith("/repo/"):
        print("mergekit is not imported from /repo:", mergekit.__file__)
        return 2
    import torch

    torch.set_num_threads(1)
    mod = importlib.import_module(f"vk.checks.{args.prop.lower()}")
    from vk.core import run_check

    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        seed = replay["seed"]
        args.tier = replay["tier"]
    try:
        return run_check(mod.CHECK, args.tier, seed, only=args.only, replay=replay)
    finally:
        if hub is not None:
            hubserver.stop(hub)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
