"""Importing this module, or calling anything in it, is what an attack would do."""
import os as _os

_flag = _os.environ.get("VK_CANARY")
FIRED = []
if _flag:
    with open(_flag, "a") as _f:
        _f.write("imported\n")


def fire(*args, **kwargs):
    FIRED.append(args)
    if _os.environ.get("VK_CANARY"):
        with open(_os.environ["VK_CANARY"], "a") as f:
            f.write(f"called {args!r}\n")
    return dict()


class Thing:
    def __init__(self, *a, **k):
        fire("Thing", *a)

    def __setstate__(self, st):
        fire("setstate", st)

    def __reduce__(self):
        return (fire, ())
