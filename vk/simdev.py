"""Simulated accelerators: N 'cpu:i' devices, installed at the torch boundary."""

import contextlib

import torch


class _DummyStream:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def synchronize(self):
        pass

    def wait_stream(self, *_):
        pass


@contextlib.contextmanager
def simulated_accelerators(n: int):
    saved = []

    def patch(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    try:
        if hasattr(torch, "accelerator"):
            patch(torch.accelerator, "current_accelerator", lambda *a, **k: torch.device("cpu"))
            if hasattr(torch.accelerator, "device_count"):
                patch(torch.accelerator, "device_count", lambda *a, **k: n)
            if hasattr(torch.accelerator, "synchronize"):
                patch(torch.accelerator, "synchronize", lambda *a, **k: None)
        patch(torch.cpu, "device_count", lambda *a, **k: n)
        patch(torch.cpu, "synchronize", lambda *a, **k: None)
        patch(torch.cuda, "Stream", _DummyStream)
        patch(torch.cuda, "stream", lambda s: _DummyStream())
        patch(torch, "Stream", _DummyStream)
        yield
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)
