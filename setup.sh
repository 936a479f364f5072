#!/bin/bash
# Nothing to build: the checks import the working tree of /repo directly. Verifies the interpreter and imports.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:/repo" CUDA_VISIBLE_DEVICES= /opt/venv/bin/python -c "import torch, transformers, safetensors, mergekit, vk.core; print('ok')"
