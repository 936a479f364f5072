#!/bin/bash
# run.sh <property> [quick|thorough] [--only workload] [--replay file]
# Runs one check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VK_HASHSEED:-0}" PYTHONNOUSERSITE=1
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 HF_DATASETS_OFFLINE=1 HF_HUB_DISABLE_TELEMETRY=1 HF_HOME=/opt/hf
export CUDA_VISIBLE_DEVICES= TOKENIZERS_PARALLELISM=false OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here:/repo"
# no bytecode older than the sources
find /repo/mergekit -name __pycache__ -type d -prune -exec rm -rf {} + 2>/dev/null
cd "$here" || exit 2
exec /opt/venv/bin/python -m vk.run "$@"
