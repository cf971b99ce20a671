#!/bin/bash
# bash run.sh PROPERTY [--only STREAM INDEX]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
