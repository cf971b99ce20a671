#!/bin/bash
# Build everything once, so that the checks start from warm caches.
cd "$(dirname "$0")" || exit 2
exec python3 tools/setup.py
