#!/bin/sh
cd "$(dirname "$0")" && exec python3 -B -c "from vf.core import build_extractor; print(build_extractor())"
