#!/bin/bash
# Builds every harness from the committed files and /repo's working tree.
cd "$(dirname "$0")" && exec python3 check.py --build
