#!/bin/bash
# Builds every driver and tool the checks use, from /repo's current tree.
cd "$(dirname "$0")" && exec python3 check.py --setup
