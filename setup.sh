#!/bin/bash
# Builds everything the checks use, offline. Each check also builds what it needs itself.
set -e
cd "$(dirname "$0")"
python3 bin/setup.py
