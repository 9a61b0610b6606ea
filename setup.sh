#!/bin/sh
# Builds the MIR driver and dumps the current tree once, so that the checks find both in their cache.
cd "$(dirname "$0")" || exit 2
exec python3 sa/dump.py
