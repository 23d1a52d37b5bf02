#!/bin/bash
# Builds the harness and the programs under test once, to have the caches warm.
cd "$(dirname "$0")" || exit 1
exec python3-vt -m vf.build san noaio plain perl python
