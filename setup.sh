#!/bin/bash
# Builds the extractor and extracts the facts of the current tree once (the checks do the same when something is missing).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
sys.dont_write_bytecode = True
import facts
P = facts.load(facts.lib_sources() + facts.tu_sources())
print('facts of %d functions from %d translation units' % (len(P.fns), len(P.tus)))
P
