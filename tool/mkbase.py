"""Rewrites data/base.json (names known on the confirmed tree) from the current tree; run it only on a tree whose changes are confirmed."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import facts, snapshot
P = facts.load(facts.lib_sources() + facts.tu_sources())
with open(snapshot.DATA, 'w') as f:
    json.dump(snapshot.make(P), f, indent=0, sort_keys=True)
