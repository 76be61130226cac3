#!/bin/bash
# Builds the harness against /repo once, so that later builds only redo what changed.
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, "lib")
import os, types, features, parts
c = types.SimpleNamespace(tier="quick", seed=int(os.environ.get("VERIF_SEED", "1")))
h = parts.full(c); print("harness built in %.0f s, %d types" % (h.build_s, len(h.table.order)))
for i, s in enumerate(features.pick(c)): features.build((i, s))
P
