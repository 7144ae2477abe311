#!/bin/bash
# Builds the extractor and the driver from committed files; needs no network.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
(cd extract && cargo build --offline --release -q)
(cd driver && cargo build --offline -q --bins)
python3 - <<'P'
import sys
sys.argv = ["check.py", "C01"]
sys.path.insert(0, "tools")
import check
open(check.os.path.join(check.BUILD, "driver.stamp"), "w").write(check.tree_hash(check.repo_files()))
P
