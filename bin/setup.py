#!/usr/bin/env python3
"""Builds every harness crate and parses every specification."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target"), BITCOIND_SKIP_DOWNLOAD="1",
           ELECTRSD_SKIP_DOWNLOAD="1", CARGO_NET_OFFLINE="true")
for crate in sorted(os.listdir(os.path.join(ROOT, "harness"))):
    d = os.path.join(ROOT, "harness", crate)
    if crate != "core" and os.path.exists(os.path.join(d, "Cargo.toml")):
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env)
        if r.returncode:
            sys.exit(r.returncode)
print("harness built")
