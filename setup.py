#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and compiles the dependencies.

Nothing a check relies on: a check prepares what it needs itself, and recompiles
libmbus and the harnesses whatever is in /verif/build.
"""
import shutil, subprocess, sys
if not shutil.which("cargo") or subprocess.run(["cargo", "kani", "--version"]).returncode or not shutil.which("patch"):
    sys.exit("cargo kani and patch are needed")
import check
check.prepare()
for crate in check.CRATES:
    mod, h = check.harness_list(crate)[0]
    shutil.copy(f"{check.REPO}/Cargo.lock", f"{check.KANI}/{crate}/Cargo.lock")
    cmd = ["cargo", "kani", "--lib", "--only-codegen", "--target-dir", f"{check.BUILD}/kt"] + check.FLAGS + ["--exact", "--harness", (mod + "::" if mod else "") + h]
    subprocess.run(cmd, cwd=f"{check.KANI}/{crate}", env=check.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
