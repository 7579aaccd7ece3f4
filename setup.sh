#!/bin/bash
# everything is built by the checks themselves; this only verifies that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo --version
test -x "$(RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
python3-vt -m py_compile check.py props.py engine/*.py
