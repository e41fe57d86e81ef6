#!/bin/bash
# nothing to prepare: each check builds the driver and the facts itself
set -e
python3 --version >/dev/null
"${HOME:-/root}/.cargo/bin/rustc" +nightly --version >/dev/null 2>&1 || rustc +nightly --version
