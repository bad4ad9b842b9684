#!/bin/bash
# Builds both harnesses: on the parser's own API, and at the kernel's end of the link.
set -e
cd "$(dirname "$0")/.."
for crate in harness link; do (cd $crate && CARGO_NET_OFFLINE=true cargo build --release --offline -q); done
