#!/bin/bash
# Builds the checkers once; every check rebuilds what it needs by itself.
cd "$(dirname "$0")/mc" && CARGO_NET_OFFLINE=true cargo build -q --offline --release --bins --target-dir ../target
