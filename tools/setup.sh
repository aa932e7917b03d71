#!/bin/bash
# builds the rustc driver and warms the dependency build of the analysed instantiations (offline)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true
(cd $V/mirdump && cargo +nightly build --release --offline -q)
D=$(mktemp -d /tmp/setup-XXXXXX)
$V/tools/dump.sh $D/d.json case_sig_map
rm -f $D/d.json; rmdir $D
