#!/bin/bash
# usage: dump.sh OUT.json [roots]   -- dumps the MIR of the harness instantiations of /repo's working tree (nothing is run)
# development only: VREPO=<copy of /repo> VTARGET=<dir> analyse a copy instead.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true
OUT=$(realpath "$1")
[ -x $V/mirdump/target/release/mirdump ] || (cd $V/mirdump && cargo +nightly build --release --offline -q)
R=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$R/lib:$LD_LIBRARY_PATH
export MIRDUMP_OUT=$OUT MIRDUMP_ROOTS=$2 MIRDUMP_SKIP=$V/absint/skip.txt
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull --cap-lints=allow"
export RUSTC_WORKSPACE_WRAPPER=$V/mirdump/target/release/mirdump
T=${VTARGET:-$V/target}
H=$V/harness
if [ -n "$VREPO$VFEATURES" ]; then
  mkdir -p $T/harness-src; cp -r $V/harness/. $T/harness-src/
  [ -z "$VREPO" ] || sed -i "s#path = \"/repo\"#path = \"$VREPO\"#" $T/harness-src/Cargo.toml
  # VFEATURES: "-" (no features) or a comma separated list
  [ -z "$VFEATURES" ] || sed -i "/^futures-signals/s#}#, default-features = false, features = [\"$(echo ${VFEATURES#-} | sed 's#,#", "#g')\"] }#; s#\[\"\"\]#[]#" $T/harness-src/Cargo.toml
  H=$T/harness-src
fi
F=; [ -z "$VFEATURES" ] || F="--no-default-features --features=${VFEATURES#-}"
cd $H
# always re-analyse: forget what cargo knows about the two crates
for d in build/harness build/futures-signals incremental; do [ -d "$T/debug/$d" ] && rm -rf "$T/debug/$d"; done
: > "$OUT"
cargo +nightly check --offline -q $F --target-dir $T > $T.log 2>&1 || { tail -60 $T.log; rm -f $T.log; exit 3; }
rm -f $T.log
test -s "$OUT"
