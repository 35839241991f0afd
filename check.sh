#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the checker against /repo's working tree and run one check.
set -u
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$here
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/target CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
scratch=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
export MC_SCRATCH=$scratch
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
# Never trust timestamps: when the text of the library changed, throw its build output away.
hash=$(cd /repo && find . -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name '*.json' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' -o -name '*.txt' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.repohash" 2>/dev/null)" != "$hash" ]; then
  if [ -d "$CARGO_TARGET_DIR/release" ]; then
    (cd "$here/mc" && cargo clean -q --offline --release -p cubing -p cubing_core -p cubing_macros 2>/dev/null)
  fi
  rm -rf "$CARGO_TARGET_DIR/aux"
  echo "$hash" > "$CARGO_TARGET_DIR/.repohash"
fi
build() { # build ARGS...: quiet unless it fails
  if ! (cd "$here/mc" && cargo build -q --offline --release "$@") >"$scratch/build.log" 2>&1; then
    cat "$scratch/build.log"; echo "BUILD FAILED"; exit 2
  fi
}
aux() { # aux ARGS...: build one of the repository's programs as it stands
  lock=; [ -f /repo/Cargo.lock ] && lock=--locked
  if ! (cd /repo && CARGO_TARGET_DIR=$here/target/aux cargo build -q --offline $lock "$@") >"$scratch/build.log" 2>&1; then
    cat "$scratch/build.log"; echo "BUILD FAILED"; exit 2
  fi
}
bin=mc
case $id in
  C13) bin=mcmem; build --bin mcmem ;;
  C26|C28) bin=mcapi; build --bin mcapi ;;
  C18)
    build --bin mc
    # The library builds: if the embedding macros do not expand, that is the finding.
    if ! (cd "$here/mc" && cargo build -q --offline --release --bin mcemb) >"$scratch/build.log" 2>&1; then
      "$CARGO_TARGET_DIR/release/mc" failed C18 "embedded values do not compile" "$scratch/build.log"; exit $?
    fi
    bin=mcemb ;;
  C20)
    build --bin mc
    MC_RLIB=$(cd "$here/mc" && cargo build --offline --release --bin mc --message-format=json 2>/dev/null | grep -o '"[^"]*/libcubing-[^"]*rlib"' | tail -1 | tr -d '"')
    export MC_RLIB ;;
  C21) build --bin mc; aux -p alg-cli --bin alg; export MC_ALG=$here/target/aux/debug/alg ;;
  C22) build --bin mc; aux -p cubing --example f2lfast; export MC_F2L=$here/target/aux/debug/examples/f2lfast ;;
  *) build --bin mc ;;
esac
flock -u 9
"$CARGO_TARGET_DIR/release/$bin" run "$id"
exit $?
