#!/bin/bash
# check.sh build | check.sh PROPERTY: builds the simulator from /repo's working tree and decides a property.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUST_LOG CARGO_BUILD_TARGET
export HOME="${HOME:-/root}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
T=/verif/sim/target
mkdir -p $T evidence
build() {
  # Modification times do not tell when trees are exchanged: compare contents.
  local crates="flarch flmacro flcrypto flmodules flnode"
  local h
  h=$(cd /repo && find $crates -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.yaml' -o -name '*.html' \) \
      -not -path '*/target*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ "$(cat $T/.repo-hash 2>/dev/null)" != "$h" ]; then
    rm -f $T/.repo-hash
    for c in $crates; do rm -rf $T/debug/.fingerprint/$c-*; done
  fi
  (cd sim && cargo build --offline -q 2>$T/build.log) || { tail -40 $T/build.log; echo "BUILD FAILED"; exit 4; }
  echo "$h" >$T/.repo-hash
}
(
  flock 9
  build
) 9>$T/.lock || exit 4
[ "$1" = build ] && exit 0
ulimit -c 0
exec $T/debug/flsim run "$1"
