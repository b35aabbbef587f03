#!/bin/bash
# run.sh ID TIER [--only LABEL]   builds what the check needs from /repo and runs it
set -u
cd /verif || exit 2
id=$1 tier=$2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p target
build() {
  local log="target/build-$id.log"
  "$@" >"$log" 2>&1 || { cat "$log" >&2; echo "build failed" >&2; exit 2; }
}
tsan() {
  RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Zexternal-clangrt -Clink-arg=-Wl,--unresolved-symbols=ignore-all" \
  CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo +nightly build -q --offline ${STD:-} --target x86_64-unknown-linux-gnu "$@"
}
cli=0 conc=0 py=0
case $id in
  C14) cli=1 ;;
  C16|C17|C18) cli=2 ;;
  C19|C25|C27|C30|C35) cli=1 ;;
  C24) conc=1 ;;
  C23) py=1 ;;
  setup) cli=2 conc=1 py=1 ;;
esac
build cargo build -q --offline --locked --manifest-path mc/Cargo.toml --target-dir target/mc
build cargo build -q --offline --locked --manifest-path mc/Cargo.toml --target-dir target/mc --release
mc=/verif/target/mc/release/mc
if [ $cli -ge 1 ] || [ $conc -ge 1 ]; then
  build gcc -O2 -shared -fPIC -w -o target/shim.so shim/shim.c -ldl -lpthread
  export MC_SHIM=/verif/target/shim.so
fi
if [ $cli -ge 1 ]; then
  build cargo build -q --offline --manifest-path /repo/Cargo.toml -p poppy-filters --bin poppy --target-dir target/cli
  export MC_POPPY=/verif/target/cli/debug/poppy
fi
if [ $cli -ge 2 ]; then
  # std is instrumented too: its locks are scheduling points
  STD=-Zbuild-std=std,panic_unwind build tsan --manifest-path /repo/Cargo.toml -p poppy-filters --bin poppy --target-dir target/tsan
  export MC_POPPY_TSAN=/verif/target/tsan/x86_64-unknown-linux-gnu/debug/poppy
fi
if [ $conc -ge 1 ]; then
  build tsan --manifest-path conc/Cargo.toml --target-dir target/conc
  export MC_CONC=/verif/target/conc/x86_64-unknown-linux-gnu/debug/conc
fi
if [ $py -ge 1 ]; then
  build env PYO3_PYTHON=/usr/bin/python3 cargo build -q --offline --manifest-path /repo/Cargo.toml -p poppy-py --target-dir target/py
  mkdir -p target/pymod && cp target/py/debug/libpoppy.so target/pymod/poppy.so || exit 2
fi
[ "$id" = setup ] && exit 0
if [ "${3:-}" = "--only" ]; then
  "/verif/target/mc/debug/mc" only "$id" "$tier" "$4" || exit $?
  exec "$mc" only "$id" "$tier" "$4"
fi
exec "$mc" run "$id" "$tier" debug=/verif/target/mc/debug/mc release="$mc"
