#!/bin/bash
# builds: engine | ir | native ; output under $KX_BUILD (default /verif/build, git-ignored)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
B="${KX_BUILD:-$V/build}"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR
SYS="$(rustc --print sysroot)"
OPT="$SYS/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
mkdir -p "$B"
case "$1" in
engine)
  (cd "$V/engine" && cargo build --release --offline -q --target-dir "$B/engine")
  ;;
ir)
  [ ! -d "$B/ir/release/deps" ] || find "$B/ir/release/deps" -mindepth 1 -maxdepth 1 \( -name "*.bc" -o -name "*hx*" -o -name "rmeta*" \) -exec rm -rf {} +
  (cd "$V/harness" && cargo rustc --release --offline -q --target-dir "$B/ir" -- -C save-temps -C link-arg=-Wl,--unresolved-symbols=ignore-all)
  BC="$(ls "$B"/ir/release/deps/*hx*.lto.after-restriction.bc | head -1)"
  # functions of kiss_xml stay separate (they are what the evidence lists), and so do those the executor treats specially
  KEEP='^_R[A-Za-z]*(s[0-9a-zA-Z]*_)?[A-Za-z]*Cs[0-9A-Za-z]+_8kiss_xml|4core9panicking|slice_error_fail|13unwrap_failed|13expect_failed|begin_panic|rust_begin_unwind|handle_alloc_error|alloc_error_hook|6random.*13DefaultHasher|hashmap_random_keys|byteset_contains|11StrSearcher|14TwoWaySearcher|simd_contains|5slice6memchr|7__eprint|6__print|12unicode_data|__sym_|__model_|__rust'
  SIMP='sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg'
  "$OPT" -passes="globaldce,function($SIMP)" -S "$BC" -o "$B/hx.ll.tmp"
  grep -oE '^define [^@]*@("[^"]+"|[A-Za-z0-9_.$]+)' "$B/hx.ll.tmp" | sed 's/.*@//' | grep -E "$KEEP" | sed 's/.*/-force-attribute=&:noinline/' > "$B/hx.keep"
  "$OPT" "@$B/hx.keep" -inline-threshold=60 -passes="forceattrs,cgscc(inline,function($SIMP)),globaldce" -S "$B/hx.ll.tmp" -o "$B/hx.ll.tmp2"
  rm "$B/hx.ll.tmp"
  mv "$B/hx.ll.tmp2" "$B/hx.ll.tmp"
  python3 "$V/tools/byteset.py" "$B/hx.ll.tmp"
  mv "$B/hx.ll.tmp" "$B/hx.ll"
  rm -f "$B"/ir/release/deps/*hx*.bc
  ;;
native)
  (cd "$V/native" && cargo build --release --offline -q --target-dir "$B/native")
  ;;
esac
