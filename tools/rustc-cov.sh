#!/bin/bash
# RUSTC_WRAPPER of check.sh: has the compiler put edge counters (SanitizerCoverage, as libFuzzer
# uses them) into the three crates under test and into nothing else; engine.rs reads them.
rustc=$1
shift
for a in "$@"; do
  case "$prev $a" in
    "--crate-name svd_rs" | "--crate-name svd_parser" | "--crate-name svd_encoder") cov=1 ;;
  esac
  prev=$a
done
[ -n "$cov" ] && set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
  -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1
exec "$rustc" "$@"
