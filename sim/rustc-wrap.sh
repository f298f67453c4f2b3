#!/bin/bash
# Instruments the code under test, and only it, with SanitizerCoverage
# edge callbacks: they are the simulator's scheduling points and step counter.
rustc="$1"; shift
name=; prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
cov=
case "$name" in
  zune_jpeg) cov=-sanitizer-coverage-trace-pc-guard ;;
  # told apart from the decoder: handing out jobs and ending threads is not work on an image
  scoped_threadpool) cov=-sanitizer-coverage-trace-pc ;;
esac
if [ -n "$cov" ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=$cov -Ccodegen-units=1 --cap-lints=allow
fi
exec "$rustc" "$@"
