#!/bin/bash
# RUSTC_WRAPPER: the library sets a flag on every edge of its control flow (coverage, for the
# evidence); with FOLIA_EDGES=call it makes a call there (a scheduling point, for C12)
rustc="$1"; shift
case " $* " in
  *" --crate-name folia "*"--crate-type "*lib*)
    kind=inline-bool-flag; [ "$FOLIA_EDGES" = call ] && kind=trace-pc-guard
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-$kind ;;
  *) exec "$rustc" "$@" ;;
esac
