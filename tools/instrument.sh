#!/bin/sh
# rustc wrapper: the library and the code that calls it report every control-flow edge (simkern::on_edge)
case " $* " in
  *" --crate-name i_overlay "* | *" --crate-name simwork "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$@" ;;
esac
