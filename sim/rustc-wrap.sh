#!/bin/sh
# Basic-block callbacks for the code under test, nothing else.
case " $* " in
*" --crate-name octane "* | *" --crate-name octane_http "* | *" --crate-name octshell "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
