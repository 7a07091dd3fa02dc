#!/bin/bash
# rustc for the instrumented build: adds coverage counters to the crate under test, of which only
# the rlib is made. cargo calls it as RUSTC_WRAPPER: rustc-cov.sh RUSTC ARGS...
case " $* " in *" --crate-name ___ "*) exec "$@" ;; esac
args=()
for a in "$@"; do
	case "$a" in
	dylib | cdylib) a=rlib ;;
	rusty_systems=*.so)
		# Its --extern, too.
		unset 'args[-1]'
		continue
		;;
	esac
	args+=("$a")
done
case " $* " in
*" --crate-name rusty_systems "*)
	args+=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares)
	;;
esac
exec "${args[@]}"
