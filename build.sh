#!/bin/bash
# build.sh [vh] [cov] [cli] [sched] [free]: builds parts of the machinery (by default all but the last)
# from /repo's current working tree, offline, into /verif/target.
set -e
cd "$(dirname "$0")"
V="$PWD"
T="$V/target"
mkdir -p "$T"
exec 9>"$T/.build.lock"
flock 9
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
# Cargo tells by time stamps whether a source changed. Copies of a tree may carry any time stamp, so
# what was built from other contents is thrown away.
now=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock; } | sha256sum)
if [ "$(cat "$T/.built-from" 2>/dev/null)" != "$now" ]; then
	find "$T" -type d -path '*/.fingerprint/rusty-systems-*' -prune -exec rm -rf {} +
	echo "$now" >"$T/.built-from"
fi
build() { # manifest, target directory, more arguments
	local m="$1" t="$2"
	shift 2
	cargo build -q --release --offline --manifest-path "$m" --target-dir "$t" "$@"
}
[ $# -eq 0 ] && set -- cov vh cli sched
for part in "$@"; do
	case "$part" in
	vh) build "$V/harness/Cargo.toml" "$T" ;;
	cov)
		# Coverage-guided search is done with it if it builds. Meanwhile the others are built.
		(
			export RUSTC_WRAPPER="$V/tools/rustc-cov.sh"
			if ! build "$V/harness/Cargo.toml" "$T/cov"; then
				echo "no instrumented build: going without coverage-guided search" >&2
				rm -f "$T/cov/release/vh"
			fi
		) &
		;;
	cli) build /repo/Cargo.toml "$T/cli" --features lsystem --bin lsystem ;;
	sched) build "$V/sched/Cargo.toml" "$T" ;;
	free) build "$V/sched-free/Cargo.toml" "$T/free" ;;
	esac
done
wait
