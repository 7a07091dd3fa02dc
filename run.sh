#!/bin/bash
# run.sh ID [quick|thorough]: builds what the check needs from /repo's current working tree and runs it.
# Exit 0: held. 1: VIOLATION line printed. Anything else: no answer.
cd "$(dirname "$0")" || exit 3
V="$PWD"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_DIR="$V" VERIF_SEED="${VERIF_SEED:-1}"
case "$id" in
P02 | P13 | P15)
	if "$V/build.sh" sched; then
		"$V/target/release/sched" run "$id"
		rc=$?
		[ $rc -le 2 ] && exit $rc
		echo "the controlled run gave no answer ($rc); using real threads" >&2
	else
		echo "the library does not build against the controlled primitives; using real threads" >&2
	fi
	"$V/build.sh" free || exit 3
	"$V/target/free/release/sched-free" run "$id"
	;;
P23 | P24)
	"$V/build.sh" vh cli || exit 3
	"$V/target/release/vh" run "$id"
	;;
*)
	"$V/build.sh" cov vh || exit 3
	"$V/target/release/vh" run "$id"
	;;
esac
