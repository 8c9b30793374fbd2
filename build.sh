#!/bin/bash
# build.sh ID OUT WORKDIR: builds the programs that check property ID from /repo's working tree: OUT, and OUT-also if a
# second one takes part. seq uses the library as it is; sch, and race with the race detector, the library redirected to
# the controlled scheduler.
set -e
id=$1 out=$2 work=$3
cd "$(dirname "$0")"
instrumented() {
	if [ ! -d "$work/overlay" ]; then
		mkdir -p "$work/overlay"
		go run ./instr /repo "$work/overlay"
	fi
	local flags=
	if grep -rqE --include='*.go' 'Try(R|)Lock\b' /repo; then flags='-X verif/vs.tryLocks=1'; fi
	go build $2 -ldflags "$flags" -overlay "$work/overlay/overlay.json" -o "$1" ./cmd/sch
}
build() {
	case $1 in
	seq) go build -o "$2" ./cmd/seq ;;
	sch) instrumented "$2" ;;
	race) instrumented "$2" -race ;;
	esac
}
case $id in
C12|C14|C15|C16|C18|C19|C21) set -- seq ;;
C23|C24) set -- seq sch ;;
C01|C02|C03|C04|C05|C06|C10|C11|C20) set -- race ;;
*) set -- sch ;;
esac
build "$1" "$out"
[ -z "$2" ] || build "$2" "$out-also"
