#!/bin/bash
# run.sh ID [quick|thorough|replay FILE]: builds the check of property ID from the current tree of /repo and runs it.
id=${1:?usage: run.sh ID [quick|thorough|replay FILE]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod TZ=UTC LC_ALL=C
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
work=$(mktemp -d /tmp/verif-$id.XXXXXX) || exit 2
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' TERM INT
cd "$here" || exit 2
mkdir -p evidence/replay
if ! bash ./build.sh "$id" "$work/mc" "$work" >"$work/build.log" 2>&1; then
	tail -40 "$work/build.log"
	echo "ERROR: the check of $id could not be built"
	exit 2
fi
mkdir "$work/scratch"
export VERIF_SCRATCH=$work/scratch
also=()
[ -x "$work/mc-also" ] && also=(-also "$work/mc-also")
if [ "$tier" = replay ]; then
	"$work/mc" -prop "$id" "${also[@]}" -replay "${3:?replay file}"
	exit $?
fi
budget=240s
[ "$tier" = thorough ] && budget=780s
rm -f "evidence/$id.json" "evidence/replay/$id.json"
timeout -k 5 870 "$work/mc" -prop "$id" "${also[@]}" -tier "$tier" -evidence "$here/evidence/$id.json" -replays "$here/evidence/replay" -budget "${BUDGET:-$budget}" ${3:+-only "$3"}
exit $?
