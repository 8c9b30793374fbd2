#!/bin/bash
# Warms the build cache so that the first checks do not spend their time compiling the standard library.
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
for id in C12 C01 C07; do
	bash ./build.sh $id "$work/mc" "$work" || exit 1
done
exit 0
