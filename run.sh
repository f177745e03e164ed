#!/bin/bash
# run.sh build                     build the verifier
# run.sh check PROPERTY [TIER]     verify a property of /repo's working tree
# run.sh replay FILE               run the failing input of a replay file
cd "$(dirname "$0")" || exit 1
here=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
build() { mkdir -p .bin && (cd vc && go build -o ../.bin/vc .); }
case $1 in
build) build ;;
check)
	build || { mkdir -p evidence/replays; echo "the verifier does not build" | tee "evidence/replays/$2-build.txt"; echo "VIOLATION property=$2 replay=$here/evidence/replays/$2-build.txt no-failing-input-found"; exit 1; }
	./.bin/vc -repo /repo -spec "$here/contracts" -home "$here" -prop "$2" -tier "${3:-${VERIF_TIER:-quick}}" check
	rc=$?
	[ $rc = 0 ] && exit 0
	[ $rc = 1 ] && exit 1
	mkdir -p evidence/replays; echo "the verifier ended with status $rc" > "evidence/replays/$2-crash.txt"
	echo "VIOLATION property=$2 replay=$here/evidence/replays/$2-crash.txt no-failing-input-found"
	exit 1 ;;
replay) build && ./.bin/vc -repo /repo -home "$here" replay "$2" ;;
*) echo "usage: run.sh build | check PROPERTY [TIER] | replay FILE"; exit 2 ;;
esac
