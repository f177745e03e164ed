#!/bin/bash
# confirm_seed.sh ID...: in a scratch copy of /repo, checks that the planted
# bug applies, builds and passes the stable tests, and that its demonstration
# passes without it and fails with it.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
rc=0
for id; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo/. "$w"
  cd "$w" || exit 2
  bash "$d/demo.sh" >"$w.log" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rc=1; }
  go build ./... || { echo "$id: does not build"; rc=1; }
  go test -vet=off -count=1 ./... >"$w.test" 2>&1; t=$?
  bash "$d/demo.sh" >>"$w.log" 2>&1; b=$?
  echo "$id: demo unpatched=$a patched=$b tests=$t"
  [ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] || { rc=1; tail -qn5 "$w.log" "$w.test" | cut -c1-200; }
  cd /; rm -rf "$w" "$w.log" "$w.test"
done
exit $rc
