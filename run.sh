#!/bin/bash
# run.sh check ID TIER | replay FILE | build
# Rebuilds the harness against /repo's current working tree (build tag verif) and runs it.
set -u
VD=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_DIR=$VD
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false" LANG=C.UTF-8 TERM=dumb
unset GOPATH
B=$(mktemp -d /tmp/vzbuild.XXXXXX)
trap 'rm -rf "$B"' EXIT
cp "$VD/harness/go.mod" "$B/go.mod"; cp "$VD/harness/go.sum" "$B/go.sum"
sed -i "s#=> /repo#=> $REPO#" "$B/go.mod"
export VZ_REPO=$REPO
OV=()
# C20 decides the order of map iteration, C08 records (and refuses) system calls,
# exits and uses of the environment: overlays of Go's own library do both
case "${1:-} ${2:-}" in "check C20"|"check C08"|replay*|show*|try20*)
  G=$(go env GOROOT)/src
  sed 's/^\tit\.entryOffset = rand()$/\tit.entryOffset = verifOrder()/; s/^\tit\.dirOffset = rand()$/\tit.dirOffset = it.entryOffset >> 32/' "$G/internal/runtime/maps/table.go" >"$B/table.go"
  cat "$VD/tools/maporder.go.txt" >>"$B/table.go"
  sed 's/^func RawSyscall6(.*{$/&\n\tif VerifWatch != 0 \&\& verifSaw(trap) {\n\t\treturn ^uintptr(0), 0, EPERM\n\t}/' "$G/syscall/syscall_linux.go" >"$B/sys.go"
  cat "$VD/tools/syscalls.go.txt" >>"$B/sys.go"
  sed 's/^func \(Unsetenv\|Getenv\|Setenv\|Clearenv\|Environ\)(.*{$/&\n\tif VerifWatch != 0 \&\& verifSaw(verif\1) {\n\t\treturn verifResult\1\n\t}/; s/return verifResult\(Unsetenv\|Setenv\)/return EPERM/; s/return verifResultGetenv/return "", false/; s/return verifResultClearenv/return/; s/return verifResultEnviron/return nil/' "$G/syscall/env_unix.go" >"$B/env.go"
  sed 's/^func Exit(code int) {$/&\n\tif syscall.VerifWatch != 0 {\n\t\tsyscall.VerifExit()\n\t}/' "$G/os/proc.go" >"$B/proc.go"
  echo "{\"Replace\": {\"$G/internal/runtime/maps/table.go\": \"$B/table.go\", \"$G/syscall/syscall_linux.go\": \"$B/sys.go\", \"$G/syscall/env_unix.go\": \"$B/env.go\", \"$G/os/proc.go\": \"$B/proc.go\"}}" >"$B/overlay.json"
  OV=(-overlay "$B/overlay.json");;
esac
if ! (cd "$VD/harness" && go build "${OV[@]}" -tags verif -modfile "$B/go.mod" -o "$B/vz" .) >"$B/log" 2>&1; then
  cat "$B/log" >&2
  echo "harness does not build against $REPO" >&2
  exit 3
fi
# the checks of these properties also run the zygo command
case "${1:-} ${2:-}" in "check C01"|"check C08"|"check C13"|"check C20"|replay*|show*)
  if ! (cd "$VD/harness" && go build -tags verif -modfile "$B/go.mod" -o "$B/zygo" github.com/glycerine/zygomys/v9/cmd/zygo) >"$B/log" 2>&1; then
    cat "$B/log" >&2
    echo "cmd/zygo does not build" >&2
    exit 3
  fi;;
esac
chmod -R 755 "$B"
export VZ_BUILD=$B
if [ "${1:-}" = build ]; then exit 0; fi
"$B/vz" "$@"
exit $?
