#!/bin/bash
# at.sh PATCH COMMAND...: runs the command with a patched copy bound over /repo
p=$(realpath "$1"); shift
t=$(mktemp -d /tmp/plant/at.XXXX); cp -a /repo $t/repo; mkdir $t/evidence
git -C $t/repo apply "$p" || exit 3
unshare -Urm bash -c 'mount --bind '$t'/repo /repo && mount --bind '$t'/evidence /verif/evidence && cd /verif && "$@"' _ "$@"
r=$?; rm -rf "$t"; exit $r
