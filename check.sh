#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds what the check needs from /repo's working tree and runs it.
cd /verif
mkdir -p out
case "$1" in C16|C17|C18|C19|C20) what=server ;; *) what=core ;; esac
if ! tools/build.sh $what > "out/build-$1.log" 2>&1; then
    echo "the build failed:"; tail -40 "out/build-$1.log"; exit 2
fi
exec target/h/debug/polosim check "$1" "${2:-${VERIF_TIER:-quick}}"
