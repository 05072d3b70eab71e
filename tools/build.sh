#!/bin/bash
# build.sh [core|server]: the simulator and the harness, with polodb_core from /repo's working tree;
# for the server properties also the server program from there and the driver that plays its clients.
set -e
. /verif/env.sh
make -s -C /verif/sim
cd /verif/harness
cargo build --offline --target-dir /verif/target/h
if [ "$1" != core ]; then
    cd /verif/srv
    cargo build --offline --target-dir /verif/target/drv
    cd /repo
    CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked -p polodb --target-dir /verif/target/srv
    cp -f /verif/target/drv/debug/libpolosrv.so /verif/target/srv/debug/libpolosrv.so.new
    mv -f /verif/target/srv/debug/libpolosrv.so.new /verif/target/srv/debug/libpolosrv.so
fi
