#!/bin/bash
# ./check.sh <id> [quick|thorough]     build the harness against /repo's working tree and run one check
# ./check.sh build                     only build
# ./check.sh replay <file>             run the case of a replay file again
# ./check.sh all [quick|thorough]      every check in turn
set -u
cd /verif || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
build() {
    mkdir -p /verif/work /verif/target
    (
        flock 9
        # Cargo goes by time stamps, which a checkout can set back: always compile /repo's crate.
        rm -rf /verif/target/release/.fingerprint/redox_liner-*
        cd /verif/harness && cargo build --release --offline >/verif/work/build.log 2>&1
    ) 9>/verif/work/build.lock
    r=$?
    if [ $r -ne 0 ]; then
        echo "the harness does not build against /repo:" >&2
        grep -E "^error" -A12 /verif/work/build.log >&2 || tail -30 /verif/work/build.log >&2
        exit 2
    fi
}
case "${1:-}" in
build) build ;;
replay)
    build
    exec /verif/target/release/lv replay "$2"
    ;;
all)
    build
    rc=0
    for id in $(/verif/target/release/lv list); do
        /verif/target/release/lv check "$id" "${2:-quick}" || rc=1
    done
    exit $rc
    ;;
"")
    sed -n 2,5p "$0"
    exit 2
    ;;
*)
    build
    exec /verif/target/release/lv check "$1" ${2:+"$2"}
    ;;
esac
