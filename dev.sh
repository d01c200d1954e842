# development helper: build the harness and run `vh` with the given arguments
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=1
unset CARGO_PROFILE_DEV_DEBUG
cd /verif/harness && cargo build --offline --message-format short 2>&1 | grep -E '^src.*error|^error|panicked' ; [ $# = 0 ] || VH_VERBOSE=1 /verif/target/debug/vh "$@"
