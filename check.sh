#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the explorer (and, for the properties of the command,
# the binary) against /repo's working tree and run it.
. /opt/vp/env.sh
cd "$(dirname "$(readlink -f "$0")")/mc" || exit 2
cargo build --release --offline -q 2>build.log || { cat build.log; exit 2; }
case "$1" in
C05 | C11 | C13 | C14 | C24)
	cargo build --release --offline --locked -q --manifest-path /repo/Cargo.toml --target-dir target/cli --bin afmt 2>build.log || { cat build.log; exit 2; }
	export AFMT_BIN="$PWD/target/cli/release/afmt"
	;;
esac
exec ./target/release/afmt-mc "$@"
