#!/bin/bash
# Builds the simulator against /repo's working tree and runs one of its commands:
#   check.sh C01 [--tier quick|thorough] [--seed N]     decide a property
#   check.sh build | run ID --run N | replay FILE | selftest [ID]
set -u
here=$(cd "$(dirname "$0")" && pwd)
src=${BINATE_SRC:-/repo}
target=$here/target
mkdir -p "$target"
exec 9>"$target/.lock"
flock 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$target CARGO_TERM_COLOR=never
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg binate_sim"
unset RUSTC_WRAPPER RUSTC RUSTDOCFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
crate=$here/sim
if [ "$src" != /repo ]; then # for trying the checks on a scratch copy of the repository
	crate=$target/sim-copy
	mkdir -p "$crate"
	cp -a "$here/sim/." "$crate/"
	sed -i "s#/repo/binate#$src/binate#" "$crate/Cargo.toml"
fi
# cargo goes by modification times; make sure that changed contents are always seen.
sum=$( (cd "$src" && find binate Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; cd "$crate" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; echo "$src") | sha256sum)
log=$target/build.log
if [ "$(cat "$target/.sum" 2>/dev/null)" != "$sum" ] || [ ! -x "$target/x86_64-unknown-linux-gnu/release/binate-sim" ]; then
	rm -f "$target/.sum"
	(cd "$crate" && cargo +nightly clean --release --target x86_64-unknown-linux-gnu -p binate -p binate-sim >/dev/null 2>&1
	cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu) >"$log" 2>&1 || { cat "$log" >&2; echo "check.sh: the simulator could not be built" >&2; exit 2; }
	echo "$sum" >"$target/.sum"
fi
bin=$target/x86_64-unknown-linux-gnu/release/binate-sim
flock -u 9
cmd=${1:-}
case $cmd in
build) exit 0 ;;
C[0-9][0-9]) shift; exec 9>&-; exec "$bin" check "$cmd" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out "$here" "$@" ;;
*) exec 9>&-; exec "$bin" "$@" ;;
esac
