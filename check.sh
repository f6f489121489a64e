#!/bin/bash
# check.sh ID [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE           run one stored case again (exit 1 if it still fails)
# check.sh build                 only build
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER VH_DIVIDE VH_TIMES
log=$(mktemp)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
	tail -n 60 "$log" >&2
	rm -f "$log"
	echo "the harness does not build against /repo" >&2
	exit 3
fi
target_of() { if [ "$1" = replay ]; then sed -n 's/^property //p' "$2" | head -n 1; else echo "$1"; fi; }
if [ "$(target_of "${1:-}" "${2:-}")" = C25 ] || [ "${1:-}" = build ]; then
	# the command line tool itself
	if ! cargo build --release --offline --locked --manifest-path /repo/Cargo.toml --example main --target-dir "$CARGO_TARGET_DIR/cli" >"$log" 2>&1; then
		tail -n 60 "$log" >&2
		rm -f "$log"
		echo "the command line tool does not build" >&2
		exit 3
	fi
fi
rm -f "$log"
bin="$here/target/release/vharness"
case "${1:-}" in
build) ;;
replay) exec "$bin" replay "$2" ;;
selftest) exec "$bin" selftest "${VERIF_SEED:-1}" ;;
*) exec "$bin" run "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$here" ;;
esac
