#!/bin/bash
# check.sh ID [--replay FILE]: build the check of property ID from /repo's working tree and run it.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself could not run.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# The programs under test: with all run-time checks, but not slowed down by unoptimised cryptography.
export CARGO_PROFILE_DEV_OPT_LEVEL=1
id="$1"
case "$id" in
C0[1-9]) bin=vpcore ;;
C1[0-9] | C2[0-3] | C3[0-2]) bin=vpserver ;;
C2[4-9]) bin=vpproc ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p evidence replays
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
build() {
	if ! "$@" >"$log" 2>&1; then
		cat "$log" >&2
		echo "check.sh: build failed: $*" >&2
		exit 2
	fi
}
case "$bin" in
vpproc)
	case "$id" in C2[4-7]) pkg=nora_scp ;; *) pkg=nora_sshd ;; esac
	# The program under test, from /repo's working tree, with its committed lock file.
	build cargo build --offline --locked --manifest-path /repo/Cargo.toml -p "$pkg" --target-dir "$VERIF_DIR/target/repo"
	export VP_PROGRAM="$VERIF_DIR/target/repo/debug/$pkg"
	;;
esac
build cargo build --offline --manifest-path harness/Cargo.toml --bin "$bin" --target-dir "$VERIF_DIR/target"
"$VERIF_DIR/target/debug/$bin" "$@"
rc=$?
exit $rc
