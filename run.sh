#!/bin/bash
# run.sh <property id> [quick|thorough]   decide one property on /repo's working tree
# run.sh setup                            build the MIR extractor
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
TC=+nightly
KEY=$( (cat "$HERE/driver/main.rs"; rustc $TC -vV) | sha256sum | cut -c1-16)
CACHE="$HERE/.cache"
mkdir -p "$CACHE" 2>/dev/null
DRV="$CACHE/drv-$KEY"
build_driver() {
    [ -x "$DRV" ] && return 0
    local tmp="$CACHE/drv-$KEY.$$"
    rustc $TC -O --edition 2021 "$HERE/driver/main.rs" -o "$tmp" || return 1
    mv "$tmp" "$DRV"
}
build_driver || { echo "cannot build the MIR extractor"; exit 3; }
[ "${1:-}" = setup ] && { echo "extractor ready: $DRV"; exit 0; }
PID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
WORK="$(mktemp -d)"
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/dump" "$WORK/target" "$HERE/evidence"
export LD_LIBRARY_PATH="$(rustc $TC --print sysroot)/lib"
if ! ( cd "$REPO" && TSV_DUMP_DIR="$WORK/dump" RUSTC_WORKSPACE_WRAPPER="$DRV" CARGO_TARGET_DIR="$WORK/target" \
       RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings" \
       cargo $TC check --offline --locked --lib --bins -q ) >"$WORK/log" 2>&1; then
    echo "extraction failed"; tail -20 "$WORK/log"; exit 3
fi
cd "$HERE" || exit 3
# a violation counts only if the analysis finds it in whatever order it visits things
for PYTHONHASHSEED in 0 1 2; do
    export PYTHONHASHSEED
    VERIF_TIER="$TIER" python3 sa/main.py "$PID" "$WORK/dump" "$HERE" >"$WORK/out" 2>&1; rc=$?
    [ $rc = 1 ] && grep -q '^VIOLATION' "$WORK/out" && [ $SECONDS -lt 240 ] || break
done
cat "$WORK/out"
exit $rc
