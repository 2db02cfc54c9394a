#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current tree
# check.sh replay <file>                 re-run the case recorded in a replay file
# check.sh setup                         build everything once
# Exit: 0 held, 1 violated (VIOLATION line printed), 2 no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUST_BACKTRACE CARGO_TARGET_DIR
cd "$here/harness" || exit 2

# Cargo decides by mtime whether /repo's crates changed; do not let a restored or back-dated
# file hide a change.
fresh() {
  find target/debug/.fingerprint target/sched/.fingerprint -maxdepth 1 \( -name 'stacks-rs-*' -o -name 'stacks_derive-*' -o -name 'stacks-derive-*' \) -exec rm -rf {} + 2>/dev/null
  return 0
}
# mc_pure: the library instrumented for the controlled scheduler (see sched-rustc.sh)
build() {
  if [ "$1" = mc_pure ]; then
    RUSTC_WRAPPER="$here/harness/sched-rustc.sh" cargo build --offline --locked --quiet --profile sched --bin "$1"
  else
    cargo build --offline --locked --quiet --bin "$1"
  fi >"target/build.$1.log" 2>&1
}
path_of() { if [ "$1" = mc_pure ]; then echo target/sched/mc_pure; else echo "target/debug/$1"; fi; }

bin_of() {
  case "$1" in
    C18) echo mc_derive ;;
    C19|C20) echo mc_rpc ;;
    C21) echo mc_pure ;;
    *) echo mc ;;
  esac
}

mkdir -p target "$here/evidence"
exec 9>target/check.lock
flock 9

case "${1:-}" in
  setup)
    for b in mc mc_derive mc_rpc mc_pure; do build "$b" || { cat "target/build.$b.log"; exit 2; }; done
    exit 0 ;;
  replay)
    fresh
    id=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
    b=$(bin_of "$id")
    file=$(realpath "$2")
    build "$b" || { cat "target/build.$b.log"; exit 2; }
    exec 9>&-
    exec "$(path_of "$b")" replay "$file" ;;
  C[0-9][0-9]) ;;
  *) echo "usage: check.sh <property> [quick|thorough] | replay <file> | setup"; exit 2 ;;
esac

id=$1
tier=${2:-quick}
b=$(bin_of "$id")
fresh
if ! build "$b"; then
  tail -60 "target/build.$b.log"
  if [ "$b" = mc_derive ] && grep -q -- '--> src/bin/mc_derive/shapes.rs' target/build.mc_derive.log &&
     ! grep -q -- '--> src/bin/mc_derive/main.rs' target/build.mc_derive.log && build mc; then
    # The library builds but the derived conversions of supported field types do not.
    mkdir -p "$here/evidence/replays"
    rp="$here/evidence/replays/$id.json"
    python3 - "$id" "$tier" "$here" <<'PY'
import json, sys, os
pid, tier, here = sys.argv[1:]
log = open(os.path.join(here, "harness/target/build.mc_derive.log")).read()[-3000:]
json.dump({"property": pid, "tier": tier, "stage": "expansion", "index": 0,
           "message": "a derived conversion for supported field types does not compile", "log": log},
          open(os.path.join(here, "evidence/replays", pid + ".json"), "w"), indent=1)
json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
           "level": "model_checking",
           "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False,
                        "samples": [], "rule": "expansion of every enumerated struct must compile"},
           "assumptions": [], "wall_s": 0.0, "violations": 1},
          open(os.path.join(here, "evidence", pid + ".json"), "w"), indent=1)
PY
    echo "VIOLATION property=$id replay=$rp"
    exit 1
  fi
  exit 2
fi
exec 9>&-
exec "$(path_of "$b")" "$id" "$tier"
