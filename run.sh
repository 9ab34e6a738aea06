#!/bin/bash
# ./run.sh <ID> [quick|thorough]   check one property against /repo's working tree
# ./run.sh replay <file>           re-run one recorded counterexample
# ./run.sh setup                   build everything once
# exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET
repo=/repo
build() {
  # cargo decides by mtime; make sure that a change of content is seen as well
  h=$( (cd "$repo" && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  mkdir -p mc/target
  if [ "$(cat mc/target/.repo-hash 2>/dev/null)" != "$h" ]; then
    (cd mc && cargo clean --release --offline -p perf-event-data >/dev/null 2>&1)
  fi
  if ! out=$(cd mc && cargo build --release --offline --locked 2>&1); then
    echo "$out" | grep -v '^warning' | tail -60 >&2
    echo "build of the checker against $repo failed" >&2
    exit 2
  fi
  echo "$h" > mc/target/.repo-hash
}
case "$1" in
  setup) build; exit 0;;
  replay)
    build
    read -r id tier suite idx < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["property"],d["tier"],d["suite"],d["index"])' "$2") || exit 2
    case "$suite" in
      miri:*)
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" exec cargo +nightly miri run --offline --locked -q --manifest-path mc/Cargo.toml --target-dir mc/target/miri -- miri-case "$id" "$tier" "${suite#miri:}" "$idx";;
    esac
    exec mc/target/release/mc case "$id" "$tier" "$suite" "$idx";;
  C[0-9][0-9])
    build
    exec mc/target/release/mc run "$1" "${2:-${VERIF_TIER:-quick}}";;
  *) sed -n 2,6p "$0" >&2; exit 2;;
esac
