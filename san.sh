#!/bin/bash
# san.sh build <asan|tsan>                     builds the harness and /repo's crates with a sanitizer
# san.sh run <asan|tsan> <PROPERTY> <tier> <seed>   runs the property's workload under it
# run: exit 0 nothing reported, 1 a report (VIOLATION line printed), 3 the sanitizer cannot be used here
V=$2
D=/verif/target/$V
BIN=$D/t/x86_64-unknown-linux-gnu/debug/sds-monitor
build() {
  mkdir -p "$D"
  exec 8>"$D.lock"; flock 8
  . /opt/vp/env.sh
  # a copy, because the lock file of the nightly build differs
  mkdir -p "$D/verif/harness"
  for x in src Cargo.toml Cargo.lock .cargo; do
    rm -rf "$D/verif/harness/$x.new"; cp -a "/verif/harness/$x" "$D/verif/harness/$x.new"
    rm -rf "$D/verif/harness/$x"; mv "$D/verif/harness/$x.new" "$D/verif/harness/$x"
  done
  rm -rf "$D/verif/shims"; cp -a /verif/shims "$D/verif/shims"
  cd "$D/verif/harness" || return 3
  export CARGO_TARGET_DIR=$D/t
  H=$(cd /repo && find . -path ./.git -prune -o -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  TC=
  if [ "$V" = tsan ]; then
    export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread"
    printf '\n[patch.crates-io]\nmetrics = { path = "/verif/shims-tsan/metrics" }\n' >> Cargo.toml
    TC=-Zbuild-std
  else
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address"
  fi
  if [ -d "$D/t/x86_64-unknown-linux-gnu" ] && [ "$(cat "$D/hash" 2>/dev/null)" != "$H" ]; then
    cargo clean --offline --target x86_64-unknown-linux-gnu -p dd-sds -p sds-bindings-utils -p dd_sds_go >/dev/null 2>&1
  fi
  rm -f "$D/hash"
  cargo build --offline $TC --target x86_64-unknown-linux-gnu >"$D/build.log" 2>&1 || return 3
  echo "$H" > "$D/hash"
  exec 8>&-
  return 0
}
if [ "$1" = build ]; then build; exit $?; fi
P=$3; T=$4; SEED=$5
( build ) || { echo "NOTE: the $V build is not available (see $D/build.log)"; exit 3; }
rm -f "$D"/log.*
export SDS_NO_WATCH=1 SDS_SHARE=${SDS_SHARE:-40} SDS_EVIDENCE=$D/evidence.json SDS_REPLAY_SUFFIX=-$V
export ASAN_OPTIONS="detect_leaks=0:exitcode=99:log_path=$D/log:allocator_may_return_null=1"
export TSAN_OPTIONS="exitcode=99:halt_on_error=1:log_path=$D/log:second_deadlock_stack=1"
rm -f "$SDS_EVIDENCE"
L=400; [ "$T" = thorough ] && L=3600
timeout $L "$BIN" "$P" "$T" "$SEED" > "$D/out.log" 2>&1
RC=$?
LOG=$(ls "$D"/log.* 2>/dev/null | head -1)
if [ -n "$LOG" ] && grep -qE 'ERROR: AddressSanitizer|WARNING: ThreadSanitizer' "$LOG"; then
  mkdir -p /verif/replays
  R=/verif/replays/$P-$V-s$SEED.txt
  { echo "# VERIF_SEED=$SEED bash /verif/san.sh run $V $P $T $SEED"; cat "$LOG"; } > "$R"
  head -30 "$LOG"
  echo "VIOLATION property=$P replay=$R"
  exit 1
fi
if [ $RC = 1 ] && grep -q "^VIOLATION property=$P " "$D/out.log"; then
  grep -v '^KNOWN-FINDING' "$D/out.log"
  exit 1
fi
if [ $RC != 0 ]; then
  echo "NOTE: the $V run ended with status $RC and no report (see $D/out.log)"
  exit 3
fi
exit 0
