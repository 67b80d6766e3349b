#!/bin/bash
# Builds the monitor harness from /repo's current working tree. Output: /verif/target/mon/debug/sds-monitor
cd /verif/harness || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target/mon
mkdir -p /verif/target
exec 9>/verif/target/.lock
flock 9
# cargo decides by modification times; make sure that a different tree is always compiled again
H=$(cd /repo && find . -path ./.git -prune -o -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.go' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ -d "$CARGO_TARGET_DIR/debug" ] && [ "$(cat /verif/target/.mon.hash 2>/dev/null)" != "$H" ]; then
  cargo clean --offline -p dd-sds -p sds-bindings-utils -p dd_sds_go >/dev/null 2>&1
fi
cargo build --offline >/verif/target/build.log 2>&1
RC=$?
if [ $RC -ne 0 ]; then
  grep -E '^error' -A6 /verif/target/build.log | head -60
  echo "ERROR: the harness does not build against /repo (see /verif/target/build.log)"
  rm -f /verif/target/.mon.hash
  exit 2
fi
echo "$H" > /verif/target/.mon.hash
exit 0
