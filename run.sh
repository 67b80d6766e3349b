#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>     decide one property on /repo's current working tree
# run.sh --replay <file>                 run one recorded case again
# Exit 0: held on everything explored. 1: violation. 2: no verdict (does not build, harness error).
BIN=/verif/target/mon/debug/sds-monitor
bash /verif/build.sh || exit 2
ulimit -c 0
cd /verif
if [ "$1" = "--replay" ]; then
  timeout 880 "$BIN" --replay "$2"
  RC=$?
  P=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1); R=$2
else
  P=$1; T=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
  mkdir -p /verif/evidence /verif/replays
  rm -f "/verif/evidence/$P.json"
  if [ -x "/verif/extra/$P.sh" ]; then
    bash "/verif/extra/$P.sh" "$T" "$SEED"; RC=$?
    [ $RC -ne 0 ] && exit $RC
  fi
  L=880; [ "$T" = thorough ] && L=7200
  timeout $L "$BIN" "$P" "$T" "$SEED"
  RC=$?
  R=/verif/replays/$P-crash-s$SEED.json
fi
if [ "$1" != "--replay" ] && [ $RC = 0 ]; then
  # the memory and concurrency properties once more under the compiler's sanitizers
  case $P in P14) SAN=tsan ;; P18) SAN=asan ;; P19) SAN="asan tsan" ;; *) SAN= ;; esac
  for V in $SAN; do
    bash /verif/san.sh run $V "$P" "$T" "$SEED"; S=$?
    python3 /verif/tools/sanmerge.py "$P" $V $S
    [ $S = 1 ] && RC=1
  done
fi
case $RC in
  0|1|2) exit $RC ;;
  132|134|135|136|139)
    # killed by SIGILL, SIGABRT, SIGBUS, SIGFPE or SIGSEGV while the code under test was running
    mkdir -p /verif/replays
    [ "$1" = "--replay" ] || echo "{\"property\": \"$P\", \"signature\": \"crash\", \"description\": \"the process died with status $RC\", \"how_to_replay\": \"VERIF_SEED=$SEED bash /verif/run.sh $P $T\"}" > "$R"
    echo "the process died with status $RC"
    echo "VIOLATION property=$P replay=$R"
    exit 1 ;;
  *) echo "ERROR: the harness ended with status $RC"; exit 2 ;;
esac
