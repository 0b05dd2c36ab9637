#!/bin/bash
# check.sh ID [quick|thorough] [case]: builds the harness against /repo's working tree and runs the
# monitor of one property. C26 runs in a build with AddressSanitizer.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export CARGO_NET_OFFLINE=true
TARGET=${VERIF_TARGET:-$ROOT/harness/target}
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$ROOT/evidence}
ulimit -n 8192 2>/dev/null
mkdir -p "$VERIF_EVIDENCE"

# build VARIANT: plain or asan
build() {
  local bin
  if [ "$1" = asan ]; then
    export CARGO_TARGET_DIR=$TARGET/asan VERIF_SHIM=$TARGET/asan/shim
    bin=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug
    CC="clang -g -fsanitize=address"
    CARGO=(cargo +nightly build --target x86_64-unknown-linux-gnu)
    export RUSTFLAGS="-Zsanitizer=address -Clink-args=-rdynamic"
  else
    export CARGO_TARGET_DIR=$TARGET VERIF_SHIM=$TARGET/shim
    bin=$CARGO_TARGET_DIR/debug
    CC=gcc
    CARGO=(cargo build)
  fi
  BIN=$bin/verif
  mkdir -p "$VERIF_SHIM"
  {
    for s in model rt; do
      if [ ! -f "$VERIF_SHIM/$s.so" ] || [ "$ROOT/harness/shim/$s.c" -nt "$VERIF_SHIM/$s.so" ]; then
        cc=$CC
        [ $s = rt ] && cc=gcc
        $cc -shared -fPIC -O1 -w -o "$VERIF_SHIM/$s.so.$$" "$ROOT/harness/shim/$s.c" -ldl && mv "$VERIF_SHIM/$s.so.$$" "$VERIF_SHIM/$s.so" || return 1
      fi
    done
    # Cargo goes by mtimes. If the contents of /repo changed, whatever their mtimes say, have its crate recompiled.
    local now stamp=$CARGO_TARGET_DIR/.repo-sources.sha256
    now=$(cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
      rm -rf "${bin:?}"/.fingerprint/libfranka-rs-*
      echo "$now" >"$stamp"
    fi
    "${CARGO[@]}" --offline --quiet --manifest-path "$ROOT/harness/Cargo.toml"
  } >"$VERIF_SHIM/build.log" 2>&1
}
build_or_exit() {
  build "$1" && return
  tail -40 "$VERIF_SHIM/build.log" >&2
  echo "the harness could not be built against /repo" >&2
  exit 2
}
if [ "$1" = build ]; then
  if [ "$2" != plain ]; then (build_or_exit asan) || exit; fi
  (build_or_exit plain)
  exit
fi
ID=$1 TIER=${2:-quick} SEED=${VERIF_SEED:-1}
START=$SECONDS
if [ "$ID" = C26 ]; then
  build_or_exit asan
  mkdir -p "$VERIF_EVIDENCE/replay"
  REPORT=$VERIF_EVIDENCE/replay/C26-asan
  rm -f "$REPORT".*
  export ASAN_OPTIONS=detect_leaks=0:exitcode=86:abort_on_error=0:log_path=$REPORT:detect_stack_use_after_return=1
else
  build_or_exit plain
fi
RUN=("$BIN")
# C07 makes peers vanish with a socket filter, which needs privileges or a network namespace of its own.
if [ "$ID" = C07 ] && ! python3 -c 'import socket, struct, ctypes
f = ctypes.create_string_buffer(struct.pack("HBBI", 6, 0, 0, 0))
socket.socket().setsockopt(socket.SOL_SOCKET, 26, struct.pack("HxxxxxxP", 1, ctypes.addressof(f)))' 2>/dev/null && unshare -Urn ip link set lo up 2>/dev/null; then
  RUN=(unshare -Urn sh -c 'ip link set lo up && exec "$0" "$@"' "$BIN")
fi
"${RUN[@]}" "$@"
RC=$?
# The library took the process down: a crash, an abort or a report of the sanitizer.
case $RC in
86 | 132 | 134 | 135 | 136 | 139)
  mkdir -p "$VERIF_EVIDENCE/replay"
  F=$VERIF_EVIDENCE/replay/$ID-$SEED-crash.txt
  {
    echo "property $ID seed $SEED tier $TIER: the process ended with status $RC (86: report of AddressSanitizer, 128+n: signal n)"
    echo "replay: VERIF_SEED=$SEED /verif/check.sh $ID $TIER"
    [ "$ID" = C26 ] && cat "$REPORT".* 2>/dev/null | head -200
  } >"$F"
  cat >"$VERIF_EVIDENCE/$ID.json" <<J
{"property": "$ID", "tier": "$TIER", "seed": $SEED, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended by a crash of the process under observation", "samples": ["exit status $RC"]},
 "wall_s": $((SECONDS - START)), "violations": 1}
J
  echo "the process under observation crashed (status $RC)"
  echo "VIOLATION property=$ID replay=$F"
  exit 1
  ;;
esac
exit $RC
