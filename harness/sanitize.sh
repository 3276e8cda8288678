#!/bin/bash
# C21: runs the workload families under overflow and debug checks, AddressSanitizer (without the crate's
# debug assertions, which could hide an invalid access), ThreadSanitizer and MemorySanitizer
# (with an instrumented standard library) and Miri. Called by ./run with the release binary.
VP="$1"
cd "$VERIF_DIR/harness" || exit 2
T0=$(date +%s)
B="$VERIF_DIR/.build-san"
D="$B/logs"
mkdir -p "$B"
rm -rf "$B/logs" "$B/asan.ok" "$B/tsan.ok" "$B/msan.ok"
mkdir -p "$D"
SEED="$VERIF_SEED"
X=x86_64-unknown-linux-gnu
if [ "$VERIF_TIER" = thorough ]; then
  WALK=900; PER_O=60; PER_A=60; PER_T=30; PER_M=40; CAP=150; MLIM=560; MODES="0 1 2 3 4 5 6 7 8 9"
else
  WALK=280; PER_O=8; PER_A=6; PER_T=2; PER_M=4; CAP=35; MLIM=240; MODES="0 1 3 4 8 9"
fi
export VP_CAP=$CAP
HOOK="--cfg qesa_hooks --cfg vp_san"

run() { # name command...
  local n=$1; shift
  timeout -k 5 600 "$@" > "$D/$n.log" 2>&1
  echo $? > "$D/$n.rc"
}
build() { # name target-dir profile flags args...
  local n=$1 t=$2 prof=$3 f=$4; shift 4
  RUSTFLAGS="$f" CARGO_TARGET_DIR="$t" timeout 600 cargo +nightly build --profile "$prof" --offline --target $X "$@" > "$B/$n-build.log" 2>&1
  local rc=$?
  [ $rc = 0 ] || { echo "the $n build failed: $(tail -1 "$B/$n-build.log")" > "$D/$n.log"; echo build > "$D/$n.rc"; }
  return $rc
}
# the interpreter: one process per session
miri() {
  export XDG_CACHE_HOME="$B/cache"
  MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS="$HOOK" CARGO_TARGET_DIR="$B/miri" \
    timeout 400 cargo +nightly miri run --offline -- list > "$B/miri-build.log" 2>&1 ||
    { echo "the interpreter did not start: $(tail -1 "$B/miri-build.log")" > "$D/miri.log"; echo build > "$D/miri.rc"; return; }
  for m in $MODES; do
    ( MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS="$HOOK" CARGO_TARGET_DIR="$B/miri" \
        timeout -k 5 $MLIM cargo +nightly miri run --offline -- miri $m $SEED > "$D/miri-$m.log" 2>&1
      rc=$?
      # a session that does not end in time is not judged; its reports would still be in the log
      [ $rc = 124 ] && { echo "SAMPLE session $m unfinished" >> "$D/miri-$m.log"; echo DONE >> "$D/miri-$m.log"; rc=0; }
      echo $rc > "$D/miri-$m.rc" ) &
  done
  wait
}
miri &
( build asan "$B/asan" plain "$HOOK --cap-lints allow -Zsanitizer=address -Cforce-frame-pointers=yes" && touch "$B/asan.ok" ) &
A=$!
( build tsan "$B/tsan" release "$HOOK --cap-lints allow -Zsanitizer=thread" -Zbuild-std && touch "$B/tsan.ok" ) &
T=$!
( build msan "$B/msan" release "$HOOK --cap-lints allow -Zsanitizer=memory" -Zbuild-std && touch "$B/msan.ok" ) &
M=$!
run overflow-1 "$VP" workload $SEED $PER_O 1
VP_WALK=$WALK run overflow-8 "$VP" workload $((SEED + 1)) $((PER_O * 4)) 8
wait $A
export ASAN_OPTIONS=halt_on_error=1:exitcode=99:detect_stack_use_after_return=1:detect_leaks=1
[ -e "$B/asan.ok" ] && run asan-8 "$B/asan/$X/plain/vp" workload $((SEED + 2)) $PER_A 8
wait $T
export TSAN_OPTIONS=halt_on_error=1:exitcode=98
[ -e "$B/tsan.ok" ] && run tsan-8 "$B/tsan/$X/release/vp" workload $((SEED + 3)) $PER_T 8
wait $M
export MSAN_OPTIONS=halt_on_error=1:exitcode=97
[ -e "$B/msan.ok" ] && run msan-8 "$B/msan/$X/release/vp" workload $((SEED + 4)) $PER_M 8
wait
VP_WALL=$(( $(date +%s) - T0 )) "$VP" sanitize-report "$D"
