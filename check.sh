#!/bin/bash
# usage: check.sh <property id>     (VERIF_SEED, VERIF_TIER)
#        check.sh --build           builds everything, runs nothing
# Builds the monitors from /repo's current working tree and runs one of them.
# exit 0 held, 1 violated (VIOLATION line), 2 inconclusive
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
export VMON_ROOT=$here VMON_SOURCE=/repo/crates
export PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
stable=stable-x86_64-unknown-linux-gnu
nightly=nightly-x86_64-unknown-linux-gnu
triple=x86_64-unknown-linux-gnu
export RUSTUP_TOOLCHAIN=$stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG MIRIFLAGS
mkdir -p "$here/evidence" "$here/replays"
what=${1:?property}

# cargo notices changes by modification time only; a tree with other contents must be rebuilt
# whatever its times say
sum=$(find /repo/crates /repo/Cargo.toml "$here/harness/src" "$here/harness/stub" "$here/harness/Cargo.toml" "$here/harness/known_literals.json" -type f \
      -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
export VMON_SOURCE_SUM=$sum

# build <target directory> <cargo arguments...>
build() {
  local dir=$here/harness/$1; shift
  mkdir -p "$dir"
  (
    exec 9>"$dir/.lock"
    flock 9
    cd "$here/harness" || exit 1
    export CARGO_TARGET_DIR=$dir
    if [ "$(cat "$dir/.sum" 2>/dev/null)" != "$sum" ]; then
      rm -f "$dir/.sum"
      # (a clean without any build before it would only complain)
      cargo clean --offline -q -p openid4vci -p vmon >/dev/null 2>&1
      [ -d "$dir/$triple" ] && cargo clean --offline -q --target $triple -p openid4vci -p vmon >/dev/null 2>&1
    fi
    "$@" >"$dir/build.log" 2>&1 || exit 1
    echo "$sum" >"$dir/.sum"
  )
}
asan() {
  RUSTUP_TOOLCHAIN=$nightly RUSTFLAGS="-Zsanitizer=address --cfg no_virtual_clock" \
    build target-asan cargo build --offline --target $triple
}
tsan() {
  RUSTUP_TOOLCHAIN=$nightly RUSTFLAGS="-Zsanitizer=thread --cfg no_virtual_clock" \
    build target-tsan cargo build --offline -Zbuild-std --target $triple
}
miri() { # builds, and runs next to nothing
  RUSTUP_TOOLCHAIN=$nightly MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" \
    build target-miri cargo miri run --offline -q -- self
}

if ! build target cargo build --offline; then
  echo "inconclusive: the monitors do not build against /repo" >&2
  grep -E '^error' -A6 "$here/harness/target/build.log" | head -60 >&2
  exit 2
fi
tool() { "$1" || echo "the $1 build failed: $(tail -3 "$here/harness/target-$1/build.log" | tr '\n' ' ')" >&2; }
case $what in
  --build) tool asan; tool tsan; tool miri; exit 0 ;;
  C23) tool asan; tool miri ;;
  C24) tool tsan ;;
esac
ulimit -c 0
# far from UTC, and not by whole hours: local time must not matter (C24 answers TZ itself)
[ "$what" = C24 ] || export TZ=VMON-5:45
"$here/harness/target/debug/vmon" run "$what"
rc=$?
case $rc in
  132|133|134|135|136|139)
    # the library brought the whole process down (corrupted memory, abort, stack overflow): no
    # operation of it may end like that, and the decision under observation was never given
    file=$here/replays/$what-died-$$.json
    printf '{"property": "%s", "seed": "%s", "tier": "%s", "index": null, "what": "the process died of signal %s during library calls", "witness": "VERIF_SEED=%s VERIF_TIER=%s check.sh %s"}\n' \
      "$what" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" $((rc - 128)) "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$what" >"$file"
    echo "  violated: the process died of signal $((rc - 128)) during library calls"
    echo "VIOLATION property=$what replay=$file"
    exit 1 ;;
esac
exit $rc
