#!/bin/bash
# check.sh <id> [quick|thorough]      run the check of a property
# check.sh <id> replay FILE           run one recorded case again
# check.sh setup                      build everything
#
# A check runs its suites first, and then searches those of random cases again
# under the guidance of the coverage they reach (a second, instrumented build).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
REPO=/repo
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_BUILD_JOBS=8
mkdir -p target evidence replays

# One build at a time.
exec 9>target/.lock
flock 9

fingerprint() {
  (cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
   [ -f Cargo.lock ] && sha256sum Cargo.lock) | sha256sum | cut -c1-64
}

# build <target dir> <rustflags> <cargo args...>; cargo's own change detection
# goes by modification times, so bongo is rebuilt whenever the hash of its
# sources is not the one the target directory was built from.
build() {
  local dir=$1 flags=$2 hash; shift 2
  export CARGO_TARGET_DIR=$dir RUSTFLAGS=$flags
  mkdir -p "$dir"
  hash=$(fingerprint)
  if [ "$(cat "$dir/.bongo-hash" 2>/dev/null)" != "$hash" ]; then
    rm -f "$dir/.bongo-hash"
    (cd harness && cargo clean --release --offline -q -p bongo) >/dev/null 2>&1
    # The checks depend on bongo, so they follow.
    echo "$hash" > "$dir/.bongo-hash"
  fi
  (cd harness && cargo build --release --offline -q "$@") > "$dir/build.log" 2>&1
}

# The only hooks the check of a property needs, where it needs any.
hook_of() {
  case $1 in
    c04) echo errors ;;
    c09) echo follows ;;
    c12) echo nonnull ;;
    c15) echo sync ;;
    c19|c32) echo buffer ;;
    c26) echo mergeables ;;
    c27) echo lalr ;;
  esac
}

if [ "$1" = setup ]; then
  build "$PWD/target/hooks" "--cfg bongo_verif -Awarnings" --bins || { cat target/hooks/build.log; exit 1; }
  RUSTC_WRAPPER=$PWD/harness/cov-rustc.sh \
    build "$PWD/target/hooks-cov" "--cfg bongo_verif -Awarnings" --bins || { cat target/hooks-cov/build.log; exit 1; }
  exit 0
fi

id=$1
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if flags="--cfg bongo_verif -Awarnings"; build "$PWD/target/hooks" "$flags" --bin "$bin"; then
  dir=target/hooks
elif part=$(hook_of "$bin"); [ -n "$part" ] && flags="--cfg bongo_verif_$part -Awarnings" &&
  build "$PWD/target/hook-$part" "$flags" --bin "$bin"; then
  echo "note: bongo does not build with all its hooks; built with those of $part only"
  dir=target/hook-$part
elif flags="-Awarnings"; build "$PWD/target/plain" "$flags" --bin "$bin"; then
  echo "note: bongo does not build with its hooks; only what needs none is checked"
  dir=target/plain
else
  tail -40 target/plain/build.log
  # What cannot be shared between threads cannot be checked between threads.
  if [ "$bin" = c15 ] && build "$PWD/target/plain" "-Awarnings" --bin c15share; then
    flock -u 9
    case $2 in
      replay) target/plain/release/c15share --replay "$3" ;;
      *) target/plain/release/c15share ;;
    esac
    [ $? = 1 ] && exit 1
  fi
  echo "ERROR: cannot build the check of $id"
  exit 2
fi
exe=$dir/release/$bin
if [ "$2" = replay ]; then
  flock -u 9
  exec "$exe" --replay "$3"
fi
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}

cov=
RUSTC_WRAPPER=$PWD/harness/cov-rustc.sh build "$PWD/$dir-cov" "$flags" --bin "$bin" &&
  cov=$dir-cov/release/$bin
flock -u 9

part=$PWD/target/part-$id-$$
trap 'rm -f "$part" "$part".*' EXIT
VERIF_PART=$part "$exe" "${@:3}"
rc=$?
if [ $rc != 0 ]; then exit $rc; fi
if [ -z "$cov" ]; then
  echo "note: no instrumented build, so no guided search"
  exit 0
fi
cp "$PWD/evidence/$id.json" "$part.json"
VERIF_PRIOR=$part VERIF_GUIDED=1 "$cov" "${@:3}" >"$part".out 2>&1
rc=$?
# What the instrumented build reports counts if the plain one does it too.
file=$(sed -n "s/^VIOLATION property=$id replay=//p" "$part".out | head -1)
if [ $rc = 1 ] && [ -n "$file" ]; then
  if "$exe" --replay "$file" >"$part".again 2>&1; [ $? = 1 ]; then
    cat "$part".out
    exit 1
  fi
  grep -v ^VIOLATION "$part".out
  echo "note: the case the guided search reports holds in the plain build"
  rm -f "$file"
  rc=2
else
  cat "$part".out
fi
if [ $rc != 0 ]; then
  echo "note: the guided search ended early; the suites held"
  cp "$part".json evidence/"$id".json
fi
exit 0
