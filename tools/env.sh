# The build environment of the repository, plus a separate target directory for the harness.
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true \
  CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR

repo_hash() { # content of everything the builds read from /repo
  (cd /repo && find src elinor-cli Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

build_harness() {
  local t=$VERIF_DIR/target h
  h=$(repo_hash)
  mkdir -p "$t"
  # Cargo goes by file times; a changed tree with old times must still be rebuilt.
  if [ -d "$t/release" ] && [ "$(cat "$t/repo.hash" 2>/dev/null)" != "$h" ]; then
    (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$t cargo clean -q --release --offline -p elinor -p elinor-verif) 2>/dev/null
  fi
  rm -f "$t/repo.hash"
  (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$t cargo build -q --release --offline --locked) || return 1
  echo "$h" > "$t/repo.hash"
}

# The CLI binaries, with the flags of the repository's own build so that its (git-ignored)
# target directory can be reused; third-party crates take most of the time.
build_cli() {
  export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
  local h; h=$(repo_hash)
  cd /repo || return 1
  # Cargo.lock is git-ignored in the repository; without it nothing resolves offline.
  [ -f Cargo.lock ] || cp "$VERIF_DIR/tools/repo-Cargo.lock" Cargo.lock
  mkdir -p target
  if [ "$(cat target/verif-repo.hash 2>/dev/null)" != "$h" ]; then
    cargo clean -q --offline -p elinor -p elinor-cli 2>/dev/null
  fi
  rm -f target/verif-repo.hash
  cargo build -q --workspace --bins --features elinor/serde --offline || return 1
  echo "$h" > target/verif-repo.hash
  unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
  export ELINOR_BIN=/repo/target/debug
  cd "$VERIF_DIR" || return 1
}
