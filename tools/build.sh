# sourced: builds the harness and the bindings against /repo's working tree. cargo's mtime freshness is not trusted for /repo.
# every build takes one lock; RV_ROOT is /verif
stale() { find "$1" -maxdepth 4 -path '*/.fingerprint/seuif97-*' -prune -exec rm -rf {} + 2>/dev/null; }
logged() { # log command...
    local log=$1; shift
    "$@" >"$log" 2>&1 || { grep -E '^error' -A8 "$log" | head -40; tail -3 "$log"; return 1; }
}
build_harness() {
    (
        exec 9>"$RV_ROOT/target/.lock"; flock 9
        export CARGO_TARGET_DIR=$RV_ROOT/target
        stale "$RV_ROOT/target/release"
        cd "$RV_ROOT/harness" && logged "$RV_ROOT/target/build.log" cargo build --release --offline --locked
    )
}
build_cdecl() {
    (
        exec 9>"$RV_ROOT/target/.lock-cdecl"; flock 9
        mkdir -p "$RV_ROOT/target/cdecl"; stale "$RV_ROOT/target/cdecl"
        export CARGO_TARGET_DIR=$RV_ROOT/target/cdecl
        cd "$RV_ROOT/harness" && logged "$RV_ROOT/target/cdecl.log" cargo build --release --offline --lib --features cdecl --manifest-path /repo/Cargo.toml
    )
}
build_python() {
    (
        exec 9>"$RV_ROOT/target/.lock-python"; flock 9
        mkdir -p "$RV_ROOT/target/python"; stale "$RV_ROOT/target/python"
        export CARGO_TARGET_DIR=$RV_ROOT/target/python PYO3_PYTHON=${PYO3_PYTHON:-/usr/bin/python3}
        cd "$RV_ROOT/harness" && logged "$RV_ROOT/target/python.log" cargo build --release --offline --lib --features python --manifest-path /repo/Cargo.toml || exit 1
        # the package as setup.py lays it out: python/seuif97 with the extension seuif97.seuif97 inside
        P=$RV_ROOT/target/python/pkg
        mkdir -p "$P/seuif97" && cp /repo/python/seuif97/*.py "$P/seuif97/" && cp "$RV_ROOT/target/python/release/libseuif97.so" "$P/seuif97/seuif97.so"
    )
}
# extern "stdcall" exists only on 32-bit x86; linked against the 32-bit runtime libraries directly (no 32-bit crt files are installed)
build_stdcall() {
    (
        exec 9>"$RV_ROOT/target/.lock-stdcall"; flock 9
        D=$RV_ROOT/target/stdcall; mkdir -p "$D/lib32"; stale "$D"
        for l in c m dl pthread rt util; do f=$(ls /usr/lib32/lib$l.so.[0-9]* 2>/dev/null | head -1); [ -n "$f" ] && ln -sf "$f" "$D/lib32/lib$l.so"; done
        ln -sf /usr/lib32/libgcc_s.so.1 "$D/lib32/libgcc_s.so"
        export CARGO_TARGET_DIR=$D RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu
        export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=clang
        export RUSTFLAGS="-C link-arg=-m32 -C link-arg=-nostartfiles -C link-arg=-fuse-ld=lld -C link-arg=-L$D/lib32 -C link-arg=-Wl,--dynamic-linker=/usr/lib32/ld-linux.so.2"
        cd "$RV_ROOT/ffi32" && logged "$RV_ROOT/target/stdcall.log" cargo build --release --offline --locked --target i686-unknown-linux-gnu || exit 1
        stale "$D"
        logged "$RV_ROOT/target/stdcall.log" cargo build --release --offline --lib --features stdcall --target i686-unknown-linux-gnu --manifest-path /repo/Cargo.toml
    )
}

build_asan() {
    (
        exec 9>"$RV_ROOT/target/.lock-asan"; flock 9
        mkdir -p "$RV_ROOT/target/asan"; stale "$RV_ROOT/target/asan"
        export CARGO_TARGET_DIR=$RV_ROOT/target/asan RUSTFLAGS=-Zsanitizer=address
        cd "$RV_ROOT/harness" && logged "$RV_ROOT/target/asan.log" cargo +nightly build --release --offline --locked --target x86_64-unknown-linux-gnu
    )
}
build_tsan() { # std is rebuilt too, so that its synchronisation is seen
    (
        exec 9>"$RV_ROOT/target/.lock-tsan"; flock 9
        mkdir -p "$RV_ROOT/target/tsan"; stale "$RV_ROOT/target/tsan"
        export CARGO_TARGET_DIR=$RV_ROOT/target/tsan RUSTFLAGS=-Zsanitizer=thread
        cd "$RV_ROOT/harness" && logged "$RV_ROOT/target/tsan.log" cargo +nightly build -Zbuild-std --release --offline --locked --target x86_64-unknown-linux-gnu
    )
}
# run a sanitizer build of the harness: stage NAME ID SCALE. Sets EXTRA; returns 1 after printing a VIOLATION line.
stage() {
    local name=$1 id=$2 scale=$3 log=$RV_ROOT/target/$1-$2.log rc
    env -u RV_STATS RV_SCALE=$scale RV_EVIDENCE=$RV_ROOT/target/$name-$id.json timeout -k 5 400 "$RV_ROOT/target/$name/x86_64-unknown-linux-gnu/release/rvharness" "$id" >"$log" 2>&1; rc=$?
    if [ $rc = 0 ]; then EXTRA="$name build of library and harness, clean: $(tail -1 "$log")"; echo "[$name] $(tail -1 "$log")"; return 0; fi
    if [ $rc = 124 ] || [ $rc = 137 ]; then EXTRA="$name stage stopped by its time limit without a finding"; echo "[$name] stopped by its time limit"; return 0; fi
    if grep -q "^VIOLATION property=$id " "$log"; then grep -vE '^(    #|=)' "$log" | head -60; return 1; fi
    if grep -qE 'ERROR: AddressSanitizer|WARNING: ThreadSanitizer' "$log"; then
        mkdir -p "$RV_ROOT/replays"; cp "$log" "$RV_ROOT/replays/$id-$name.txt"
        grep -E -A14 'ERROR: AddressSanitizer|WARNING: ThreadSanitizer' "$log" | head -40
        echo "VIOLATION property=$id replay=$RV_ROOT/replays/$id-$name.txt"; return 1
    fi
    tail -5 "$log"; echo "$name stage failed with $rc (no verdict from it)"; return 2
}
