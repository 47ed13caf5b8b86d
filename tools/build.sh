# sourced by check.sh and setup.sh: environment and (re)build of the monitors.
# VERIF_VARIANTS lists the instrumented builds that are wanted as well: asan, tsan, miri.
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$ROOT/target
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
# cargo decides freshness by mtime; a tree swapped under it with old mtimes must still be rebuilt
H=$(cd /repo && find unic apps gen -type f \( -name '*.rs' -o -name '*.rsv' -o -name '*.rsd' -o -name 'Cargo.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

# fresh DIR: the fingerprints under target directory DIR belong to this tree, or are dropped
fresh() {
    mkdir -p "$1"
    [ "$(cat "$1/.verif-srchash" 2>/dev/null)" = "$H" ] && return
    rm -f "$1/.verif-srchash"
    find "$1" -maxdepth 5 -type d -path '*/.fingerprint/*' \( -name 'unic*' -o -name 'mon-*' -o -name 'ub-*' -o -name 'offcfg-*' -o -name 'clibins-*' -o -name 'genbin-*' -o -name 'cfgs-*' \) -not -path "$CARGO_TARGET_DIR/asan/*" -not -path "$CARGO_TARGET_DIR/tsan/*" -not -path "$CARGO_TARGET_DIR/miri/*" -not -path "$CARGO_TARGET_DIR/cfgs*/*" -prune -exec rm -rf {} + 2>/dev/null
}
fresh_sub() {
    mkdir -p "$1"
    [ "$(cat "$1/.verif-srchash" 2>/dev/null)" = "$H" ] && return
    rm -f "$1/.verif-srchash"
    find "$1" -maxdepth 5 -type d -path '*/.fingerprint/*' \( -name 'unic*' -o -name 'mon-*' -o -name 'ub-*' -o -name 'cfgs-*' \) -prune -exec rm -rf {} + 2>/dev/null
}

fresh "$CARGO_TARGET_DIR"
build_ok=1
(cd "$ROOT/harness" && cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/.build.log") || build_ok=0
(cd "$ROOT/offcfg" && cargo build --offline --quiet 2>>"$CARGO_TARGET_DIR/.build.log") || build_ok=0
# C33 alone needs the programs
if (cd "$ROOT/cli" && cargo build --offline --quiet 2>>"$CARGO_TARGET_DIR/.build.log"); then
    export VERIF_ECHO=$CARGO_TARGET_DIR/debug/unic-echo VERIF_INSPECTOR=$CARGO_TARGET_DIR/debug/unic-inspector
fi
if [ $build_ok = 0 ]; then tail -40 "$CARGO_TARGET_DIR/.build.log" >&2; else echo "$H" > "$CARGO_TARGET_DIR/.verif-srchash"; fi
export VERIF_OFFCFG=$CARGO_TARGET_DIR/debug/offcfg

# instrumented variants: release semantics (no debug assertions, wrapping arithmetic), as users run it.
# A variant that does not build is left out and the evidence says so.
variant() { # NAME RUSTFLAGS EXTRA-CARGO-ARGS...
    local name=$1 flags=$2 dir=$CARGO_TARGET_DIR/$1; shift 2
    fresh_sub "$dir"
    if (cd "$ROOT/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$flags -Awarnings" CARGO_TARGET_DIR=$dir timeout 600 cargo build --offline --quiet --features unstable \
            --config 'profile.dev.debug-assertions=false' --config 'profile.dev.overflow-checks=false' \
            --target x86_64-unknown-linux-gnu "$@" 2>"$dir/.build.log"); then
        echo "$H" > "$dir/.verif-srchash"
        echo "$dir/x86_64-unknown-linux-gnu/debug/mon"
    else
        echo "NOTE: the $name build failed: $(grep -m1 '^error' "$dir/.build.log")" >&2
    fi
}
if [ $build_ok = 1 ]; then
    case " $VERIF_VARIANTS " in *" gen "*)
        if (cd "$ROOT/genbin" && cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/.build-gen.log"); then
            export VERIF_GEN=$CARGO_TARGET_DIR/debug/unic-gen
        else
            echo "NOTE: unic-gen did not build: $(grep -m1 '^error' "$CARGO_TARGET_DIR/.build-gen.log")" >&2
        fi;;
    esac
    case " $VERIF_VARIANTS " in *" asan "*) b=$(variant asan "-Zsanitizer=address -Zub-checks=yes"); [ -n "$b" ] && export VERIF_ASAN_MON=$b;; esac
    case " $VERIF_VARIANTS " in *" tsan "*) b=$(variant tsan "-Zsanitizer=thread" -Zbuild-std); [ -n "$b" ] && export VERIF_TSAN_MON=$b;; esac
    case " $VERIF_VARIANTS " in *" miri "*)
        fresh_sub "$CARGO_TARGET_DIR/miri"
        if (cd "$ROOT/ub" && env -u RUSTUP_TOOLCHAIN RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/miri \
                timeout 600 cargo +nightly miri run --offline -q --features unstable -- none 1 1 >/dev/null 2>"$CARGO_TARGET_DIR/miri/.build.log"); then
            echo "$H" > "$CARGO_TARGET_DIR/miri/.verif-srchash"
            export VERIF_UB_DIR=$ROOT/ub
        else
            echo "NOTE: the Miri build failed: $(grep -m1 '^error' "$CARGO_TARGET_DIR/miri/.build.log")" >&2
        fi;;
    esac
    # the same questions in several builds of the library; the first is the reference
    case " $VERIF_VARIANTS " in *" cfgs "*)
        T=$CARGO_TARGET_DIR
        cfg() { # NAME TOOLCHAIN PROFILE-DIR ARGS...
            local name=$1 tc=$2 sub=$3 dir=$T/cfgs-$1; shift 3
            fresh_sub "$dir"; rm -f "$dir/.ok"
            (cd "$ROOT/cfgs" && RUSTUP_TOOLCHAIN=$tc RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$dir timeout 500 cargo build --offline --quiet "$@" 2>"$dir/.build.log") && echo "$H" > "$dir/.verif-srchash" && echo "$dir/$sub/cfgs" > "$dir/.ok"
        }
        cfg debug 1.82.0 debug --features full & cfg release 1.82.0 release --release --features full & cfg small 1.82.0 small --profile small & cfg nightly nightly release --release --features full,unstable &
        for t in s390x-unknown-linux-gnu i686-unknown-linux-gnu; do
            d=$T/cfgs-miri-$t; fresh_sub "$d"; rm -f "$d/.ok"
            (cd "$ROOT/cfgs" && env -u RUSTUP_TOOLCHAIN RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR=$d \
                timeout 600 cargo +nightly miri run --offline -q --target $t -- chars 65 66 >/dev/null 2>"$d/.build.log" && echo "$H" > "$d/.verif-srchash" && echo $t > "$d/.ok") &
        done
        wait
        VERIF_CFGS=; VERIF_CFGS_FAILED=; VERIF_CFGS_MIRI=
        for n in debug release small nightly; do
            d=$T/cfgs-$n
            if [ -f "$d/.ok" ]; then
                VERIF_CFGS="$VERIF_CFGS${VERIF_CFGS:+;}$n=$(cat "$d/.ok")"
            else
                echo "NOTE: the $n build failed: $(grep -m1 '^error' "$d/.build.log")" >&2
                # a compiler error in the library itself, not a build that was ended
                [ $n = small ] && [ -n "$VERIF_CFGS" ] && grep -q '^error: could not compile `unic-' "$d/.build.log" && ! grep -q 'signal: ' "$d/.build.log" &&
                    VERIF_CFGS_FAILED="$VERIF_CFGS_FAILED$n: $(grep -m1 '^error' "$d/.build.log")
"
            fi
        done
        for t in s390x-unknown-linux-gnu i686-unknown-linux-gnu; do
            if [ -f "$T/cfgs-miri-$t/.ok" ]; then VERIF_CFGS_MIRI="$VERIF_CFGS_MIRI $t"; else echo "NOTE: the Miri build for $t failed: $(grep -m1 '^error' "$T/cfgs-miri-$t/.build.log")" >&2; fi
        done
        # without the reference there is nothing to compare
        case $VERIF_CFGS in debug=*) export VERIF_CFGS VERIF_CFGS_FAILED VERIF_CFGS_MIRI VERIF_CFGS_DIR=$ROOT/cfgs;; *) build_ok=0;; esac;;
    esac
fi
flock -u 9; exec 9>&-
[ $build_ok = 1 ]
