#!/bin/bash
# run.sh build | check ID quick|thorough [FAMILY] | replay FILE | list
# Builds the explorer against the current working tree of /repo, then runs it.
set -u
here=/verif
target=$here/target
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$target"

build() {
    # cargo only looks at the dates of the files: when the contents changed, forget its fingerprints.
    local stamp
    stamp=$( (cd /repo && find . -path ./target -prune -o -path ./fuzz -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
              cd "$here/mc" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
    if [ "$(cat "$target/stamp" 2>/dev/null)" != "$stamp" ]; then
        rm -f "$target/stamp"
        find "$target" -maxdepth 4 -type d -path '*/.fingerprint/*' \( -name 'minifier-*' -o -name 'mc-*' \) -exec rm -rf {} + 2>/dev/null
    fi
    (cd "$here/mc" && cargo build --release --offline --locked --target-dir "$target/mc") >"$target/build.log" 2>&1 \
        && (cd "$here" && cargo build --offline --manifest-path /repo/Cargo.toml --bin minifier --target-dir "$target/cli") >>"$target/build.log" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then
        cat "$target/build.log" >&2
        echo "run.sh: the build failed" >&2
        exit 2
    fi
    echo "$stamp" >"$target/stamp"
}

case "${1:-}" in
    build) build; echo "built" ;;
    check | replay | list)
        build
        exec "$target/mc/release/mc" "$@" ;;
    *) echo "usage: run.sh build | check ID quick|thorough | replay FILE | list" >&2; exit 2 ;;
esac
