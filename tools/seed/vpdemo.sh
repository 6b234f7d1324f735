# usage: . vpdemo.sh; vpdemo_run CRATE_NAME [CRATE_DIR_TO_COPY]  -- compiles demo.rs (beside this file) and runs it, from a scratch workspace
# CRATE_DIR empty: demo.rs is an integration test using the public API; otherwise it is a private test module of that crate.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
vpdemo_run() {
    dir=$1
    W=$(mktemp -d /tmp/vpdemo.XXXXXX)
    trap 'rm -rf "$W"' EXIT
    cp -a /opt/vp/ws/. "$W/"
    if [ -n "$dir" ]; then
        if [ -L "$W/$dir" ]; then rm "$W/$dir"; mkdir "$W/$dir"; for e in /repo/$dir/*; do b=$(basename "$e"); [ "$b" = src ] || [ "$b" = target ] || ln -s "$e" "$W/$dir/$b"; done
        else rm -rf "$W/$dir/src"; fi
        cp -a "/repo/$dir/src" "$W/$dir/src"
        cp "$HERE/demo.rs" "$W/$dir/src/vp_demo.rs"
        printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$W/$dir/src/lib.rs"
        cd "$W"
        timeout 280 cargo test --offline --workspace --features "$FEATURES" --lib -- --test-threads 1 vp_demo > "$W/log" 2>&1
    else
        mkdir -p "$W/crates/vp_demo/tests" "$W/crates/vp_demo/src"
        : > "$W/crates/vp_demo/src/lib.rs"
        cp "$HERE/demo.rs" "$W/crates/vp_demo/tests/vp_demo.rs"
        cp "$HERE/Cargo.demo.toml" "$W/crates/vp_demo/Cargo.toml"
        python3 - "$W/Cargo.toml" <<'PY'
import re,sys
p=sys.argv[1]; s=open(p).read()
s=s.replace('members = [','members = ["crates/vp_demo", ',1)
open(p,"w").write(s)
PY
        cd "$W"
        timeout 280 cargo test --offline --workspace --features "$FEATURES" --test vp_demo -- --test-threads 1 > "$W/log" 2>&1
    fi
    rc=$?
    tail -40 "$W/log"
    n=$(sed -n 's/^test result: ok\. \([0-9]*\) passed.*/\1/p' "$W/log" | awk '{s+=$1} END {print s+0}')
    [ $rc -eq 0 ] && [ "$n" -gt 0 ]
}
