#!/bin/bash
# compiles /verif/models/models.rs with the facts driver (only when it changed)
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd); B=$HERE/build
[ "$B/models/models.lib.jsonl" -nt "$HERE/models/models.rs" ] && [ "$B/models/models.lib.jsonl" -nt "$B/driver/debug/mirfacts" ] && exit 0
mkdir -p "$B/models"
MIRFACTS_OUT=$B/models "$B/driver/debug/mirfacts" rustc --crate-name models --crate-type lib --edition 2024 --emit metadata -o "$B/models/libmodels.rmeta" "$HERE/models/models.rs"
