#!/bin/bash
# run from the repository root: bundles the current sources into a scratch directory and runs demo.cjs on them
D="$(cd "$(dirname "$0")" && pwd)"
NODE=/opt/node/node_modules/.bin/node; [ -x "$NODE" ] || NODE=node
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
"$NODE" "$D/bundle.cjs" "$PWD" "$W/vg.cjs" || exit 2
VG="$W/vg.cjs" ROOT="$PWD" timeout 200 "$NODE" "$D/demo.cjs"
