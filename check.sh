#!/bin/bash
# Usage: check.sh <PROPERTY-ID> [--replay FILE]
# Bundles /repo's current sources into a private scratch directory, runs the monitors of
# one property under the Node version the repository's own tests use, writes evidence/<id>.json.
cd "$(dirname "$0")" || exit 3
NODE=/opt/node/node_modules/.bin/node
[ -x "$NODE" ] || NODE=node
export TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
export NODE_OPTIONS=--max-old-space-size=4096
if [ "$1" = --setup ]; then exec "$NODE" lib/setup.cjs; fi
exec "$NODE" --expose-gc lib/run.cjs "$@"
