#!/bin/sh
# Nothing is installed: the checks build bic themselves. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v python3-vt gcc clang g++ m4 bison flex >/dev/null
python3-vt -c 'import hypothesis'
mkdir -p evidence replays
sh -c 'bash lib/build.sh "${VERIF_REPO:-/repo}" "$0/b" plain >/dev/null && "$0/b/bic" --version >/dev/null 2>&1; rm -rf "$0"' "$(mktemp -d)"
echo ready
