#!/bin/bash
# build.sh SRC OUT VARIANT
# Builds bic from SRC/src (working tree) into OUT, without autotools and without
# touching SRC.  VARIANT: plain (-O2, like the project's build) | asan | cov
set -e
SRC=$(realpath "$1"); OUT=$(realpath -m "$2"); VARIANT=${3:-plain}
export LC_ALL=C M4PATH=$SRC/src
unset MAKEFLAGS MFLAGS MAKELEVEL
mkdir -p "$OUT/obj"
cp "$(dirname "$0")/config.h" "$OUT/config.h"
cp "$SRC"/src/* "$OUT/obj/" 2>/dev/null || true
sed -n 's/^AC_INIT(\[\(.*\)\], *\[\(.*\)\], *\[\(.*\)\])/\1 \2/p' "$SRC/configure.ac" > "$OUT/.init" || true
cp "$(dirname "$0")/bic.mk" "$OUT/obj/bic.mk"
make -rs -C "$OUT/obj" -f bic.mk -j8 VARIANT=$VARIANT
