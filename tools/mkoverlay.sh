#!/bin/bash
# mkoverlay.sh OUTDIR PREFIX [FILE...] : writes OUTDIR/overlay.json, under which the packages of /repo keep their
# keys below PREFIX/etc and their temporary files below PREFIX/tmp (only string literals that start so are changed; the sources stay as they are); each FILE is added to the command's directory
out=$1 prefix=$2
mkdir -p "$out"
rep=
for f in $(grep -lE '["`]/(etc|tmp)\b' /repo/src/util/*.go /repo/src/main/*.go 2>/dev/null); do
    case $f in *_test.go) continue ;; esac
    g=$out/$(basename "$(dirname "$f")")_$(basename "$f")
    sed -E "s#([\"\`])/(etc|tmp)\b#\1$prefix/\2#g" "$f" > "$g"
    rep="$rep${rep:+,}\"$f\":\"$g\""
done
shift 2
for f in "$@"; do rep="$rep${rep:+,}\"/repo/src/main/$(basename "$f")\":\"$f\""; done
echo "{\"Replace\":{$rep}}" > "$out/overlay.json"
