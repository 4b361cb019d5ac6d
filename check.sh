#!/bin/bash
# usage: check.sh ID [quick|thorough]   |   check.sh replay FILE   |   check.sh build
cd "$(dirname "$0")" || exit 2
export VF_HOME=$PWD
. ./env.sh
build() {
    mkdir -p .cache/bin
    # the key directory of the packages becomes one below the (scratch) working directory
    ov=$PWD/.cache/overlay.$$
    tags=
    if [ "$1" = sched ]; then # scheduling points in front of every statement
        (cd tools/instr && go build -o "$ov.instr" .) && "$ov.instr" "$ov" vf > /dev/null || { echo "cannot instrument" >&2; exit 2; }
        rm -f "$ov.instr"; tags=vfsched
    else
        tools/mkoverlay.sh "$ov" vf
    fi
    (cd harness && go build -tags "$tags" -overlay "$ov/overlay.json" -o ../.cache/bin/vf.$$ .); rc=$?
    if [ $rc = 0 ] && [ "$1" = sched ]; then
        rm -f .cache/bin/vf-race
        (cd harness && CGO_ENABLED=1 go build -race -tags "$tags" -overlay "$ov/overlay.json" -o ../.cache/bin/vf-race.$$ .) &&
            mv -f ".cache/bin/vf-race.$$" .cache/bin/vf-race || echo "no build with the race detector" >&2
    fi
    if [ $rc = 0 ] && [ "$1" = cmd ]; then
        tools/mkoverlay.sh "$ov" /proc/self/cwd/vf "$PWD/tools/cmdrand/vf_rand.go"
        (cd /repo/src && go build -overlay "$ov/overlay.json" -o "$VF_HOME/.cache/bin/pkeygen.$$" main/pkeygen.go main/vf_rand.go) &&
            mv -f ".cache/bin/pkeygen.$$" .cache/bin/pkeygen; rc=$?
    fi
    rm -rf "$PWD/.cache/overlay.$$"
    [ $rc = 0 ] || { rm -f ".cache/bin/vf.$$"; echo "the harness does not build against /repo" >&2; exit 2; }
    mv -f ".cache/bin/vf.$$" ".cache/bin/vf${tags:+-sched}"
}
case "$1" in
build) build cmd ;;
replay)
    case "$(grep -o '"property":"C[0-9]*"' "$2")" in *C26*) build sched; exec .cache/bin/vf-sched replay "$2" ;; esac
    build cmd
    exec .cache/bin/vf replay "$2" ;;
C26) build sched; exec .cache/bin/vf-sched check "$1" "$2" ;;
C24) build cmd; exec .cache/bin/vf check "$1" "$2" ;;
*) build; exec .cache/bin/vf check "$1" "$2" ;;
esac
