#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   builds the monitors against /repo's working tree and runs one property
set -u
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/scripts/env.sh"
RACE=""; case "$ID" in P16) RACE="-race";; esac
BIN="$HERE/.build/zverif${RACE}"
mkdir -p "$HERE/.build" "$HERE/evidence"
cd "$HERE/harness" || exit 2
mod() { cp go.mod "$HERE/.build/go.$$.mod" && cp go.sum "$HERE/.build/go.$$.sum"; }
unmod() { rm -f "$HERE/.build/go.$$.mod" "$HERE/.build/go.$$.sum"; }
mod
# the monitors of other properties reach into internal packages that this one does without: when they no longer fit
# the tree, this property's monitors are built alone
parts() {
	case "$ID" in
	P01) echo total card verify iso crypto;; P02|P03|P04|P05) echo card;; P06) echo ring card;; P07|P08) echo vu card;;
	P09) echo dd card;; P10) echo text dd card;; P11) echo edit ring dd card;; P12) echo iso card;; P13) echo crypto card;;
	P14) echo verify iso crypto card;; P15) echo lookup card;; P16) echo conc iso lookup crypto card verify;;
	P17) echo anon dd edit card ring;; P18) echo valid card iso;; P19) echo cli iso card;; P20) echo type card;;
	P21) echo marshal edit card dd ring;; P22) echo fetch cli card iso;;
	P23) echo local iso card;; P24) echo leave lookup verify iso crypto card;;
	esac
}
build() { go build -modfile="$HERE/.build/go.$$.mod" $RACE -o "$BIN.$$" "$@"; }
own() { ls *.go | grep -v '^p_'; parts | tr ' ' '\n' | sed 's/.*/p_&.go/'; }
alone() { build $(own); }
build32() { go build -modfile="$HERE/.build/go.$$.mod" -o "$W32" "$@"; }
built=0
build . 2> "$HERE/.build/err.$$" || { echo "note: only the monitors of $ID are built: $(sed -n 2p "$HERE/.build/err.$$")"; alone 2> /dev/null; built=$?; }
[ $built = 0 ] || { cat "$HERE/.build/err.$$"; echo "build failed"; }
unmod; rm -f "$HERE/.build/err.$$"
[ $built = 0 ] || { rm -f "$BIN.$$"; exit 2; }
LEG="$HERE/.build/leg.$$.json"; W32="$HERE/.build/zverif32.$$"
trap 'rm -f "$BIN.$$" "$W32" "$LEG"' EXIT
# what depends on the size of integers is watched on a 32-bit build first, with a part of the cases
case "$ID" in P01|P03|P06|P07|P09|P21)
	PART=6; [ "$ID" = P01 ] && PART=12; [ "$TIER" = thorough ] && PART=1
	mod; export GOARCH=386 CGO_ENABLED=0
	{ build32 . || build32 $(own); } 2> /dev/null
	unset GOARCH CGO_ENABLED
	if "$W32" -h > /dev/null 2>&1; then
		"$W32" -prop "$ID" -tier quick -part $PART -seed "$SEED" -dir "$HERE" -evidence "$LEG" > "$LEG.out" 2>&1; rc=$?
		if [ $rc = 1 ]; then
			echo "on a 32-bit build:"; cat "$LEG.out"; cp "$LEG" "$HERE/evidence/$ID.json"; rm -f "$LEG.out"; unmod; exit 1
		fi
		[ $rc = 0 ] || echo "note: no verdict of the 32-bit build (status $rc)"
		rm -f "$LEG.out"
	else
		echo "note: no 32-bit build"
	fi
	unmod
esac
export ZVERIF_LEG="$LEG"
"$BIN.$$" -prop "$ID" -tier "$TIER" -seed "$SEED" -dir "$HERE" -evidence "$HERE/evidence/$ID.json"
