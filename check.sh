#!/bin/bash
# Rebuilds the simulators against /repo's working tree and decides one property.
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
root=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. ./tools/build.sh
mkdir -p evidence
case $prop in C01) engines=race ;; C09 | C10) engines="sim race" ;; *) engines=sim ;; esac
for e in $engines; do build_$e || exit 3; done
for e in $engines; do
    case $e in
    sim) "$SIM" check "$prop" --tier "$tier" --root "$root" ;;
    race) "$RACE" check "$prop" --tier "$tier" --root "$root" ;;
    esac
    rc=$?
    [ $rc -eq 0 ] || exit $rc
done
