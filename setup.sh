#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 2
root=$PWD
. ./tools/build.sh
build_sim && build_race
