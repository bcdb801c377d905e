#!/bin/bash
# Builds the framework from the committed files, offline.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
set -u
mkdir -p "$VT"
build_main || exit 2
build_unsized || exit 2
build_gen || exit 2
