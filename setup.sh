#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 2
bash harness/build.sh || exit 2
[ -d pure ] && { bash pure/build.sh || exit 2; }
# the whole specification parses and type-checks (file by file: errors in imported files go unnoticed otherwise)
for f in spec/*.qnt; do quint typecheck "$f" || exit 2; done
# the properties hold on the specification's own machine (a sample of its behaviours)
quint run --main worlds --invariant correct --max-samples 40 --max-steps 10 --seed 7 spec/worlds.qnt || exit 2
