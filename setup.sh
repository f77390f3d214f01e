#!/bin/bash
# Nothing to compile: the checks are Python and drive /repo's working tree
# directly.  Verify that the interpreter and the library can be loaded.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
scratch="$(mktemp -d /tmp/nimble-mc.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
HOME="$scratch" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore \
  PYTHONPATH="${NIMBLE_REPO:-/repo}:$here" /opt/venv/bin/python -B -c 'import nimble, mc.core, mc.model, mc.obs'
