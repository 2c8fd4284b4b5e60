#!/bin/sh
# Nothing to build: checks that the tools are there.
cd "$(dirname "$0")" || exit 1
command -v cvc5 >/dev/null || echo 'note: cvc5 missing, z3 alone will be used'
exec python3-vt -c 'import z3, sys; sys.path[:0] = ["/repo", "/opt/venv/lib/python3.12/site-packages"]; import webauthn_rp.backends'
