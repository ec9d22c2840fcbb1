#!/bin/sh
# Checks that the tool chain the verifier needs is present, and that the verifier itself imports.
cd "$(dirname "$0")" || exit 1
command -v clang++-18 >/dev/null && command -v opt-18 >/dev/null && command -v llvm-link-18 >/dev/null && command -v cvc5 >/dev/null || exit 1
exec /opt/veriftools/pyvenv/bin/python -c "import sys; sys.path.insert(0, 'bmv'); import z3, run; print('verifier ready, z3', z3.get_version_string())"
