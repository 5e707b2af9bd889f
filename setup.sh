#!/bin/sh
# Nothing is built: the checks read /repo's sources and run them.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3, cvc5' && /opt/venv-pypy/bin/python -c 'import cbor'
