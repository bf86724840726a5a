#!/bin/bash
# nothing to build: the checks load /repo's sources directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import torch, numpy" && /opt/veriftools/pyvenv/bin/python -c "import z3, cvc5"
