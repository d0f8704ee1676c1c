#!/bin/sh
# nothing to install: the verifier is Python over preinstalled clang, z3, cvc5 and cbmc
cd "$(dirname "$0")" && mkdir -p build evidence && python3-vt -c "import z3; from vf import main; main.make_config()" && clang --version | head -1
