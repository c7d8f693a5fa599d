#!/bin/sh
# nothing to build: the encoding is regenerated from /repo by every check; this only verifies the tools are here
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string())'
test -f /usr/share/java/jython.jar
python3-vt -m py_compile engine/run.py engine/rt.py engine/sym.py engine/shims.py engine/explore.py engine/hsym.py engine/xform.py engine/loader.py
