#!/bin/bash
# Nothing to build ahead of time: every check imports the code under test from /repo and rebuilds the compiled kernel
# in a scratch copy when /repo's sources changed.  Only verify that the interpreter is there.
cd "$(dirname "$0")" && /opt/venv/bin/python -c "import numpy, scipy, sympy" 
