#!/bin/sh
# Build the framework: checks that the tools are there and builds library + drivers once (checks rebuild on their own).
cd "$(dirname "$0")/.." || exit 1
command -v java >/dev/null && command -v gcc >/dev/null && command -v python3 >/dev/null || exit 1
mkdir -p out evidence
python3 -c "
import sys; sys.path.insert(0,'lib')
import vf; vf.build_all()
"
