#!/bin/bash
# Nothing to build: the framework is Python and imports /repo's working tree directly. Checks that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -B -c "import numpy, onnx, onnx.reference, tabulate; print('ok')"
