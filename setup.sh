#!/bin/bash
# Nothing has to be built beforehand; checks that the tools are there.
cd "$(dirname "$0")" || exit 1
test -x /opt/venv/bin/python && java -version >/dev/null 2>&1 && PYTHONPATH=/repo/python/src TF_CPP_MIN_LOG_LEVEL=3 /opt/venv/bin/python -c "import space" >/dev/null 2>&1
