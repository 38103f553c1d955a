#!/bin/bash
# builds the extraction tool (the checks build it themselves if it is missing)
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0, "."); from vlib import core; print(core.ensure_tools())'
