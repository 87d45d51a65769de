#!/bin/sh
# builds the clang-based extractor (about 20 s)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'.')
from ppk.ir import build_tool; build_tool(); print('extractor ready')"
