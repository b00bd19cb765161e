#!/bin/bash
# builds the weaver; every check builds it itself if it is missing
cd "$(dirname "$0")/.." && python3 -c "import sys; sys.path.insert(0,'lib'); import vxlib; vxlib.build_vx()"
