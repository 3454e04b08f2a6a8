#!/usr/bin/env python3
"""nothing to build: check that the tools the analysis needs are there"""
import shutil
import sys
for t in ('clang-18', 'opt-18'):
    if shutil.which(t) is None:
        print('missing tool', t)
        sys.exit(1)
print('ok')
