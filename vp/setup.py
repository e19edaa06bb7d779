#!/usr/bin/env python3
"""Nothing to build: checks that the tools the framework calls are present."""
import shutil, sys
need = ['clang++-18', 'cbmc', 'goto-cc', 'g++', 'z3', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-link', '/usr/lib/llvm-18/bin/llvm-nm']
miss = [n for n in need if not shutil.which(n)]
if miss: print('missing tools: ' + ', '.join(miss)); sys.exit(1)
print('ok')
