"""Checks that the tools the checks rely on are present (nothing has to be built in advance)."""
import shutil
import sys
import z3
print('z3', z3.get_version_string())
miss = [t for t in ('clang++', 'g++') if not shutil.which(t)]
if miss:
    print('missing:', miss)
    sys.exit(1)
