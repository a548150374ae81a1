"""Checks that what the analyses need is installed. Nothing is built."""
import shutil, sys
need = ['/usr/bin/clang-18', 'bison']
miss = [n for n in need if not shutil.which(n)]
if miss:
    print('missing: ' + ', '.join(miss))
    sys.exit(1)
print('ready')
