"""Nothing to build: says whether the tools the checks use are there."""
import shutil, sys
miss = [t for t in ('clang', 'clang-18', 'opt') if not shutil.which(t)]
print('clang', shutil.which('clang'), 'missing:', miss)
sys.exit(0 if shutil.which('clang') or shutil.which('clang-18') else 1)
