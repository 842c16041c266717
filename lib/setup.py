"""Builds the engine, the LLVM IR and the replay binaries ahead of the checks."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
try:
    run.build(['checked', 'release'])
except run.Broken as b:
    print(b)
    sys.exit(2)
print('built')
