"""Builds circom from /repo's working tree, offline."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
core.build_circom()
print("built", core.CIRCOM)
