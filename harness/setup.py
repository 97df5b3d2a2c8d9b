"""Build step: compile the arithmetic override for TLC."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc

print(tlc.classes())
