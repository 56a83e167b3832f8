"""Builds the driver, the command line program and the TLC operator overrides."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build(cli=True)
print('built')
