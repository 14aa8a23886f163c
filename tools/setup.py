"""Builds what the checks share (each check also brings it up to date with /repo before it runs)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
build.driver_exe()
build.libmgen_exe()
