"""setup_cmd: build the code under test, the process runner and the library driver once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build(lib=True)
print("setup ok")
