"""setup_cmd: verifies that the vendored library and the code under test can be imported."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot
os.environ.update({k: v for k, v in boot.child_env(os.environ.get("HOME", "/tmp")).items() if k.startswith("HAMILTON")})
boot.setup_path()
import hypothesis, hamilton.driver
print("hypothesis", hypothesis.__version__, "hamilton", hamilton.driver.__file__)
