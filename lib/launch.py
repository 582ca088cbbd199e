"""python launch.py <program of /repo> <arguments>: runs it as `python <program> <arguments>` would,
with the environment repairs of boot.py."""
import ctypes
import os
import runpy
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL)  # ends with the process that started it
import boot
boot.install()
program = os.path.join(boot.REPO, sys.argv[1])
sys.argv = [program] + sys.argv[2:]
runpy.run_path(program, run_name="__main__")
