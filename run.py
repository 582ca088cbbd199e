import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vf  # noqa: E402

try:
    code = vf.main(sys.argv[1:])
except BaseException:
    import traceback
    traceback.print_exc()
    code = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
