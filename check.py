"""entry point: check.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# results must not depend on the package's logging configuration or on warnings
import logging      # noqa
import warnings     # noqa
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from mc import core  # noqa

if __name__ == "__main__":
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
