import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
from engine import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1], sys.argv[2:]))
