"""Entry point: python3-vt check.py <PROPERTY> [--tier quick|thorough]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vstat.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
