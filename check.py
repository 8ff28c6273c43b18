#!/opt/venv/bin/python
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.core import main
if __name__ == '__main__':
    sys.exit(main())
