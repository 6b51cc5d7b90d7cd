#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.core import main
sys.exit(main(sys.argv[1:]))
