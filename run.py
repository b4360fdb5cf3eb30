#!/usr/bin/env python3
"""run.py PROPERTY: decide one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.core import main
sys.exit(main(sys.argv))
