#!/usr/bin/env python3
"""Build the MIR reader and the dependencies' metadata."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
try:
    check.extract()
except check.Broken as x:
    print(x)
    sys.exit(1)
