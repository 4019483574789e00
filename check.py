#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree (see DESIGN.md)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
if 'z3' not in sys.modules:
    try: import z3
    except ImportError:
        os.execv('/opt/veriftools/pyvenv/bin/python3', ['/opt/veriftools/pyvenv/bin/python3', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = False
from irvc import driver
sys.exit(driver.main(sys.argv[1]))
