#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks, mc
sys.exit(mc.main(checks.CHECKS))
