#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | --replay FILE"""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT]
sys.dont_write_bytecode = True
import driver
sys.exit(driver.main(sys.argv[1:]))
