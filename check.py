#!/usr/bin/env python3
"""Usage: check.py <property id> [quick|thorough]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import harness
import checks
if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1:]))
