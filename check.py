#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough] [--replay=FILE]"""
import importlib, os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
sys.setrecursionlimit(10000)
import engine
engine.main(importlib.import_module(sys.argv[1]), sys.argv[2:])
