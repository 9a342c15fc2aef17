#!/usr/bin/env python3-vt
"""Entry point of every check: python3-vt check.py Cxx [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pvc.runner import main
sys.exit(main(sys.argv[1:]))
