#!/opt/veriftools/pyvenv/bin/python3
"""run.py Cnn [--tier quick|thorough] [-v] [--case NAME]"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex import runner
sys.stdout.reconfigure(line_buffering=True)
rc = runner.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
