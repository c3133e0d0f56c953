#!/opt/venv/bin/python
"""Check one property:  run.py <ID> [--tier quick|thorough] [--case NAME]
Replay a counterexample: run.py --replay FILE"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import warnings

warnings.simplefilter('ignore')
from symx import driver  # noqa: E402

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:], HERE))
