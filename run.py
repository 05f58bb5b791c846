#!/opt/venv/bin/python
"""Run one check: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]."""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/oblmon', PYTHONUTF8='1')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oblmon.core import main

sys.exit(main())
