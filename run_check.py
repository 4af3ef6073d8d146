"""Entry point: run_check.py PROPERTY [--only SUBSTR] [-v]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # z3
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.meta_path = [f for f in sys.meta_path if 'editable' not in repr(f)]

from engine.explore import main   # noqa: E402

sys.exit(main(sys.argv[1:]))
