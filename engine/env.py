"""Process environment of workers: the real code of /repo, scratch HOME and cwd, nothing written to /repo."""
import os
import sys

REPO = os.environ.get('KC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)
