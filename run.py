import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from vp.check import main
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
