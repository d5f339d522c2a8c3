"""pytest plugin: run the repository's own test-suite on the instrumented modules"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symtex import instr
from symtex.core import E
E.max_ticks = 10**12
instr.install(os.environ.get("SYMTEX_REPO", "/repo"))
