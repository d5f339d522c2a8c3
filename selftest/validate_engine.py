"""Engine validation: every string literal of the repository's tests is parsed twice with the
instrumented code -- once as a native str, once as a string of one-value symbolic characters
that is never collapsed, so every str method, regex and dict lookup goes through symtex -- and
the results must be identical.  Usage: validate_engine.py [max-length] [shard/of]"""
import ast, glob, os, sys, time, threading

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symtex import instr, api
from symtex.core import E

REPO = os.environ.get("SYMTEX_REPO", "/repo")
instr.install(REPO)
import logging

logging.disable(logging.CRITICAL)
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
from symtex.values import SymStr, SymChar, SymInt
from symtex.explore import GlobalState


def conc(x):
    t = type(x)
    if t is SymStr:
        return "".join(chr(i if type(i) is int else i.concretize()) for i in x.items)
    if isinstance(x, dict):
        return {conc(k): conc(v) for k, v in dict.items(x)}
    if isinstance(x, (list, tuple)):
        return [conc(v) for v in x]
    return x


def strings():
    out = set()
    for f in sorted(glob.glob(REPO + "/tests/**/*.py", recursive=True)):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.strip():
                out.add(n.value)
    return sorted(out)


def main():
    maxlen = int(sys.argv[1]) if len(sys.argv) > 1 else 400
    k, of = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0/1").split("/"))
    ss = [s for s in strings() if len(s) <= maxlen][k::of]
    st = GlobalState()
    E.max_ticks = 3 * 10**6
    bad = ok = err = 0
    t0 = time.time()
    for s in ss:
        def run(x, nc):
            st.restore()
            E.no_collapse = nc
            try:
                p = LatexParser(logger=api.NullLogger())
                toks = p.parse(x, preprocess=True)
                a = conc(toks)
                try:
                    b = conc(TokenBuilder(logger=api.NullLogger()).build(toks))
                    b = [t.model_dump(exclude_none=True) for t in b] if b and not isinstance(b, dict) else b
                    b = conc(b)
                except Exception as e:
                    b = type(e).__name__
                return a, repr(b)
            except Exception as e:
                return ("EXC", type(e).__name__, str(e)[:80]), None
            except BaseException as e:
                return ("ENGINE", type(e).__name__, str(e)[:80]), None
            finally:
                E.no_collapse = False
        E.begin_path([], 0)
        n = run(s, False)
        E.begin_path([], 0)
        items = tuple(
            SymChar(E.new_char(1 << ord(c))) if ord(c) < 256 else ord(c) for c in s
        )
        y = run(SymStr(items), True)
        if n[0] != y[0] or (n[1] != y[1]):
            bad += 1
            if bad < 12:
                print("MISMATCH", repr(s)[:300]); print("   native ", str(n)[:700]); print("   engine ", str(y)[:700])
        else:
            ok += 1
    print("strings=%d identical=%d different=%d  %.1fs" % (len(ss), ok, bad, time.time() - t0))
    sys.exit(1 if bad else 0)


sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: main())
t.start(); t.join()
