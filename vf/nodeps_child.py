"""runs a pickled list of calls in an interpreter in which some packages cannot be imported: nodeps_child.py REPO IN OUT blocked,.."""
import sys, pickle, signal, warnings
warnings.simplefilter("ignore"); sys.dont_write_bytecode = True
repo, src, dst, blocked = sys.argv[1:5]
class Absent:
    names = set(filter(None, blocked.split(",")))
    def find_spec(s, n, p=None, t=None):
        if n.split(".")[0] in s.names: raise ImportError("%s is not installed" % n.split(".")[0])
sys.meta_path.insert(0, Absent()); sys.path.insert(0, repo)
import importlib
sys.path.append(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
sys.path.append(sys.path[-1] + '/..')   # for vf.nodeps_fns
from nodeps_enc import enc
def err(e):
    m = str(e)
    if isinstance(e, (ImportError, NameError, AttributeError)):
        t = e.__traceback__; q = []
        while t is not None: q.append(t.tb_frame.f_code.co_qualname.replace(".__init__", "")); t = t.tb_next
        return ("E", type(e).__name__, m[:120], q)
    return ("E", type(e).__name__, "")
def alarm(*a): raise TimeoutError("slow")
signal.signal(signal.SIGALRM, alarm)
def run(f, a, kw):
    try:
        signal.alarm(30); v = f(*a, **kw); signal.alarm(0); return enc(v), v
    except RecursionError: signal.alarm(0); return ("E", "RecursionError", ""), None
    except Exception as e: signal.alarm(0); return err(e), None
out = []
try: import fluids; fail = None
except Exception as e: fail = "importing fluids: %r" % e
if fail is None:
    for name, kw, Q in pickle.load(open(src, "rb")):
        m, f = name.rsplit(".", 1)
        try: fn = getattr(importlib.import_module("fluids." + m), f)
        except Exception as e: out.append((err(e), [])); continue
        y, o = run(fn, (), kw)
        out.append((y, [run(lambda: getattr(o, n)(*a), (), {})[0] for n, a in Q] if o is not None else []))
pickle.dump((fail, out, sorted(n for n in Absent.names if n in sys.modules)), open(dst, "wb"))
