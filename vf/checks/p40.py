from ..specs import numbaif as f
from .. import corpus as co
INSTRUMENT = False
FLOOR = 0
RULE = "every public function that numba compiles from the tree as it is (caches off): recorded calls varied by seed, per pattern of argument types; the compiled result, scalar and array interface, against the interpreted one; distinct = distinct argument sets"
ASSUME = ["a function or argument pattern numba cannot compile is not callable through this interface and is not judged", "where the interpreted function fails in the math module or with an arithmetic error, compiled code may return nan, infinity or any number (numba's documented float semantics)"]
def tasks(tier, seed):
    names = [n for n in sorted(co.corpus()) if n.split(".")[-1] not in f.SKIPF]
    q = tier == "quick"
    out = [("numba." + n, f.run, n, seed, 60 if q else 600, 2 if q else 6, 20 if q else 60) for n in names]
    out += [("class." + n, f.run_cls, n, seed, 40 if q else 800) for n in f.CLS]
    out += [("vec." + n, f.run_vec, n, seed, 12 if q else 100, 30) for i, n in enumerate(names) if not n.startswith("numerics") and (not q or hash_of(n, seed) < .5)]
    return out
def hash_of(n, seed):
    import zlib
    return zlib.crc32(("%s/%s" % (n, seed)).encode())/2**32
