"""Runs operations on the C extension in a process of its own.

  cntr_child.py <_cntr.so>

Reads one JSON list of operations per line, answers with one JSON line. A
memory error ends the process (AddressSanitizer, UBSan) and the parent sees it.
"""
import gc
import hashlib
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import numpy as np  # noqa: E402


def load(so):
    spec = importlib.util.spec_from_file_location("_cntr", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def array(a):
    from raw import build
    return build(a)


def digest(res):
    h = hashlib.sha1()
    for r in res:
        h.update(repr((r.shape, r.dtype.str)).encode())
        h.update(np.ascontiguousarray(r).tobytes())
    return h.hexdigest()[:16]


def run(mod, ops):
    objs, arrays, out = {}, {}, []
    for op in ops:
        name = op[0]
        try:
            if name == "new":
                a = [array(s) for s in op[2]]
                arrays[op[1]] = [(x, None if not isinstance(x, np.ndarray) else x.tobytes()) for x in a]
                objs.pop(op[1], None)
                objs[op[1]] = mod.Cntr(*a)
                out.append("new")
            elif name == "blank":       # not initialised
                arrays.pop(op[1], None)
                objs[op[1]] = mod.Cntr.__new__(mod.Cntr)
                out.append("blank")
            elif name == "init":        # initialised again
                o = objs.get(op[1])
                if o is None:
                    out.append("none")
                    continue
                a = [array(s) for s in op[2]]
                o.__init__(*a)
                arrays[op[1]] = [(x, None if not isinstance(x, np.ndarray) else x.tobytes()) for x in a]
                out.append("init")
            elif name == "nomem":       # memory runs out at one allocation
                out.append(nomem(mod, [array(s) for s in op[1]], op[2], op[3]))
            elif name == "trace":
                o = objs.get(op[1])
                if o is None:
                    out.append("none")
                    continue
                r = o.trace(*[float(v) for v in op[2]], *op[3])
                assert len(r) % 2 == 0
                for v in r[:len(r) // 2]:
                    assert v.ndim == 2 and v.shape[1] == 2
                out.append([len(r), digest(r)])
            elif name == "data":
                o = objs.get(op[1])
                out.append("none" if o is None else ["codes", digest([o.get_cdata()])])
            elif name == "forget":      # (no cycles: freed at once)  the inputs may go away, not the object
                for x, b in arrays.pop(op[1], []):
                    if b is not None and x.tobytes() != b:
                        out.append("INPUT MODIFIED")
                out.append("forget")
            elif name == "del":
                objs.pop(op[1], None)
                out.append("del")
        except (TypeError, ValueError) as e:
            out.append("%s" % type(e).__name__)
    return out


def nomem(mod, a, level, k):
    """One allocation fails, in the creation of a tracer or in its use."""
    try:
        import _testcapi
    except ImportError:
        return "nomem"
    expected = digest(mod.Cntr(*a).trace(*level))
    for i in (0, 1):                    # fails in both, or in the use only
        o = r = None
        try:
            if i:
                o = mod.Cntr(*a)
            _testcapi.set_nomemory(k, k + 1)
            if not i:
                o = mod.Cntr(*a)
            r = o.trace(*level)
            o.get_cdata()
        except (MemoryError, ValueError):
            pass
        finally:
            _testcapi.remove_mem_hooks()
        if r is not None and digest(r) != expected:
            return "another result when memory ran out"
        r = None
        if o is not None and digest(o.trace(*level)) != expected:
            return "another result after memory ran out"
    return "nomem"


def refs(mod, ops):
    """References and memory that a repeated use leaves behind."""
    import ctypes
    libc = ctypes.CDLL(None)

    class M(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in
                    "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
    libc.mallinfo2.restype = M
    a = [array(s) for s in ops["arrays"]]
    levels = ops["levels"]

    kept = mod.Cntr(*a)

    def once():
        o = kept
        if ops.get("again"):
            o.__init__(*a)
        else:
            o = mod.Cntr(*a)
        for l in levels:
            o.trace(*l)
        if ops.get("codes"):
            o.get_cdata()
    for _ in range(10):
        once()
    gc.collect()
    r0 = [sys.getrefcount(x) for x in a]
    # caches of numpy and the allocator grow now and then, a leak grows each time
    grown = []
    for _ in range(3):
        m = libc.mallinfo2()
        m0 = m.uordblks + m.hblkhd
        for _ in range(ops["n"]):
            once()
        gc.collect()
        m = libc.mallinfo2()
        grown.append(m.uordblks + m.hblkhd - m0)
    return {"refs": [p - q for p, q in zip([sys.getrefcount(x) for x in a], r0)],
            "grown": min(grown), "bytes": sum(x.nbytes for x in a)}


def main():
    mod = load(sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r = run(mod, req) if isinstance(req, list) else refs(mod, req)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
