"""Runs a function in a fresh fork of this process as it was when the zygote
was created: the reference for what a call returns without any history."""
import json
import os
import struct


class Zygote:
    def __init__(self, fn):
        """fn: JSON request -> JSON reply; called in a child of its own each time."""
        self.owner = os.getpid()
        rq, wq = os.pipe()
        ra, wa = os.pipe()
        if os.fork() == 0:
            os.close(wq)
            os.close(ra)
            self._serve(fn, rq, wa)
            os._exit(0)
        os.close(rq)
        os.close(wa)
        self.wq, self.ra = wq, ra

    @staticmethod
    def _read(fd, n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b

    def _serve(self, fn, rq, wa):
        while True:
            h = self._read(rq, 4)
            if h is None:
                return
            req = json.loads(self._read(rq, struct.unpack("I", h)[0]))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    out = json.dumps(fn(req)).encode()
                except BaseException as e:  # the reference itself failed
                    out = json.dumps({"reference failed": "%s: %s" % (type(e).__name__, e)}).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                out = f.read()
            os.waitpid(pid, 0)
            os.write(wa, struct.pack("I", len(out)))
            while out:
                out = out[os.write(wa, out):]

    def ask(self, req):
        b = json.dumps(req).encode()
        b = struct.pack("I", len(b)) + b
        while b:
            b = b[os.write(self.wq, b):]
        h = self._read(self.ra, 4)
        return json.loads(self._read(self.ra, struct.unpack("I", h)[0]))
