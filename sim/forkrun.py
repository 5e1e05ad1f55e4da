"""Run a function in a forked child and get its (picklable) result."""
from __future__ import annotations

import gc
import os
import pickle
import select
import signal
import struct
import sys
import time


class ChildError(BaseException):
    """The child crashed, hung, or the harness in it failed: never a verdict."""


def in_child(fn, *args, timeout=200.0):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            gc.freeze()
            try:
                res = ("ok", fn(*args))
            except BaseException as e:
                import traceback

                res = ("exc", "".join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(res)
            buf = struct.pack("<Q", len(data)) + data
            mv = memoryview(buf)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    end = time.monotonic() + timeout
    chunks = []
    size = None
    got = 0
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildError(f"child exceeded its wall time of {timeout}s")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
            got += len(b)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if len(data) < 8:
        raise ChildError(f"child died (status {status})")
    size = struct.unpack("<Q", data[:8])[0]
    if len(data) != 8 + size:
        raise ChildError("short result")
    kind, val = pickle.loads(data[8:])
    if kind == "exc":
        raise ChildError("in child: " + val)
    return val
