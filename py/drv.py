"""Evaluates Python code given line by line against the module built from the repository."""
import math
import resource
import signal
import sys

sys.path.insert(0, sys.argv[1])
import poppy

if not poppy.__file__.startswith(sys.argv[1]):
    sys.exit(7)
# what the module lacks fails when it is used
globals().update((n, getattr(poppy, n)) for n in ("BloomFilter", "load", "loads") if hasattr(poppy, n))
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def B(h):
    return bytes.fromhex(h)


def T(h):
    return bytes.fromhex(h).decode("utf-8")


def S(f):
    """All that can be observed of a filter."""
    return " ".join(
        [
            str(f.version),
            str(f.capacity),
            repr(float(f.fpp)),
            str(f.count_estimate),
            str(f.is_full()),
            "d" + bytes(f.data).hex(),
            bytes(f.dumps()).hex(),
        ]
    )


def limit(n):
    h = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (h if n < 0 else n, h))


def text(v):
    if v is None:
        return "None"
    if isinstance(v, bool):
        return "True" if v else "False"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, str):
        return v
    return "<" + type(v).__name__ + ">"


G = dict(globals())
for line in sys.stdin:
    line = line.rstrip("\n")
    try:
        if line.startswith("!"):
            exec(line[1:], G)
            r = "ok"
        else:
            r = "ok " + text(eval(line, G))
    except BaseException as e:
        names = ",".join(c.__name__ for c in type(e).__mro__)
        r = "exc " + names + " " + str(e).replace("\n", " ")
    sys.stdout.write(r + "\n")
    sys.stdout.flush()
