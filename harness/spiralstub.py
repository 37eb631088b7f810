"""Recording stand-in for the third-party splitter spiral.ronin, which is not installed in this sandbox."""
import sys
import types
import zlib

calls = []


def pieces(s):
    """A deterministic splitter: cuts depend on the characters only."""
    out, cur = [], ''
    for i, c in enumerate(s):
        if cur and zlib.crc32((cur + c).encode('utf-8', 'surrogatepass')) % 3 == 0:
            out.append(cur)
            cur = ''
        cur += c
    if cur:
        out.append(cur)
    return out


def _split(s):
    calls.append(s)
    return pieces(s)


def install():
    ronin = types.ModuleType('spiral.ronin')
    ronin.split = _split
    spiral = types.ModuleType('spiral')
    spiral.ronin = ronin
    sys.modules['spiral'] = spiral
    sys.modules['spiral.ronin'] = ronin
