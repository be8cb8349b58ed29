"""Minimal independent reader of NetCDF classic / 64-bit-offset files."""
import struct

import numpy as np

TYPES = {1: ("i1", 1), 2: ("S1", 1), 3: (">i2", 2), 4: (">i4", 4), 5: (">f4", 4), 6: (">f8", 8)}


class Bad(ValueError):
    pass


def read(path):
    """-> dict(version, dims {name: size}, unlimited name or None,
    vars {name: (dims, dtype, array)}); raises Bad on malformed or truncated files"""
    b = open(path, "rb").read()
    if len(b) < 8 or b[:3] != b"CDF" or b[3] not in (1, 2):
        raise Bad("not a NetCDF classic file")
    ver = b[3]
    pos = 4

    def u4():
        nonlocal pos
        if pos + 4 > len(b):
            raise Bad("truncated header")
        v = struct.unpack(">I", b[pos:pos + 4])[0]
        pos += 4
        return v

    def off():
        nonlocal pos
        if ver == 1:
            return u4()
        v = struct.unpack(">Q", b[pos:pos + 8])[0]
        pos += 8
        return v

    def name():
        nonlocal pos
        n = u4()
        s = b[pos:pos + n].decode()
        pos += (n + 3) // 4 * 4
        return s

    def atts():
        nonlocal pos
        t, n = u4(), u4()
        if t not in (0, 12):
            raise Bad("bad attribute list")
        for _ in range(n):
            name()
            ty, k = u4(), u4()
            pos += (k * TYPES[ty][1] + 3) // 4 * 4

    numrecs = u4()
    t, n = u4(), u4()
    if t not in (0, 10):
        raise Bad("bad dimension list")
    dims = []
    for _ in range(n):
        dn = name()
        dims.append((dn, u4()))
    atts()
    t, n = u4(), u4()
    if t not in (0, 11):
        raise Bad("bad variable list")
    raw = []
    for _ in range(n):
        vn = name()
        nd = u4()
        ids = [u4() for _ in range(nd)]
        atts()
        ty, vsize = u4(), u4()
        raw.append((vn, ids, ty, vsize, off()))
    recs = [r for r in raw if r[1] and dims[r[1][0]][1] == 0]
    recsize = sum(r[3] for r in recs)
    out = {}
    for vn, ids, ty, vsize, begin in raw:
        dt, sz = TYPES[ty]
        shape = [dims[i][1] for i in ids]
        if ids and dims[ids[0]][1] == 0:
            shape[0] = numrecs
            per = int(np.prod(shape[1:])) if len(shape) > 1 else 1
            rows = []
            for k in range(numrecs):
                o = begin + k * recsize
                if o + per * sz > len(b):
                    raise Bad(f"truncated record variable {vn}")
                rows.append(np.frombuffer(b, dt, per, o))
            a = np.array(rows).reshape(shape)
        else:
            cnt = int(np.prod(shape)) if shape else 1
            if begin + cnt * sz > len(b):
                raise Bad(f"truncated variable {vn}")
            a = np.frombuffer(b, dt, cnt, begin).reshape(shape)
        out[vn] = (tuple(dims[i][0] for i in ids), dt, a)
    unl = [d for d, s in dims if s == 0]
    return {"version": ver, "dims": dict(dims), "unlimited": unl[0] if unl else None, "vars": out}
