"""Ephemeris kernels of bodies at rest"""
import struct


def kernel(path, vectors):
    """SPK file of bodies that rest at constant vectors (km): {(center, target): (x, y, z)}"""
    span = 86400.0 * 36525 * 2
    data, summ = [], []
    addr = 385
    for (c, t), v in vectors.items():
        # one interval; type 2: mid, radius, coefficients; then init, length, record size, count
        seg = [0.0, span, v[0], 0.0, v[1], 0.0, v[2], 0.0, -span, 2 * span, 8.0, 1.0]
        summ.append(struct.pack("<2d6i", -span, span, t, c, 1, 2, addr, addr + len(seg) - 1))
        data += seg; addr += len(seg)
    rec = b"DAF/SPK " + struct.pack("<2i", 2, 6) + b"stand-in".ljust(60) + struct.pack("<3i", 2, 2, addr) + b"LTL-IEEE"
    rec = rec.ljust(699, b"\0") + b"FTPSTR:\r:\n:\r\n:\r\0:\x81:\x10\xce:ENDFTP"
    out = rec.ljust(1024, b"\0") + (struct.pack("<3d", 0.0, 0.0, float(len(summ))) + b"".join(summ)).ljust(1024, b"\0")
    out += b"".join(b"stand-in".ljust(40) for _ in summ).ljust(1024, b" ")
    out += struct.pack(f"<{len(data)}d", *data)
    path.write_bytes(out.ljust(-(-len(out) // 1024) * 1024, b"\0"))
