"""A reader for the still, non-interlaced PNG files of the sprite sheets."""
import struct
import zlib


def black(path):
    """(width, height, rows): rows[y] is an int whose bit x is set iff the red
    channel of pixel (x, y) is zero after alpha premultiplication (what the
    generator's RGBA() test sees)."""
    d = open(path, "rb").read()
    if d[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("not a PNG file: " + path)
    i, idat, plte, trns = 8, b"", None, None
    while i < len(d):
        n, t = struct.unpack(">I4s", d[i:i + 8])
        c = d[i + 8:i + 8 + n]
        i += 12 + n
        if t == b"IHDR":
            w, h, depth, color, _, _, inter = struct.unpack(">IIBBBBB", c)
        elif t == b"PLTE":
            plte = [tuple(c[k:k + 3]) for k in range(0, len(c), 3)]
        elif t == b"tRNS":
            trns = c
        elif t == b"IDAT":
            idat += c
        elif t == b"IEND":
            break
    if inter:
        raise ValueError("interlaced PNG: " + path)
    chan = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    bpp = max(1, chan * depth // 8)
    stride = (w * chan * depth + 7) // 8
    raw = zlib.decompress(idat)
    prev = bytearray(stride)
    rows = []
    for y in range(h):
        o = y * (stride + 1)
        ft = raw[o]
        cur = bytearray(raw[o + 1:o + 1 + stride])
        if ft == 1:
            for k in range(bpp, stride):
                cur[k] = (cur[k] + cur[k - bpp]) & 255
        elif ft == 2:
            for k in range(stride):
                cur[k] = (cur[k] + prev[k]) & 255
        elif ft == 3:
            for k in range(stride):
                a = cur[k - bpp] if k >= bpp else 0
                cur[k] = (cur[k] + (a + prev[k]) // 2) & 255
        elif ft == 4:
            for k in range(stride):
                a = cur[k - bpp] if k >= bpp else 0
                b = prev[k]
                cc = prev[k - bpp] if k >= bpp else 0
                q = a + b - cc
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - cc)
                pr = a if pa <= pb and pa <= pc else b if pb <= pc else cc
                cur[k] = (cur[k] + pr) & 255
        elif ft != 0:
            raise ValueError("bad filter type")
        prev = cur
        row = 0
        if color in (0, 3) and depth <= 8:
            for x in range(w):
                bit = x * depth
                v = (cur[bit >> 3] >> (8 - depth - (bit & 7))) & ((1 << depth) - 1)
                if color == 3:
                    a = trns[v] if trns is not None and v < len(trns) else 255
                    z = a == 0 or plte[v][0] == 0
                else:
                    z = v == 0 or (trns is not None and v == struct.unpack(">H", trns[:2])[0])
                if z:
                    row |= 1 << x
        elif depth == 8:
            for x in range(w):
                px = cur[x * chan:(x + 1) * chan]
                z = px[0] == 0 or (chan in (2, 4) and px[-1] == 0)
                if z:
                    row |= 1 << x
        else:
            raise ValueError("unsupported pixel depth")
        rows.append(row)
    return w, h, rows
