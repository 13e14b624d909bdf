"""Byte strings which are easily taken for one another: of equal length, and equal in one of the digests, ends or sets of bytes
somebody might use to recognise them (a cache, a filter for repetitions)."""
import binascii
import zlib

from mc import ref


def _poly(degrees, top):
    """Difference pattern of a reflected CRC: processed least significant bit first."""
    out = bytearray((top + 8) // 8)
    for d in degrees:
        i = top - d
        out[i // 8] |= 1 << (i % 8)
    return bytes(out)


CRC16 = _poly((16, 15, 2, 0), 16)
CRC32 = _poly((32, 26, 23, 22, 16, 12, 11, 10, 8, 7, 5, 4, 2, 1, 0), 32)
CCITT = b"\x01\x10\x21"


def _check():
    d = bytes(range(3, 40))
    for pat, f in ((CRC16, ref.crc16), (CRC32, zlib.crc32), (CCITT, lambda x: binascii.crc_hqx(bytes(x), 0xFFFF))):
        for at in (0, 5, len(d) - len(pat)):
            x = bytearray(d)
            for i, b in enumerate(pat):
                x[at + i] ^= b
            assert bytes(x) != d and f(bytes(x)) == f(d), (pat.hex(), at)


def twins(d, bits=True):
    """[(what, other)], every other string different from d and from each other."""
    d = bytes(d)
    seen, out = {d}, []

    def add(what, x):
        x = bytes(x)
        if x not in seen:
            seen.add(x)
            out.append((what, x))

    for at in range(len(d)):
        for name, pat in (("crc16", CRC16), ("crc32", CRC32), ("ccitt", CCITT)):
            if at + len(pat) <= len(d):
                x = bytearray(d)
                for i, b in enumerate(pat):
                    x[at + i] ^= b
                add("%s at %d" % (name, at), x)
        for gap in (1, 2, 4, 8):
            if at + gap < len(d):
                x = bytearray(d)
                x[at], x[at + gap] = x[at + gap], x[at]
                add("exchange %d and %d" % (at, at + gap), x)
                for m in (1, 0x10):
                    x = bytearray(d)
                    x[at] ^= m
                    x[at + gap] ^= m
                    add("xor %d at %d and %d" % (m, at, at + gap), x)
                if d[at] < 255 and d[at + gap] > 0:
                    x = bytearray(d)
                    x[at] += 1
                    x[at + gap] -= 1
                    add("sum at %d and %d" % (at, at + gap), x)
        if at + 2 < len(d) and d[at] < 255 and d[at + 1] > 1 and d[at + 2] < 255:
            x = bytearray(d)
            x[at] += 1
            x[at + 1] -= 2
            x[at + 2] += 1
            add("adler at %d" % at, x)
        if bits:
            for b in range(8):
                x = bytearray(d)
                x[at] ^= 1 << b
                add("bit %d of byte %d" % (b, at), x)
    for g in range(1, min(len(d), 9)):
        add("rotated by %d" % g, d[g:] + d[:g])
    add("reversed", d[::-1])
    return out


_check()
