"""C11 conversions."""
import common as c
from common import *


def ints(t):
    U = c.util
    ns = list(range(0, 300)) + [2**k + d for k in range(8, 260, 4) for d in (-1, 0, 1)] + [2**k + d for k in (512, 1024, 2048, 4096) for d in (-1, 0, 1)]
    ns += [t.rng.getrandbits(t.rng.randrange(1, 3000)) for _ in range(200)] + [255 << k for k in range(0, 200, 8)] + [1 << (8 * k) for k in range(40)]
    ns += [int(x) for x in t.extra if isinstance(x, int) and x >= 0]
    for n in ns:
        b = t.call('BigIntToBytes', U.BigIntToBytes, n)
        t.eq(b, be(n), 'minimal big-endian bytes', n=n)
        t.eq(t.call('BytesToLong', U.BytesToLong, b), n, 'back', n=n)
        t.eq(U.BytesToLong('\0' * (n % 5) + b), n, 'leading zeros do not matter', n=n)
        t.eq(t.call('IntToBytes', U.IntToBytes, n), i4(n), '4-byte form', n=n)
    for n in list(range(-300, 0)) + [-2**31, -2**31 - 1, -2**32, -2**40 - 5]:
        t.eq(t.call('IntToBytes', U.IntToBytes, n), i4(n), '4-byte form of a negative number', n=n)
    for m in list(t.interesting()) + list(t.msgs(range(0, 60))) + [x for x in t.extra if isinstance(x, str)]:
        t.eq(t.call('BytesToLong', U.BytesToLong, m), num(m), 'big-endian value', m=m)
    t.eq(U.BytesToLong(''), 0, 'empty is 0')


def bits(t):
    U = c.util
    for m in [chr(i) for i in range(256)] + list(t.msgs(range(0, 60))) + list(t.interesting()):
        want = ''.join('{:08b}'.format(ord(x)) for x in m)
        b = t.call('BytesToBin', U.BytesToBin, m)
        t.eq(b, want, '8 bits each', m=m)
        t.eq(t.call('BinToBytes', U.BinToBytes, b), m, 'bits round trip', m=m)
    for n in range(0, 40):
        for _ in range(8):
            s = ''.join(t.rng.choice('01') for _ in range(n))
            k = -(-n // 8)
            t.eq(t.call('BinToBytes', U.BinToBytes, s), be(int(s or '0', 2), k), 'any number of bits, padded on the left', bits=s)


def trimpad(t):
    U = c.util
    for z in list(range(0, 20)) + [100]:
        for m in ['', '\1', '\1\0', '\xff', t.bs(5), 'a\0b\0', '0', ' ', '\n']:
            s = '\0' * z + m
            t.eq(t.call('TrimBytes', U.TrimBytes, s), s.lstrip('\0') or '\0', 'trimmed', s=s)
            t.eq(t.call('PadBytes', U.PadBytes, m, z), s, 'padded', m=m, z=z)
    for m in list(t.interesting()):
        t.eq(U.TrimBytes(m), m.lstrip('\0') or '\0', 'trimmed', m=m)


def xors(t):
    U = c.util
    for _ in range(300):
        a, b = t.bs(t.rng.randrange(0, 30)), t.bs(t.rng.randrange(0, 30))
        n = max(len(a), len(b))
        want = be(num(a) ^ num(b), n)
        t.eq(t.call('Xor', U.Xor, a, b), want, 'right-aligned xor', a=a, b=b)
    for n in (0, 1, 20, 64, 300):
        a, b = t.bs(n), t.bs(n)
        t.eq(U.Xor(U.Xor(a, b), b), a, 'involution', a=a, b=b)
        t.eq(U.Xor(a, '\0' * n), a, 'neutral', a=a)
    for x in range(0, 256, 5):
        for y in range(0, 256, 3):
            t.eq(U.Xor(chr(x), chr(y)), chr(x ^ y), 'byte xor', x=x, y=y)


def packing(t):
    U = c.util
    E = Exception
    for m in [t.bs(n) for n in list(range(0, 30)) + [255, 256, 257, 65535, 65536, 70000]] + list(t.interesting()) + ['\0\0\0\1', '\xff\xff\xff\xff']:
        p = t.call('PackByteArray', U.PackByteArray, m)
        t.eq(p, pack(m), 'length prefixed', m=m)
        for off in (0, 1, 4, 9):
            pre, post = t.bs(off), t.bs(t.rng.randrange(6))
            got = t.call('UnpackByteArray', U.UnpackByteArray, pre + p + post, off)
            t.eq(tuple(got), (m, off + 4 + len(m)), 'unpacked with its end offset', m=m, off=off)
    t.eq(U.PackByteArray(None), '', 'None packs to nothing')
    for k in (0, 1, 2, 3, 7, 20):
        for _ in range(12):
            arrs = [t.bs(t.rng.choice([0, 0, 1, 4, 5, 16, 32, 300])) for _ in range(k)]
            p = t.call('PackMultiple', U.PackMultipleByteArrays, *arrs)
            t.eq(p, i4(k) + ''.join(map(pack, arrs)), 'count and arrays', arrs=arrs)
            t.eq(list(t.call('UnpackMultiple', U.UnpackMultipleByteArrays, p)), arrs, 'unpacked', arrs=arrs)
            # inconsistent data is rejected
            for i in range(4, len(p)):
                cut = p[:i]
                ok = False
                # a cut at an array border is consistent
                pos = 4
                while pos < len(cut):
                    if pos + 4 > len(cut):
                        break
                    pos += 4 + num(cut[pos:pos + 4])
                if pos == len(cut):
                    continue
                if i > 80 and i % 37:
                    continue
                t.raises(E, 'cut in the middle of an array', U.UnpackMultipleByteArrays, cut)
            for junk in ('x', '\0\0', '\0\0\0'):
                t.raises(E, 'trailing junk', U.UnpackMultipleByteArrays, p + junk)
            t.raises(E, 'array longer than the data', U.UnpackMultipleByteArrays, p + i4(5) + 'abcd')
            t.raises(E, 'array longer than the data', U.UnpackMultipleByteArrays, p + i4(2**31 - 1) + 'abcd')
            for neg in (2**32 - 1, 2**32 - 4, 2**32 - 8, 2**31, 2**32 - 2**20, 2**32 - 5, 2**32 - 12):
                t.raises(E, 'negative length', U.UnpackMultipleByteArrays, p + i4(neg), neg=neg)
                t.raises(E, 'negative length', U.UnpackMultipleByteArrays, p + i4(neg) + 'abcdefgh' * 3, neg=neg)


GROUPS = [ints, bits, trimpad, xors, packing]
