"""Random content generators shared by the workloads."""
import string

CYR = 'АБВГДЕЖЗИКЛМНОПРСТУФХЦЧШЩЭЮЯабвгдежзиклмнопрстуфхцчшщыэюя'
IDCH = CYR + string.ascii_letters + string.digits + '_'


def uuid(rng):
    h = ''.join(rng.choice('0123456789abcdef') for _ in range(32))
    return f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'


def ident(rng, lo=1, hi=20):
    return ('_' if hi > 1 and rng.random() < 0.06 else rng.choice(CYR + string.ascii_letters)) + ''.join(rng.choice(IDCH) for _ in range(rng.randint(lo, hi) - 1))


def blob(rng, size):
    k = rng.random()
    if k < 0.35:
        return rng.randbytes(size)
    if k < 0.5:
        return bytes(size)
    if k < 0.53:
        return (b'\0\0\x01\0' + rng.randbytes(size))[:size]
    if k < 0.6:
        return (b'\r\n%08x %08x %08x \r\n' % (size & 0xffffffff, 512, 0x7fffffff) * (size // 31 + 1))[:size]
    if k < 0.7:
        return (b'\xff\xff\xff\xff' * (size // 4 + 1))[:size]
    if k < 0.85:
        return ('Процедура Тест()\r\nКонецПроцедуры\r\n'.encode() * (size // 20 + 1))[:size]
    return bytes(rng.choice(b'\x00\xff\x7f\r\n{},"') for _ in range(min(size, 4096))).ljust(size, b'\n')


SIZES = [0, 1, 2, 30, 31, 32, 61, 62, 63, 255, 256, 479, 480, 481, 482, 510, 511, 512, 513, 514, 543, 1023, 1024,
         1025, 1535, 1536, 1537, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385]


def size(rng, big=False):
    k = rng.random()
    if k < 0.55:
        return rng.choice(SIZES)
    if k < 0.9 or not big:
        return rng.randint(0, 3000)
    return rng.choice([65535, 65536, 65537, 131072, 200001, 1 << 20])


def fname(rng):
    k = rng.random()
    if k < 0.5:
        return uuid(rng)
    if k < 0.8:
        return uuid(rng) + '.' + rng.choice('0123456789abcdef')
    if k < 0.9:
        return ident(rng, 1, 40)
    if k < 0.97:
        return ident(rng, 1, 12) + ' ' + ident(rng, 1, 12) + '.' + rng.choice(['txt', 'тхт', 'b-in', '007'])
    if k < 0.98:
        return rng.choice(['', ' ', '  ', '.']) + ident(rng, 1, 9) + rng.choice([' ', '  ', '.', '\t', ' .a', '..'])
    if k < 0.99:
        return ''.join(rng.choice('abcdefXYZ0123456789-_') for _ in range(rng.randint(100, 240)))
    return ident(rng, 60, 100)


def fnames(rng, n):
    out = {}
    while len(out) < n:
        out.setdefault(fname(rng))
    return list(out)


STRCH = ('"' * 6 + '{},;:#&/\\\'|' + ' \t' + '\n\n' + CYR[:10] + 'abc019' + 'Ωé€😀ёЁ№«»—\u2028\u0085\x0b')


def text(rng, lo=0, hi=40, nl=True):
    n = rng.randint(lo, hi)
    s = ''.join(rng.choice(STRCH) for _ in range(n))
    return s if nl else s.replace('\n', ' ')
