"""Independent reader/writer of the 1C v8 container format (32 and 64 bit), written from the format description."""
import struct
import zlib

EPOCH = 621355968000000000 // 1  # 100ns... only used as a plausible timestamp


class FormatError(Exception):
    pass


class Fmt32:
    name = '32'
    end = 0x7fffffff
    hdr = struct.Struct('<iiii')
    bh = 31
    w = 8
    toc_entry = struct.Struct('<iii')
    toc_block = 0x200


class Fmt64:
    name = '64'
    end = 0xffffffffffffffff
    hdr = struct.Struct('<Qiii')
    bh = 55
    w = 16
    toc_entry = struct.Struct('<QQQ')
    toc_block = 0x10000


def read_block_header(buf, pos, fmt):
    raw = buf[pos:pos + fmt.bh]
    if len(raw) != fmt.bh:
        raise FormatError(f'block header truncated at {pos}')
    w = fmt.w
    if raw[0:2] != b'\r\n' or raw[-2:] != b'\r\n' or raw[2 + w:3 + w] != b' ' or raw[3 + 2 * w:4 + 2 * w] != b' ' \
            or raw[4 + 3 * w:5 + 3 * w] != b' ':
        raise FormatError(f'bad block header at {pos}: {raw!r}')
    try:
        return (int(raw[2:2 + w], 16), int(raw[3 + w:3 + 2 * w], 16), int(raw[4 + 2 * w:4 + 3 * w], 16))
    except ValueError:
        raise FormatError(f'bad hex in block header at {pos}: {raw!r}')


def read_doc(buf, base, off, fmt, extents=None):
    """-> (data, end_of_last_block) ; every offset inside a container is relative to the container start."""
    size, bsize, nxt = read_block_header(buf, base + off, fmt)
    out = bytearray()
    seen = set()
    left = size
    end = 0
    while True:
        if off in seen:
            raise FormatError('cyclic block chain')
        seen.add(off)
        p = base + off + fmt.bh
        if extents is not None:
            extents.append((base + off, p + bsize))
        end = max(end, p + bsize)
        take = min(left, bsize)
        chunk = buf[p:p + take]
        if len(chunk) != take:
            raise FormatError('block data truncated')
        if len(buf) < p + bsize:
            raise FormatError('block body truncated')
        out += chunk
        left -= take
        if nxt == fmt.end:
            break
        off = nxt
        _, bsize, nxt = read_block_header(buf, base + off, fmt)
    if left:
        raise FormatError(f'document shorter than declared ({left} bytes missing)')
    return bytes(out), end


def read_container(buf, base=0, strict=True):
    """-> dict(fmt, files: {name: data}, order, end) ; raises FormatError."""
    if buf[base:base + 4] == b'\xff\xff\xff\x7f':
        fmt = Fmt32
    elif buf[base:base + 8] == b'\xff' * 8:
        fmt = Fmt64
    else:
        raise FormatError(f'no container signature at {base}')
    first_free, dbs, count, _ = fmt.hdr.unpack(buf[base:base + fmt.hdr.size])
    ext = [(base, base + fmt.hdr.size)]
    toc, end = read_doc(buf, base, fmt.hdr.size, fmt, ext)
    if len(toc) % fmt.toc_entry.size:
        raise FormatError(f'TOC size {len(toc)} is not a multiple of {fmt.toc_entry.size}')
    files, order = {}, []
    for a, d, e in fmt.toc_entry.iter_unpack(toc):
        if e != fmt.end:
            raise FormatError('bad TOC entry end marker')
        attr, e1 = read_doc(buf, base, a, fmt, ext)
        data, e2 = read_doc(buf, base, d, fmt, ext)
        end = max(end, e1, e2)
        raw = attr[20:]
        raw = raw[:len(raw) // 2 * 2]
        name = raw.decode('utf-16-le', 'replace').partition('\0')[0]
        if name in files:
            raise FormatError(f'duplicate name {name}')
        files[name] = data
        order.append(name)
    ext.sort()
    if strict:
        for (s1, e1), (s2, e2) in zip(ext, ext[1:]):
            if s2 < e1:
                raise FormatError(f'overlapping extents {s1:#x}-{e1:#x} / {s2:#x}-{e2:#x}')
    return dict(fmt=fmt, files=files, order=order, end=end, base=base, count=count, dbs=dbs, extents=ext)


def read_file(buf, strict=True):
    """All containers of a file, back to back."""
    res, base = [], 0
    while base < len(buf):
        c = read_container(buf, base, strict)
        res.append(c)
        base = c['end']
    return res


def inflate(data):
    d = zlib.decompressobj(-15)
    out = d.decompress(data) + d.flush()
    if not d.eof:
        raise FormatError('deflate stream is not complete')
    if d.unused_data:
        raise FormatError('garbage after deflate stream')
    return out


def deflate(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


# ---------------------------------------------------------------------------------------------- writer

class Layout:
    """How a hostile-but-legal writer may lay documents out."""

    def __init__(self, rng=None, split=0.0, name_garbage=False, shuffle=False, free_space=0.0, pad=True,
                 header_hex_upper=None, toc_exact=False):
        self.rng = rng
        self.split = split
        self.name_garbage = name_garbage
        self.shuffle = shuffle
        self.free_space = free_space
        self.pad = pad
        self.toc_exact = toc_exact


def _bh(fmt, size, bsize, nxt):
    w = fmt.w
    s = f'\r\n{size:0{w}x} {bsize:0{w}x} {nxt:0{w}x} \r\n'
    if fmt is Fmt64:
        s = s.upper()
    return s.encode()


def write_container(files, fmt=Fmt32, layout=None, block=0x200):
    """files: list of (name, data). Returns bytes. Multi-block TOC / split documents as asked."""
    lay = layout or Layout()
    rng = lay.rng
    n = len(files)
    toc_len = n * fmt.toc_entry.size
    chunks = []  # list of [offset, total_doc_size or 0, block_size, data, next]
    pos = fmt.hdr.size

    def place(data, doc_size, min_block, maybe_split=True):
        """returns list of block records for this document; offsets are assigned later"""
        parts = []
        if maybe_split and lay.split and rng.random() < lay.split and len(data) > 1:
            k = rng.randint(2, min(4, len(data)))
            cuts = sorted(rng.sample(range(1, len(data)), k - 1))
            prev = 0
            for c in cuts + [len(data)]:
                parts.append(data[prev:c])
                prev = c
        else:
            parts.append(data)
        recs = []
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            bs = max(len(p), min_block if (last or True) and len(parts) == 1 else 0)
            if len(parts) > 1:
                bs = len(p) if not last else len(p) + (rng.randint(0, 16) if lay.pad else 0)
            recs.append(dict(doc=doc_size if i == 0 else 0, bs=bs, data=p))
        return recs

    # TOC is the first document
    toc_blocks = []
    left = toc_len
    first = True
    while first or left > 0:
        take = min(left, fmt.toc_block)
        toc_blocks.append(dict(doc=toc_len if first else 0, bs=fmt.toc_block, size=take))
        left -= take
        first = False
    docs = []
    for name, data in files:
        raw = name.encode('utf-16-le') + b'\0\0\0\0'
        if lay.name_garbage and rng.random() < 0.7:
            raw = name.encode('utf-16-le') + b'\0\0' + ''.join(
                chr(rng.randint(0x20, 0x2fff)) for _ in range(rng.randint(0, 5))).encode('utf-16-le') + b'\0\0'
        attr = struct.pack('<QQi', 637000000000000, 637000000000001, 0) + raw
        docs.append((place(attr, len(attr), 0, False), place(data, len(data), block)))
    order = []
    order.append(toc_blocks[0])
    rest = list(toc_blocks[1:])
    for a, d in docs:
        rest.extend(a)
        rest.extend(d)
    if lay.shuffle:
        rng.shuffle(rest)
    order += rest
    off = fmt.hdr.size
    for r in order:
        r['off'] = off
        off += fmt.bh + r['bs']
        if lay.free_space and r is not order[-1] and rng.random() < lay.free_space:
            r['gap'] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 40)))
            off += len(r['gap'])
    # chain
    for group in [toc_blocks] + [x for a, d in docs for x in (a, d)]:
        for x, y in zip(group, group[1:]):
            x['next'] = y['off']
        group[-1]['next'] = fmt.end
    toc = b''.join(fmt.toc_entry.pack(a[0]['off'], d[0]['off'], fmt.end) for a, d in docs)
    p = 0
    for r in toc_blocks:
        r['data'] = toc[p:p + r['size']]
        p += r['size']
    sig = fmt.end
    out = bytearray(fmt.hdr.pack(sig, block, n, 0))
    for r in order:
        assert len(out) == r['off']
        out += _bh(fmt, r['doc'], r['bs'], r['next']) + r['data'] + b'\0' * (r['bs'] - len(r['data']))
        out += r.get('gap', b'')
    return bytes(out)
