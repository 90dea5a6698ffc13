''' writes OLE2 compound files, for the cross-checks '''
import struct

FREE, END, FATSECT = 0xffffffff, 0xfffffffe, 0xfffffffd


def key(name):
    return (len(name.encode('utf-16le')), name.upper())


def write(tree, rng=None):
    ''' tree: {name: bytes or tree}; gives the bytes of the file '''
    entries = []        # [name, type, left, right, child, start, size]
    mini = bytearray()
    streams = []        # (entry, data)

    def add(name, item):
        e = [name, 2, FREE, FREE, FREE, END, 0]
        me = len(entries)
        entries.append(e)
        if isinstance(item, dict):
            e[1] = 1
            e[4] = children(item)
        else:
            streams.append((e, item))
        return me

    def children(d):
        ids = [add(n, d[n]) for n in sorted(d, key=key)]

        def build(xs):
            if not xs:
                return FREE
            m = len(xs) // 2
            if rng is not None:
                m = rng.randrange(len(xs))
            entries[xs[m]][2] = build(xs[:m])
            entries[xs[m]][3] = build(xs[m + 1:])
            return xs[m]
        return build(ids)
    entries.append(['Root Entry', 5, FREE, FREE, FREE, END, 0])
    entries[0][4] = children(tree)
    sectors = []
    fat = []
    minifat = []

    def put(data):
        ''' a chain of sectors '''
        n = (len(data) + 511) // 512
        if not n:
            return END
        first = len(sectors)
        for i in range(n):
            sectors.append(data[i * 512:i * 512 + 512].ljust(512, b'\0'))
            fat.append(first + i + 1 if i + 1 < n else END)
        return first
    for e, data in streams:
        e[6] = len(data)
        if not data:
            continue
        if len(data) < 4096:
            n = (len(data) + 63) // 64
            e[5] = len(minifat)
            for i in range(n):
                minifat.append(len(minifat) + 1 if i + 1 < n else END)
            mini += data.ljust(n * 64, b'\0')
        else:
            e[5] = put(data)
    entries[0][5] = put(bytes(mini))
    entries[0][6] = len(mini)
    raw = bytearray()
    for name, type_, left, right, child, start, size in entries:
        u = name.encode('utf-16le')
        raw += u.ljust(64, b'\0')
        raw += struct.pack('<HBBIII', len(u) + 2, type_, 1, left, right,
                           child)
        raw += bytes(16 + 4 + 16)
        raw += struct.pack('<IQ', start, size)
    while len(raw) % 512:
        raw += bytes(64) + struct.pack('<HBBIII', 0, 0, 1, FREE, FREE, FREE) \
            + bytes(36) + struct.pack('<IQ', 0, 0)
    dirstart = put(bytes(raw))
    minifatstart = put(struct.pack('<%dI' % len(minifat), *minifat).ljust(
        (len(minifat) * 4 + 511) // 512 * 512, b'\xff'))
    nminifat = (len(minifat) * 4 + 511) // 512
    nfat = 1
    while (len(sectors) + nfat) > nfat * 128:
        nfat += 1
    fatids = list(range(len(sectors), len(sectors) + nfat))
    fat += [FATSECT] * nfat
    fat += [FREE] * (nfat * 128 - len(fat))
    table = struct.pack('<%dI' % len(fat), *fat)
    if nfat > 109:
        raise ValueError('too big')
    header = struct.pack('<8s16sHHHHH6xIIIIIIIII',
                         b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1', bytes(16),
                         0x3e, 3, 0xfffe, 9, 6, 0, nfat, dirstart, 0, 4096,
                         minifatstart, nminifat, END, 0)
    header += struct.pack('<109I', *(fatids + [FREE] * (109 - nfat)))
    return header + b''.join(sectors) + table
