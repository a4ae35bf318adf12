"""Generators of Intel HEX and S-record texts. They only produce texts; what a text means is
decided by spec/HexSem.tla."""

ELAS = [0, 0, 0, 1, 1, 2, 0x00FF, 0x0800, 0x0800, 0x7FFF, 0x8000, 0xA000, 0xFFFE, 0xFFFF]


def ihex_rec(typ, addr, data, cs=0, count=None):
    b = [len(data) if count is None else count, (addr >> 8) & 255, addr & 255, typ] + list(data)
    b.append((-sum(b) + cs) & 255)
    return ':' + ''.join('%02X' % x for x in b)


SREC_AL = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 6: 3, 7: 4, 8: 3, 9: 2}


def srec_rec(typ, addr, data, cs=0, count=None, al=None):
    al = al or SREC_AL[typ]
    a = [(addr >> (8 * (al - 1 - i))) & 255 for i in range(al)]
    b = [len(data) + al + 1 if count is None else count] + a + list(data)
    b.append((255 - (sum(b) & 255) + cs) & 255)
    return 'S%d' % typ + ''.join('%02X' % x for x in b)


def claim(used, addrs):
    if used is None:
        return True
    addrs = list(addrs)
    if len(set(addrs)) != len(addrs) or any(a in used for a in addrs):
        return False
    used.update(addrs)
    return True


def rdata(r, n):
    m = r.random()
    if m < .1:
        return [0] * n
    if m < .2:
        return [255] * n
    return [r.randrange(256) for _ in range(n)]


def rlen(r, big):
    m = r.random()
    if m < .04:
        return 0
    if m < .3:
        return r.choice([1, 2, 3, 4])
    if big and m < .34:
        return r.choice([33, 64, 127, 128, 200, 250, 254, 255])
    return r.choice([1, 4, 8, 16, 16, 32])


def ihex_valid(r, nrec, maxlen=None, ela_p=.25, used=None, eof=True, sparse=True, elas=None):
    """list of record texts without address collisions"""
    out, used = [], set() if used is None else used
    ela, nxt = 0, r.randrange(0x10000)
    if not elas:
        m = r.random()
        if m < .35:
            elas = ELAS + [r.randrange(0x10000) for _ in range(3)]
        else:
            # neighbouring banks and addresses that differ in one byte only
            b = r.choice([r.randrange(0x10000), r.choice(ELAS), 0x0800, 0x0100, 0x8000, 0x00FE])
            elas = [b, b + 1, b + 2, b ^ 0x100, b ^ 1, (b >> 8) | ((b & 255) << 8), b ^ 0x8000]
            if m < .7:
                elas = elas[:3]
            elif m < .8:
                elas.append(0)
            elas = [x & 0xFFFF for x in elas]
    style = r.random()
    if style < .25:
        ela_p = 0 if style < .05 else .6
    if r.random() < .5:
        ela = r.choice(elas)
        out.append(ihex_rec(4, 0, [ela >> 8, ela & 255]))
    seq = r.random() < .4
    midend = r.random() < .4         # several files in one: data behind an end of file record
    while len(out) < nrec:
        m = r.random()
        if m < ela_p:
            ela = r.choice(elas)
            out.append(ihex_rec(4, 0, [ela >> 8, ela & 255]))
            continue
        if m < ela_p + .02:
            t = r.choice([3, 5, 1] if midend else [3, 5])
            out.append(ihex_rec(t, 0, rdata(r, 4) if t != 1 else []))
            continue
        n = rlen(r, maxlen is None)
        if maxlen:
            n = min(n, maxlen)
        for _ in range(20):
            q = r.random()
            if seq and q < .8:
                a = nxt & 0xFFFF
            elif q < .12:
                a = 0x10000 - r.randrange(1, 40)
            elif q < .24:
                a = r.randrange(0, 40)
            else:
                a = r.randrange(0x10000)
            base = (ela << 16) + a
            # wrap around the end of the address space is defined (mod 2^32)
            if claim(used, [(base + i) % (1 << 32) for i in range(n)]):
                out.append(ihex_rec(0, a, rdata(r, n)))
                nxt = a + n
                break
            nxt = r.randrange(0x10000)
            n = min(n, 4)
    if r.random() < .1:
        out.append(ihex_rec(4, 0, [r.randrange(256), r.randrange(256)]))
    if eof:
        out.append(ihex_rec(1, 0, []))
    return out


def srec_valid(r, nrec, maxlen=None, used=None, term=True):
    out, used = [], set() if used is None else used
    if r.random() < .7:
        out.append(srec_rec(0, r.choice([0, 0, r.randrange(65536)]), rdata(r, r.choice([0, 3, 8, 20]))))
    kinds = r.choice([[1], [2], [3], [1, 2, 3], [1, 3], [2, 3], [3]])
    seq, nxt = r.random() < .4, r.randrange(1 << 16)
    midend = r.random() < .4
    while len(out) < nrec:
        if r.random() < .04:
            out.append(srec_rec(r.choice([5, 5, 6, 7, 8, 9, 0] if midend else [5, 5, 6]), r.randrange(1 << 16), []))
            continue
        t = r.choice(kinds)
        n = rlen(r, maxlen is None)
        n = min(n, maxlen or 250)
        n = min(n, 255 - 1 - SREC_AL[t])
        space = 1 << (8 * SREC_AL[t])
        for _ in range(20):
            q = r.random()
            if seq and q < .8:
                a = nxt % space
            elif q < .15:
                a = r.randrange(0, 64)
            elif q < .3:
                a = min(space - 1, r.choice([0x10000, 0x1000000, space]) - r.randrange(1, 40))
            elif q < .4:
                a = r.choice([0x8000, 0x800000, 0x80000000, 0xFFFF0000, 0x00FF00FF, 0x12345678]) % space
            else:
                a = r.randrange(space)
            if a + n > (1 << 32) and r.random() < .5:
                a = (1 << 32) - n
            if claim(used, [(a + i) % (1 << 32) for i in range(n)]):
                out.append(srec_rec(t, a, rdata(r, n)))
                nxt = a + n
                break
            nxt = r.randrange(space)
            n = min(n, 4)
    if term:
        out.append(srec_rec({1: 9, 2: 8, 3: 7}[max(kinds)], r.choice([0, r.randrange(1 << 16)]), []))
    return out


def long_file(r, fmt, nrec, damage=None):
    """very many small records; the addresses of each of a few banks are consecutive"""
    out = []
    banks = {b: r.choice([0, 0, 0xFFF0, r.randrange(0x8000)]) for b in r.sample([0, 1, 2, 0x0800, 0x7FFF, 0x8000, 0xFFFE, 0xA0A0], 4)}
    names = sorted(banks)
    b = 0 if 0 in banks else None
    while len(out) < nrec:
        nb = r.choice(names)
        if fmt == 'ihex' and (nb != b or r.random() < .2):
            out.append(ihex_rec(4, 0, [nb >> 8, nb & 255]))
        b = nb
        for _ in range(r.choice([1, 3, 40, 400, 9000])):
            k = r.choice([1, 1, 1, 2])
            if banks[b] + k > 0x10000 or len(out) >= nrec:
                break
            d = [r.randrange(256) for _ in range(k)]
            if fmt == 'ihex':
                out.append(ihex_rec(0, banks[b], d))
            else:
                out.append(srec_rec(3 if b > 255 else r.choice([2, 3]) if b else r.choice([1, 2, 3]), b * 65536 + banks[b], d))
            banks[b] += k
        else:
            continue
        if banks[b] + 2 > 0x10000 and len(out) < nrec:
            names.remove(b)
            x = r.choice([x for x in range(0x100, 0x7000) if x not in banks])
            banks[x] = 0
            names.append(x)
    if damage == 'sum':
        k = r.randrange(len(out) * 2 // 3, len(out))
        out[k] = out[k][:-1] + ('0' if out[k][-1] != '0' else '1')
    elif damage == 'cut':
        out[-1] = out[-1][:-2]
    elif damage == 'twice':
        at = [k for k, x in enumerate(out[:200]) if (x[7:9] == '00' if fmt == 'ihex' else True)]
        src = out[r.choice(at)]
        if fmt == 'ihex':
            ela = [x for x in out[:out.index(src)] if x[7:9] == '04'][-1:] or [ihex_rec(4, 0, [0, 0])]
            out += ela
        out.append(src)
    out.append(ihex_rec(1, 0, []) if fmt == 'ihex' else srec_rec(7, 0, []))
    return out


# addresses at which something might be special
ADDRS = [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xA0000000,
         0xFFFEFFFF, 0xFFFF0000, 0xFFFFFF00, 0xFFFFFFFE, 0xFFFFFFFF]


def at(fmt, a, d, t=None):
    """records that put the bytes d to address a"""
    if fmt == 'ihex':
        return [ihex_rec(4, 0, [a >> 24, a >> 16 & 255]), ihex_rec(0, a & 0xFFFF, d)]
    return [srec_rec(t or 3, a, d)]


def special(r, fmt, twice):
    """files with bytes at special addresses, defined twice or not"""
    for a in ADDRS:
        ts = [None] if fmt == 'ihex' else [t for t in (1, 2, 3) if a < 1 << (8 * SREC_AL[t])]
        for v in (0, 0xFF, r.randrange(1, 255)):
            for t in ts:
                one = at(fmt, a, [v], t)
                if not twice:
                    yield (one + at(fmt, a ^ 0x5A5A00, rdata(r, 3))) if r.random() < .5 else at(fmt, a ^ 0x5A5A00, rdata(r, 3)) + one
                    continue
                w = r.choice([v, r.randrange(256), 0, 0xFF])
                n = r.choice([1, 1, 2, 3])
                k = r.randrange(n)
                if a < k:
                    k = 0
                d = rdata(r, n)
                d[k] = w
                two = at(fmt, a - k, d, r.choice([x for x in ts if not x or a - k < 1 << (8 * SREC_AL[x])] or [3]))
                mid = at(fmt, a ^ 0x5A5A00, rdata(r, 3)) if r.random() < .6 else []
                yield r.choice([one + mid + two, two + mid + one, one + two + mid])


def overlay_bytes(fmt, recs):
    """(record index, byte index, address) of all data bytes of valid records"""
    res, ela = [], 0
    for k, t in enumerate(recs):
        if fmt == 'ihex':
            b = bytes.fromhex(t[1:])
            if b[3] == 4:
                ela = b[4] * 256 + b[5]
            elif b[3] == 0:
                for i in range(b[0]):
                    res.append((k, i, ((ela << 16) + b[1] * 256 + b[2] + i) % (1 << 32)))
        else:
            ty = int(t[1])
            if ty in (1, 2, 3):
                b = bytes.fromhex(t[2:])
                al = SREC_AL[ty]
                a = int.from_bytes(b[1:1 + al], 'big')
                for i in range(b[0] - al - 1):
                    res.append((k, i, (a + i) % (1 << 32)))
    return res


def collide(r, fmt, recs):
    """adds one data record that hits an address already defined; None if there is none"""
    ob = overlay_bytes(fmt, recs)
    if not ob:
        return None
    k, i, a = r.choice(ob) if r.random() < .8 else r.choice([ob[0], ob[-1]])
    n = r.choice([1, 1, 2, 4, 16])
    off = r.randrange(n)            # which byte of the new record hits
    recs = list(recs)
    last = len(recs) - 1 if len(recs) > 1 else len(recs)
    same = r.random() < .4
    val = None
    if fmt == 'ihex':
        start = (a - off) % (1 << 32)
        b = bytes.fromhex(recs[k][1:])
        val = b[4 + i]
        hi, lo = start >> 16, start & 0xFFFF
        if r.random() < .3 and hi > 0 and 0x10000 + lo - 0xFFFF <= 30:
            # reach the address by crossing a 64k border
            n2 = 0x10000 + lo - 0xFFFF + n
            hi, lo, off, n = hi - 1, 0xFFFF, off + (0x10000 + lo - 0xFFFF), n2
        d = rdata(r, n)
        if same:
            d[off] = val
        new = [ihex_rec(4, 0, [hi >> 8, hi & 255]), ihex_rec(0, lo, d)]
        m = r.random()
        if m < .3:
            # put it in front: the rest of the file has to restore its own offset
            e0 = bytes.fromhex(recs[0][1:])
            if e0[3] != 4:
                new.append(ihex_rec(4, 0, [0, 0]))
            return new + recs
        return recs[:last] + new + recs[last:]
    d = rdata(r, n)
    t = int(recs[k][1])
    b = bytes.fromhex(recs[k][2:])
    val = b[1 + SREC_AL[t] + i]
    if same:
        d[off] = val
    start = a - off
    if start < 0:
        start, off = a, 0
        d[0] = val if same else d[0]
    if start + n > 1 << 32:
        start, n, off = a, 1, 0
        d = [val if same else d[0]]
    kinds = [x for x in (1, 2, 3) if start < 1 << (8 * SREC_AL[x])]
    new = srec_rec(r.choice(kinds), start, d)
    p = r.choice([0, last, r.randrange(len(recs) + 1)])
    return recs[:p] + [new] + recs[p:]


def text(r, recs, eol=None, case=None, final=None, blanks=None, ctrlz=None):
    """lays the records out as a file; returns bytes"""
    eol = eol or r.choice(['\n', '\n', '\r\n', '\r\n', 'mix'])
    case = case or r.choice(['u', 'u', 'l', 'line', 'byte', 'digit'])
    final = r.random() < .7 if final is None else final
    blanks = r.random() < .15 if blanks is None else blanks
    out = []
    for t in recs:
        head, body = (t[:1], t[1:]) if t[:1] == ':' else (t[:2], t[2:])
        c = case
        if c == 'line':
            c = r.choice('ul')
        if c == 'u':
            body = body.upper()
        elif c == 'l':
            body = body.lower()
        elif c == 'digit':
            body = ''.join(x.upper() if r.random() < .5 else x.lower() for x in body)
        else:
            body = ''.join((x.upper() if r.random() < .5 else x.lower())
                           for x in (body[i:i + 2] for i in range(0, len(body), 2)))
        out.append(head + body)
        if blanks and r.random() < .2:
            out.append(r.choice(['', '', ' ', '\t']))
    if eol == 'mix':
        p = r.choice([.02, .3, .7, .98])
        ends = ['\r\n' if r.random() < p else '\n' for _ in out]
        s = ''.join(a + b for a, b in zip(out, ends))
        s = s if final else s.rstrip('\r\n')
        eol = r.choice(['\n', '\r\n'])
    else:
        s = eol.join(out) + (eol if final else '')
    if final and blanks and r.random() < .5:
        s += eol * r.randrange(3)
    if ctrlz:
        s += '\x1a'
    return s.encode('latin1')


def lines_of(b):
    """the pieces of a file between its LFs as character codes"""
    return [list(l) for l in b.split(b'\n')]


HEXD = '0123456789ABCDEF'


def corrupt(r, fmt, recs, kind=None, pos=None):
    """damages one record; returns (records, kind). Every kind makes the line ill-formed."""
    recs = list(recs)
    p = r.randrange(len(recs)) if pos is None else pos
    t = recs[p]
    h = 1 if fmt == 'ihex' else 2
    kinds = ['digit', 'digit', 'digit', 'nonhex', 'start', 'cut', 'cut2', 'extend', 'extend2', 'short',
             'swap', 'type', 'junk', 'sum', 'count', 'odd']
    if fmt == 'ihex':
        kinds += ['ela', 'type2']
    kind = kind or r.choice(kinds)
    if kind == 'digit':
        i = r.randrange(h, len(t))
        c = r.choice([x for x in HEXD if x != t[i].upper()])
        t = t[:i] + c + t[i + 1:]
    elif kind == 'nonhex':
        i = r.randrange(h, len(t))
        t = t[:i] + r.choice('GgZz:S.x-+?/') + t[i + 1:]
    elif kind == 'start':
        t = r.choice(['', 'X', ';', '0', 's' if fmt == 'srec' else '.']) + t[1:]
    elif kind == 'cut':
        t = t[:-1]
    elif kind == 'cut2':
        t = t[:-2 * r.randrange(1, max(2, (len(t) - h) // 2))]
    elif kind == 'extend':
        t = t + r.choice(HEXD)
    elif kind == 'extend2':
        t = t + ''.join(r.choice(HEXD) for _ in range(2 * r.randrange(1, 4)))
    elif kind == 'short':
        t = t[:r.randrange(1, min(len(t), 9 + h))]
    elif kind == 'swap':
        # exchange two neighbouring digits inside one byte (changes the sum unless equal)
        i = h + 2 * r.randrange((len(t) - h) // 2)
        if t[i] == t[i + 1]:
            return corrupt(r, fmt, recs, 'digit', p)
        t = t[:i] + t[i + 1] + t[i] + t[i + 2:]
    elif kind == 'type':
        if fmt == 'ihex':
            b = bytes.fromhex(t[1:])
            t = ihex_rec(r.choice([2, 2, 6, 7, 0x10, 0x40, 0xFF]), b[1] * 256 + b[2], b[4:-1])
        else:
            t = t[0] + r.choice('4ABF:') + t[2:]
    elif kind == 'type2':
        t = ihex_rec(2, 0, [r.randrange(256), 0])
    elif kind == 'ela':
        t = ihex_rec(4, 0, rdata(r, r.choice([0, 1, 3, 4])))
    elif kind == 'junk':
        t = r.choice(['hello', '# comment', '0', ':', 'S', 'S1', ':00', ':0', '//', 'S3', ';', ':::::::::::',
                      'SSSSSSSSSSSSS', '0123456789ABCDEF'])
    elif kind == 'sum':
        c = (int(t[-2:], 16) + r.randrange(1, 256)) & 255
        t = t[:-2] + '%02X' % c
    elif kind == 'count':
        # wrong byte count with a matching checksum
        b = bytearray(bytes.fromhex(t[h:]))
        d = r.randrange(1, 256)
        b[0] = (b[0] + d) & 255
        b[-1] = (b[-1] - d) & 255
        t = t[:h] + b.hex().upper()
    elif kind == 'odd':
        i = r.randrange(h, len(t))
        t = t[:i] + t[i + 1:]
    if r.random() < .2 and kind not in ('digit',):
        recs.insert(p, t) if kind == 'junk' else recs.__setitem__(p, t)
    else:
        recs[p] = t
    return recs, kind


def odd_lines(r, fmt):
    """ill-formed lines that are close to something acceptable, one by one"""
    printable = [chr(c) for c in range(33, 127)]
    good = ihex_rec(0, 0x7000, [1, 2]) if fmt == 'ihex' else srec_rec(3, 0x7000, [1, 2])
    for c in printable:
        if c != good[0]:
            yield 'first character', c + good[1:]
        yield 'single character', c
        if c != good[0]:
            yield 'note', c + r.choice([' end', 'comment', ' file made by x', c, '0', ' 0011'])
        yield 'trailing note', good + c + r.choice(['', '', ' end', 'comment', c, '00', good])
        yield 'leading mark', c + good
    for c in [' ', '\t', '  ']:
        yield 'trailing blank', good + c
        yield 'leading blank', c + good
        yield 'inner blank', good[:9] + c + good[9:]
    # records made longer by one digit, with a check sum of two equal digits
    for d in range(16):
        for base in ([ihex_rec(0, 0x7000, [x]) for x in range(256)] if fmt == 'ihex' else [srec_rec(t, 0x7000, [x]) for t in (1, 2, 3) for x in range(256)]):
            if base[-2:] == '%X%X' % (d, d):
                yield 'longer', base + '%X' % d
                yield 'shorter', base[:-1]
                yield 'longer', base + '%X%X' % (d, d)
                if fmt == 'ihex':
                    break
    if fmt == 'ihex':
        yield 'longer', ':00000001FFF'
        yield 'longer', ':00000001FFFF'
        yield 'shorter', ':00000001F'
        for t in [2] + list(range(6, 256)):
            yield 'type', ihex_rec(t, r.choice([0, 0x7000]), r.choice([[], [0, 0], [1, 2], [1, 2, 3, 4], [0]]))
        for n in (0, 1, 3, 4, 5):
            yield 'address record', ihex_rec(4, 0, [8] * n)
            yield 'address record', ihex_rec(4, 0, [0] * n)
    else:
        for c in printable:
            if c not in '01235678 9':
                yield 'type', 'S' + c + good[2:]
        for t, alen in ((0, 2), (1, 2), (2, 3), (3, 4), (5, 2), (6, 3), (7, 4), (8, 3), (9, 2)):
            for n in range(0, alen + 1):      # no room for the address
                b = [n] + [0x10] * max(0, n - 1)
                yield 'too short for the address', 'S%d' % t + ''.join('%02X' % x for x in b) + ('%02X' % ((255 - sum(b)) & 255) if n else '')
