"""Case generators of the bounded native cross-check, one per property.  Every generator is an endless deterministic stream."""
import random
from oracle import *
KINDS = ('buffer', 'buffers', 'bufferla', 'buffersla')
def h(b): return hx(b)
def rb(r, n): return bytes(r.getrandbits(8) for _ in range(n))
def cut(r, b, maxn=4):
    """chunks of b, empty ones included"""
    out = []; b = bytes(b); mode = r.random()
    if mode < .25: return [b]
    if mode < .4: out = [b[i:i + 1] for i in range(len(b))] or [b'']
    else:
        k = r.randint(1, maxn); ps = sorted(r.randint(0, len(b)) for _ in range(k))
        for x, y in zip([0] + ps, ps + [len(b)]): out.append(b[x:y])
    if r.random() < .2: out.insert(r.randint(0, len(out)), b'')
    return out
def chunks(r, b, maxn=4): return ','.join(h(c) for c in cut(r, b, maxn))
def feeds(r, b, move=.1):
    ws = []
    for c in cut(r, b, 6):
        if ws and r.random() < move: ws.append('move')
        ws.append(h(c))
    return ' '.join(ws)
EDGE = [0, 1, 2, 5, 19, 20, 21, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, 16383, 16384, 16385, (1 << 24) - 1, 1 << 24, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 48), MAXV - 1, MAXV]
OVER = [MAXV + 1, MAXV + 2, 1 << 63, (1 << 63) + 5, M64 - 1, M64]
def num(r, over=.05):
    x = r.random()
    if x < over: return r.choice(OVER)
    if x < .5: return r.choice(EDGE)
    return r.getrandbits(r.randint(1, 62))
def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 2)):
        k = r.randint(0, 4)
        if k == 0 and b: b[r.randrange(len(b))] = r.getrandbits(8)
        elif k == 1 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 2 and b: del b[r.randrange(len(b))]
        elif k == 3: b.insert(r.randint(0, len(b)), r.getrandbits(8))
        elif b: del b[r.randint(0, len(b) - 1):]
    return bytes(b)
def tail(r, b): return b + (rb(r, r.randint(1, 5)) if r.random() < .6 else b'')
def venclong(v, n): return (v | ({1: 0, 2: 1, 4: 2, 8: 3}[n] << (8 * n - 2))).to_bytes(n, 'big')
def anyv(r, v):
    """an encoding of v in a random permitted length"""
    return venclong(v, r.choice([n for n in (1, 2, 4, 8) if v < 1 << (8 * n - 2)])) if r.random() < .3 else venc(v)
def g_C01(r):
    for v in EDGE + OVER + [1 << i for i in range(64)] + [(1 << i) - 1 for i in range(65)]: yield 've %d' % min(v, M64)
    while 1: yield 've %d' % num(r, .2)
def g_C02(r):
    for b0 in range(256):
        for k in (0, 1, 2, 3, 4, 7, 8, 9):
            yield 'vd %s %s' % (KINDS[(b0 + k) % 4], chunks(r, (bytes([b0]) + rb(r, 9))[:k]))
    while 1:
        b = tail(r, anyv(r, num(r, 0))) if r.random() < .5 else rb(r, r.randint(0, 10))
        if r.random() < .2: b = b[:r.randint(0, len(b))]
        yield 'vd %s %s' % (r.choice(KINDS + ('bufferp',)), chunks(r, b))
def pv(r):
    p = r.randint(1, 7); x = r.random()
    v = (1 << p) - 1 + r.choice([-1, 0, 1, 126, 127, 128, 129, 16383, 16384]) if x < .4 else M64 - r.randint(0, 200) if x < .5 else r.getrandbits(r.randint(1, 64))
    return max(0, min(v, M64)), p
def g_C03(r):
    while 1:
        v, p = pv(r)
        if r.random() < .4: yield 'pe %d %d %d' % (v, p, r.getrandbits(8) & ~((1 << p) - 1)); continue
        b = penc(v, p, r.getrandbits(8) & ~((1 << p) - 1)); x = r.random()
        if x < .15: b = b[:r.randint(0, len(b))]
        elif x < .3: b = bytes([b[0] | (1 << p) - 1]) + bytes(r.choice([0x80, 0xff, 0x81, r.getrandbits(8) | 128]) for _ in range(r.randint(0, 12))) + bytes([r.choice([0, 1, 2, 3, 127])])
        elif x < .4: b = bytes([b[0] | (1 << p) - 1]) + b'\xff' * 8 + bytes([r.getrandbits(8)]) + bytes([r.getrandbits(2)])
        b = tail(r, b)
        yield 'pd %s %d %s' % (r.choice(KINDS + ('bufferp',)), p, chunks(r, b))
COMMON = b' /.-:;=,abcdefghijklmnopqrstuvwxyz0123456789'
LONGC = bytes(i for i in range(256) if CODES[i][1] >= 20)
def text(r, n=None):
    n = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 15, 16, 17, 30, 31, 60, 126, 127, 128, 140, 300]) if n is None else n
    x = r.random()
    if x < .4: return bytes(r.choice(COMMON) for _ in range(n))
    if x < .55: return rb(r, n)
    if x < .7: return bytes(r.choice(LONGC) for _ in range(n))
    if x < .85: return bytes(r.choice(COMMON + LONGC[:6]) for _ in range(n))
    return bytes([r.getrandbits(8)]) * n
def g_C04(r):
    yield 'he -'
    for i in range(256):
        yield 'he ' + h(bytes([i]))
        yield 'he ' + h(bytes([i, i ^ 5, i]))
    for i in range(256):
        for j in range(0, 256, 3): yield 'he ' + h(bytes([i, (i + j) % 256]))
    while 1:
        s = text(r)
        yield 'he ' + h(s)
        e = henc(s); yield 'hd %s %d %s' % (r.choice(KINDS), len(e), chunks(r, tail(r, e)))
def bitsof(s, extra=''):
    b = ''.join(format(CODES[c][0], '0%db' % CODES[c][1]) for c in s) + extra
    return b
def pack(b):
    b += '1' * (-len(b) % 8) if len(b) % 8 else ''
    return int(b, 2).to_bytes(len(b) // 8, 'big') if b else b''
def g_C05(r):
    for k in KINDS: yield 'hd %s 0 -' % k; yield 'hd %s 1 -' % k
    for i in range(256): yield 'hd %s 1 %s' % (KINDS[i % 4], h(bytes([i])))
    for i in range(256):
        yield 'hd %s %d %s' % (KINDS[i % 4], len(henc(bytes([i]))), h(henc(bytes([i])) + b'\0'))
        for e in ('0', '1' * 8, '11', '1' * 7 + '0', '1' * 30):
            b = pack(bitsof(bytes([i]), e)); yield 'hd %s %d %s' % (KINDS[i % 4], len(b), h(b))
    while 1:
        x = r.random(); s = text(r, r.choice([0, 1, 2, 3, 4, 8, 20]))
        if x < .3: b = henc(s)
        elif x < .5: b = mutate(r, henc(s))
        elif x < .7: b = rb(r, r.randint(0, 12))
        elif x < .85: b = pack(bitsof(s, '1' * r.randint(0, 32) + r.choice(['', '0', '00'])))
        else: b = pack(bitsof(s) + bitsof([256]) + bitsof(s))
        n = len(b)
        if r.random() < .15: n += r.choice([1, 2, 7, 1 << 32, (1 << 64) - 1 - n])
        elif r.random() < .3: b = tail(r, b)
        yield 'hd %s %d %s' % (r.choice(KINDS + ('bufferp',)), n, chunks(r, b))
def g_C06(r):
    while 1:
        s = text(r); p = r.randint(1, 7); first = r.getrandbits(8) & ~((2 << p) - 1)
        yield 'le %s %d %d' % (h(s), p, first)
        x = r.random(); b = lenc(s, p, first)
        if x < .25: b = (penc(hsize(s), p, first | 1 << p) + henc(s)) if r.random() < .5 else penc(len(s), p, first) + s
        elif x < .4: b = mutate(r, b)
        elif x < .5: b = penc(r.choice([len(s) + 1, len(s) + 300, M64, 1 << 32, 1 << 62]), p, first | (r.getrandbits(1) << p)) + s
        elif x < .6: b = b[:r.randint(0, len(b))]
        yield 'ld %s %d %s' % (r.choice(KINDS + ('bufferp',)), p, chunks(r, tail(r, b)))
NM = sorted(NAMES); PR = sorted(PAIRS)
def hname(r, upper=.08):
    x = r.random()
    if x < .35: n = r.choice(NM)
    elif x < .55: n = mutate(r, r.choice(NM))
    elif x < .65: n = r.choice(NM)[:-1] if r.random() < .5 else r.choice(NM) + b'x'
    else: n = bytes(r.choice(b'abcxyz-:') for _ in range(r.choice([1, 1, 2, 5, 8, 9, 20, 40])))
    if not lower(n) and r.random() > upper: n = n.lower()
    elif lower(n) and r.random() < upper and n: i = r.randrange(len(n)); n = n[:i] + bytes([r.randint(65, 90)]) + n[i + 1:]
    return n
def hfield(r, upper=.05):
    x = r.random()
    if x < .3: return r.choice(PR)
    if x < .4: n, v = r.choice(PR); return n, mutate(r, v)
    if x < .5: return r.choice(NM), r.choice(PR)[1]
    if x < .55: return r.choice(NM), b''
    return hname(r, upper), text(r)
def fl(x): return h(x[0]) + ':' + h(x[1])
def idx(i, form):
    return penc(i, 6, 0xc0) if form == 0 else penc(i, 4, 0x50)
def g_C07(r):
    for k in KINDS[:2]:
        for i in list(range(0, 400)) + [i + (1 << s) for s in (8, 16, 31, 32, 63) for i in range(100)]:
            if i < 130 or i % 5 == 0 or i > 255:
                if (i + len(k)) % 2 or i < 100: yield 'qd %s %s' % (k, h(b'\0\0' + idx(i, 0)))
                if (i + len(k)) % 2 == 0 or i < 100: yield 'qd %s %s' % (k, h(b'\0\0' + idx(i, 1) + b'\x01x'))
    for x in range(256): yield 'qd buffers %s' % h(b'\0\0' + bytes([x, 1, 0x61, 1, 0x62]))
    for n, v in TABLE:
        n = n.encode(); v = v.encode()
        for m, w in ((n, v), (n, v + b' '), (n, v[:-1]), (n, b''), (n + b'x', v), (n[:-1], v), (n[:-1] + bytes([n[-1] ^ 1]), v), (n, v.upper()), (n, v.swapcase())): yield 'qe ' + fl((m, w))
    for n in NM:
        for m, v in PR:
            if r.random() < .02 or n == m: yield 'qe ' + fl((n, v))
    while 1:
        yield 'qe ' + fl(hfield(r))
        yield 'qd %s %s' % (r.choice(KINDS[:2]), h(b'\0\0' + idx(r.getrandbits(r.randint(1, 64)), r.getrandbits(1)) + b'\x01x'))
def block(r, fs):
    e = QEnc(); return b''.join(e.encode(n, v) for n, v in fs if lower(n))
def g_C08(r):
    while 1:
        fs = [hfield(r) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))]
        yield 'qe ' + ' '.join(map(fl, fs))
        b = block(r, fs)
        yield ('qd buffer ' + h(b)) if r.random() < .2 else 'qd buffers ' + feeds(r, b)
def anyfield(r):
    """any representation of a field line, valid or not"""
    x = r.random(); n, v = hfield(r, .2)
    lit = lambda s, p, f: (penc(hsize(s), p, f | 1 << p) + henc(s)) if r.random() < .4 else penc(len(s), p, f) + s
    if x < .15: return idx(r.choice([r.randint(0, 98), r.randint(0, 98), 99, 256, r.getrandbits(40)]), 0)
    if x < .3: return penc(r.choice([r.randint(0, 98), 99, 300]), 4, r.choice([0x50, 0x70, 0x50, 0x50, 0x40])) + lit(v, 7, 0)
    if x < .7: return lit(n, 3, r.choice([0x20, 0x30])) + lit(v, 7, 0)
    if x < .8: return bytes([r.getrandbits(8)]) + rb(r, r.randint(0, 6))
    return mutate(r, field(n, v))
def g_C09(r):
    for x in range(256):
        for k in range(6): yield 'qd buffers %s' % h(b'\0\0' + bytes([x, 1, 0x61, 1, 0x62])[:k])
    while 1:
        b = rb(r, 2) if r.random() < .2 else b'\0\0'
        b += b''.join(anyfield(r) for _ in range(r.choice([1, 1, 2, 3])))
        if r.random() < .2: b = b[:r.randint(0, len(b))]
        yield ('qd buffer ' + h(b)) if r.random() < .2 else 'qd buffers ' + feeds(r, b)
def rframe(r, over=0.03, small=False):
    t = r.choice(KNOWN); n = (lambda: r.choice([0, 1, 2, 63, 64, 300])) if small else (lambda: num(r, over))
    if t == 2: return (2, r.randint(0, 3), r.randint(0, 3), n(), n(), r.getrandbits(8))
    if t == 4: return (4, n(), r.choice([0, n()]), n(), n())
    if t == 5: return (5, n(), n())
    return (t, n())
def g_C10(r):
    for t in (0, 1, 3, 7, 13, 14):
        for v in EDGE + OVER: yield 'fe %d %d' % (t, v)
    for a in EDGE + OVER:
        for b in (0, 1, 63, 64, MAXV - 1, MAXV, MAXV - 2, MAXV - 4, MAXV - 8, MAXV - 9, M64, M64 - 1, M64 - 7): yield 'fe 5 %d %d' % (a, b)
    while 1: yield 'fe ' + wordsF(rframe(r, .08))
def unknown(r, small=True):
    while 1:
        t = r.choice([6, 8, 9, 10, 11, 12, 15, 0x21, 0x40, 0x10001, (1 << 32), (1 << 32) + 1, 256, 260, num(r, 0)])
        if t not in KNOWN: break
    p = rb(r, r.choice([0, 0, 1, 2, 3, 10, 25, 64, 70]))
    if r.random() < .3: p = b''.join(fenc(rframe(r, 0, True)) for _ in range(2))
    return anyv(r, t) + anyv(r, len(p)) + p
def fbytes(r):
    f = rframe(r, 0)
    try: p, n = payload(f)
    except Err: return fbytes(r)
    if f[0] == 4 and r.random() < .6:
        p = b''.join(anyv(r, r.choice([6, 9, 1, 7, 6, 9, num(r, 0)])) + anyv(r, num(r, 0)) for _ in range(r.randint(0, 5))); n = len(p)
    if f[0] in (3, 5, 7, 13, 14) and r.random() < .3:
        d = n - len(p); p = anyv(r, f[1]); n = len(p) + d
    if r.random() < .2: n = max(0, min(MAXV, n + r.choice([-8, -2, -1, 1, 2, 7, 64])))
    if n > MAXV: return fbytes(r)
    return anyv(r, f[0]) + anyv(r, n) + p
def fseq(r):
    b = b''.join(unknown(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])))
    x = r.random()
    if x < .75: b += fbytes(r)
    elif x < .85: b += anyv(r, num(r, 0)) + anyv(r, num(r, 0))
    else: b += rb(r, r.randint(0, 9))
    x = r.random()
    if x < .15: b = b[:r.randint(0, len(b))]
    elif x < .25: b = mutate(r, b)
    elif x < .7: b = tail(r, b)
    return b
def g_C11(r):
    for t in range(64):
        for n in range(5): yield 'fd %s %s' % (KINDS[t % 4], h(bytes([t, n, 1, 2, 3, 4, 5, 6, 7, 8][:r.choice([2, 4, 6, 8, 10])])))
    while 1: yield 'fd %s %s' % (r.choice(KINDS + ('bufferp',)), chunks(r, fseq(r)))
def g_C12(r):
    while 1:
        b = fseq(r); k = r.choice(KINDS + ('bufferp',)); c = chunks(r, b)
        yield 'fp %s %s' % (k, c)
        yield 'fd %s %s' % (k, c)
SZ = [0, 1, 2, 5, 10, 19, 20, 21, 22, 39, 40, 41, 60, 100]
def g_C13(r):
    while 1:
        L = [0] * 6; w = []
        for _ in range(r.randint(2, 14)):
            o = r.choice(['new', 'new', 'chr', 'view', 'mv', 'self', 'ctor', 'sl', 'sl', 'sl', 'con', 'cat', 'del', 'set', 'get', 'sz', 'all'])
            i, j, k = (r.randrange(6) for _ in range(3))
            if o in ('new', 'chr', 'view'): n = r.choice(SZ); w.append('%s:%d:%s' % (o, i, h(rb(r, n)))); L[i] = n
            elif o == 'mv':
                w.append('mv:%d:%d' % (i, j))
                if i != j: L[i] = L[j]; L[j] = 0
            elif o == 'self': w.append('self:%d' % i)
            elif o == 'ctor': w.append('ctor:%d:%d' % (i, j)); n = L[i]; L[i] = 0; L[j] = n
            elif o == 'sl':
                n = r.choice([0, L[i], r.randint(0, L[i]), min(L[i], 20), min(L[i], 21)]); w.append('sl:%d:%d:%d' % (i, n, j)); L[i] -= n; L[j] = n
            elif o == 'con': n = r.choice([0, L[i], r.randint(0, L[i])]); w.append('con:%d:%d' % (i, n)); L[i] -= n
            elif o == 'cat': w.append('cat:%d:%d:%d' % (i, j, k)); L[k] = L[i] + L[j]
            elif o == 'del': w.append('del:%d' % i); L[i] = 0
            elif o == 'set' and L[i]: w.append('set:%d:%d:%d' % (i, r.randrange(L[i]), r.getrandbits(8)))
            elif o == 'get' and L[i]: w.append('get:%d:%d' % (i, r.randrange(L[i])))
            elif o == 'sz': w.append('sz:%d' % i)
            elif o == 'all': w.append('all')
            if max(L) > 3000: break
        yield 'B ' + ' '.join(w)
def laprog(r, n):
    w = []; ls = [n]
    for _ in range(r.randint(1, 6)):
        i = r.randrange(len(ls))
        if r.random() < .35: w.append('la:%d' % i); ls.append(ls[i])
        else: k = r.choice([0, ls[i], r.randint(0, ls[i])]); w.append('lc:%d:%d' % (i, k)); ls[i] -= k
    return w
def g_C14(r, la=.05):
    while 1:
        C = [Chunks() for _ in range(3)]; w = []; done = False
        for _ in range(r.randint(2, 14)):
            i, j = r.randrange(3), r.randrange(3); b = C[i]; n = b.size()
            o = r.choice(['push', 'push', 'push', 'pushsl', 'pop', 'sl', 'sl', 'sl', 'con', 'con', 'get', 'sz', 'mv', 'ctor', 'front', 'back'])
            if o == 'push': x = rb(r, r.choice(SZ)); w.append('push:%d:%s' % (i, h(x))); b.push(x)
            elif o == 'pushsl':
                x = rb(r, r.choice([1, 5, 30, 64])); k = r.choice([1, 3, 7, 21, 25]); w.append('pushsl:%d:%s:%d' % (i, h(x), k))
                while x: b.push(x[:k]); x = x[k:]
            elif o == 'pop' and n: w.append('pop:%d' % i); b.pop()
            elif o in ('sl', 'con'):
                k = r.choice([0, n, r.randint(0, n), min(n, len(b.c[0]) if b.c else 0), min(n, len(b.c[0]) + 1 if b.c else 0)]); w.append('%s:%d:%d' % (o, i, k))
                b.slice(k) if o == 'sl' else b.consume(k)
            elif o == 'get' and n: w.append('get:%d:%d' % (i, r.choice([0, n - 1, r.randrange(n)])))
            elif o == 'sz': w.append('sz:%d' % i)
            elif o == 'mv' and i != j: w.append('mv:%d:%d' % (i, j)); C[i].c = C[j].c; C[j].c = []
            elif o == 'ctor': w.append('ctor:%d:%d' % (i, j)); x = b.c; b.c = []; C[j].c = x
            elif o == 'front' and b.c: w.append('front:%d' % i)
            elif o == 'back' and b.c: w.append('back:%d' % i)
        if r.random() < la: i = r.randrange(3); w += ['lA:%d' % i] + laprog(r, C[i].size())
        yield 'Q ' + ' '.join(w)
def g_C15(r):
    g = g_C14(r, 1)
    while 1:
        yield next(g)
        n = r.choice(SZ); yield 'BL %s %s %s' % (h(rb(r, r.choice([0, 1, 21]))), h(rb(r, n)), ' '.join(laprog(r, n)))
def dataseq(r):
    b = b''
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        x = r.random()
        if x < .7: n = r.choice([0, 0, 1, 2, 5, 20, 21, 63, 64, 70]); b += anyv(r, 0) + anyv(r, n) + rb(r, n)
        elif x < .85: b += unknown(r)
        else: b += fseq(r)
    if r.random() < .3: b = b[:r.randint(0, len(b))]
    return b
def g_C16(r):
    while 1:
        w = []; sent = 0
        for _ in range(r.randint(2, 12)):
            o = r.choice(['add', 'add', 'fin', 'enc', 'enc', 'enc', 'move'])
            if o == 'add': x = rb(r, r.choice([1, 2, 20, 21, 63, 64, 100, 0])); w.append('add:' + h(x))
            else: w.append(o)
        if r.random() < .7: w += ['fin'] + ['enc'] * r.randint(1, 8)
        yield 'be ' + ' '.join(w)
        b = dataseq(r)
        yield ('bd buffer ' + h(b)) if r.random() < .15 else 'bd buffers ' + feeds(r, b)
def hframe(r, fs=None, exact=.8):
    fs = fs or [hfield(r) for _ in range(r.choice([1, 1, 2, 3, 5]))]
    b = block(r, fs)
    if r.random() < .1: b = b[:2] + b''.join(anyfield(r) for _ in range(2))
    n = len(b)
    if r.random() > exact: n = max(0, n + r.choice([-n, -2, -1, 1, 2, 60]))
    return anyv(r, 1) + anyv(r, n) + b
def g_C17(r):
    while 1:
        w = []
        for _ in range(r.randint(1, 10)):
            o = r.choice(['add', 'add', 'add', 'fin', 'enc', 'enc', 'move'])
            w.append('add:' + fl(hfield(r)) if o == 'add' else o)
        if r.random() < .7: w += ['fin'] + ['enc'] * r.randint(1, 8)
        yield 'hE ' + ' '.join(w)
        b = (unknown(r) if r.random() < .2 else b'') + (hframe(r) if r.random() < .85 else fseq(r)) + (fseq(r) if r.random() < .3 else b'')
        if r.random() < .2: b = b[:r.randint(0, len(b))]
        yield ('hD buffer ' + h(b)) if r.random() < .15 else 'hD buffers ' + feeds(r, b)
def sid(r): return r.choice([0, 4, 8, 400, 1 << 40, (1 << 62) - 4])
def g_C18(r):
    while 1:
        w = []
        for _ in range(r.randint(3, 14)):
            o = r.choice(['h', 'h', 'b', 'b', 'start', 'fin', 'send', 'send', 'send', 'send', 'move'])
            w.append('h:' + fl(hfield(r)) if o == 'h' else 'b:' + h(rb(r, r.choice([1, 2, 20, 21, 64, 0]))) if o == 'b' else o)
        if r.random() < .6: w += r.choice([['start', 'fin'], ['fin', 'start'], ['start', 'send', 'fin']]) + ['send'] * r.randint(3, 10)
        yield 'S %d %s' % (sid(r), ' '.join(w))
def message(r):
    """(bytes, fin)"""
    b = (unknown(r) if r.random() < .15 else b'') + hframe(r, exact=.95)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x = r.random()
        if x < .75: n = r.choice([0, 1, 2, 20, 21, 63, 64, 70]); b += anyv(r, 0) + anyv(r, n) + rb(r, n)
        elif x < .88: b += unknown(r)
        elif x < .95: b += fseq(r)
        else: b += hframe(r)
    x = r.random()
    if x < .1: b = b[:r.randint(0, len(b))]
    elif x < .15: b = mutate(r, b)
    elif x < .25: b = fseq(r) + b
    return b
def delivery(r, b, fin=.8):
    """list of (fin, chunk)"""
    cs = [(0, c) for c in cut(r, b, 6)]
    if r.random() < fin:
        if r.random() < .5 or not cs: cs.append((1, b''))
        else: cs[-1] = (1, cs[-1][1])
    return cs
def g_C19(r):
    while 1:
        role = r.choice(['client', 'server']); w = [] if r.random() < .03 else ['start']
        for f, c in delivery(r, message(r)):
            w.append('r:%d:%s' % (f, h(c)))
            x = r.random()
            w += ['d'] if x < .6 else ['p'] if x < .7 else ['move'] if x < .75 else []
        w += ['d', 'p']
        if r.random() < .1: w += ['r:0:00', 'd']
        yield 'R %s %d %s' % (role, sid(r), ' '.join(w))
def g_C20(r):
    while 1:
        role = r.choice(['client', 'server']); w = []
        t = b'\0' if r.random() < .85 else anyv(r, r.choice([1, 2, 3, 63, 64, num(r, 0)]))
        b = t
        if r.random() < .9: b += (unknown(r) if r.random() < .2 else b'') + fenc((4, num(r, 0), r.choice([0, 5]), num(r, 0), num(r, 0)))
        for _ in range(r.choice([0, 1, 2])): b += fseq(r) if r.random() < .6 else fenc(rframe(r, 0, True))
        if r.random() < .2: b = b[:r.randint(0, len(b))]
        for f, c in delivery(r, b, .05):
            w.append('r:%d:%s' % (f, h(c))); w += r.choice([['p'], ['p', 'p'], [], ['send'], ['move', 'p']])
        w += ['p', 'p', 'p', 'send', 'send', 'send'][:r.randint(1, 6)]
        yield 'K %s %s' % (role, ' '.join(w))
def conn(r, role):
    w = []; n = 0; ids = []
    ctrl = b'\0' + fenc((4, num(r, 0), 0, 0, 0)); cid = CTRL[OTHER[role]]
    deliv = []
    for k in range(r.choice([1, 2, 2, 3])):
        id = 4 * k if role == 'client' else r.choice([0, 4, 8, 12, 1 << 20])
        deliv.append([(id, f, c) for f, c in delivery(r, message(r), .9)])
    if r.random() < .6: deliv.append([(cid, f, c) for f, c in delivery(r, ctrl + (fseq(r) if r.random() < .2 else b''), .03)])
    if r.random() < .25: deliv.append([(r.choice([7, 11, 2, 3, 6, 1 << 40 | 2]), f, c) for f, c in delivery(r, rb(r, 5))])
    if r.random() < .1: deliv.append([(r.choice([16, 20, 1, 5]), 0, rb(r, 3))])
    hs = r.randint(1, 3)
    if role == 'client':
        for k in range(hs):
            if r.random() < .8: w.append('open:%d' % k)
    if r.random() < .6: w.append('flush')
    seen = []
    for _ in range(r.randint(4, 30)):
        x = r.random(); k = r.randrange(3)
        if x < .08: w.append('open:%d:%d' % (k, r.choice(seen or [0, 4])) if role == 'server' else 'open:%d' % k)
        elif x < .25: w.append('h:%d:%s' % (k, fl(hfield(r))))
        elif x < .33: w.append('b:%d:%s' % (k, h(rb(r, r.choice([1, 5, 21, 64])))))
        elif x < .42: w.append('start:%d' % k)
        elif x < .5: w.append('fin:%d' % k)
        elif x < .52: w.append('drop:%d' % k)
        elif x < .6: w.append('send')
        elif x < .68: w.append('flush')
        elif x < .69: w.append('X:%d' % r.choice([0, 4, 2, 3]))
        elif x < .71: w.append('move')
        elif x < .75: w.append('N')
        elif deliv:
            d = r.choice(deliv)
            id, f, c = d.pop(0)
            if not d: deliv.remove(d)
            seen.append(id)
            w.append('%s:%d:%d:%s' % (r.choice('rrrR'), id, f, h(c)))
    if r.random() < .5:
        for k in range(3): w += ['h:%d:3a706174 68:2f'.replace(' ', '') % k, 'start:%d' % k, 'b:%d:%s' % (k, h(rb(r, 3))), 'fin:%d' % k]
        w.append('flush')
        for d in deliv:
            for id, f, c in d: w.append('r:%d:%d:%s' % (id, f, h(c)))
        w += ['flush', 'N', 'start:0', 'start:1', 'open:0:0' if role == 'server' else 'open:0', 'flush']
    return 'C %s %s' % (role, ' '.join(w))
def g_C21(r):
    while 1: yield conn(r, 'client')
def g_C22(r):
    while 1: yield conn(r, 'server')
def g_C23(r):
    while 1:
        w = []; S = {}; H = set()
        # S[x]: usable sender
        for _ in range(r.randint(3, 22)):
            o = r.choice(['ns', 'ns', 'nh', 'nh', 'nh', 'mh', 'mh', 'ah', 'ah', 'dh', 'ds', 'ms', 'as', 'as', 'hdr', 'hdr', 'bd', 'st', 'fn', 'id', 'snd', 'eh']); x, y = r.randrange(4), r.randrange(4)
            if o == 'ns': w.append('ns:%d:%d' % (x, 4 * r.randrange(30))); S[x] = True
            elif o == 'ds': w.append('ds:%d' % x); S.pop(x, 0)
            elif o in ('ms', 'as'):
                if S.get(y) and (o == 'ms' and x != y or x in S):
                    w.append('%s:%d:%d' % (o, x, y))
                    if x != y: S[x] = True; S[y] = False
                    elif o == 'ms': S[x] = True
            elif o == 'nh':
                if S.get(y): w.append('nh:%d:%d' % (x, y))
            elif o == 'snd':
                if S.get(x): w.append('snd:%d' % x)
            elif o == 'bd': w.append('bd:%d:%s' % (x, h(rb(r, r.choice([1, 21])))))
            elif o in ('mh', 'ah'): w.append('%s:%d:%d' % (o, x, y))
            else: w.append('%s:%d' % (o, x))
        for x in range(4): w += ['id:%d' % x, 'hdr:%d' % x, 'st:%d' % x, 'fn:%d' % x]
        for x in S:
            if S[x]: w.append('snd:%d' % x)
        yield 'H ' + ' '.join(w)
def g_C24(r):
    gs = [g(r) for g in (g_C02, g_C03, g_C05, g_C06, g_C09, g_C11, g_C12, g_C16, g_C17, g_C19, g_C20, g_C21, g_C22)]
    while 1:
        for g in gs: yield next(g)
        b = rb(r, r.randint(0, 30)); k = r.choice(KINDS)
        yield r.choice(['vd %s ' % k, 'pd %s %d ' % (k, r.randint(1, 7)), 'hd %s %d ' % (k, r.randint(0, 33)), 'ld %s %d ' % (k, r.randint(1, 7)), 'fd %s ' % k, 'fp %s ' % k]) + chunks(r, b)
        yield r.choice(['qd', 'bd', 'hD']) + ' buffers ' + feeds(r, b)
def g_C25(r):
    n = lambda: str(r.choice([0, 1, 4, MAXV, M64, r.getrandbits(40)]))
    ps = lambda: h(rb(r, r.choice([0, 1, 5, 15, 16, 20, 21, 40])))
    while 1:
        yield 'V settings %s %s %s %s' % (n(), n(), n(), n())
        yield 'V header %s %d %s %s' % (n(), r.getrandbits(1), h(hname(r, .3)), ps())
        yield 'V body %s %d %s' % (n(), r.getrandbits(1), ps())
        yield 'V finished ' + n()
        yield 'V qdata %s %d %s' % (n(), r.getrandbits(1), ps())
        yield 'V qerror %d %s %s' % (r.choice([1, 2]), n(), n())
        a, b, c, d = (h(rb(r, r.choice([0, 1, 2]))) for _ in range(4))
        if r.random() < .5: c, d = r.choice([(a, b), (a, d), (c, b)])
        yield 'V heq %s %s %s %s' % (a, b, c, d)
        x = rb(r, r.choice([0, 1, 2, 8])); y = r.choice([x, mutate(r, x), rb(r, len(x))])
        yield 'V veq %s %s' % (h(x), h(y))
        x = rb(r, r.choice([4, 16])); y = r.choice([x, rb(r, 4), rb(r, 16), x[:-1] + b'\0', x[:4] + bytes(12), (x + x)[:4]])
        yield 'V ip %s %s %d' % (h(x), h(y), r.getrandbits(16))
        yield 'V host ' + ps()
        f = rframe(r, .1)
        g = f if r.random() < .3 else rframe(r, .1)
        if r.random() < .5 and len(f) > 1: k = r.randrange(1, len(f)); g = f[:k] + ((f[k] ^ 1 if f[0] == 2 and k in (1, 2, 5) else f[k] ^ 1 << r.randrange(62)),) + f[k + 1:]
        yield 'V feq %s %s' % (wordsF(f), wordsF(g))
def g_C26(r):
    while 1:
        c = 'X %d %d ' % (r.randrange(3), r.randrange(2)); s = h(rb(r, r.choice([0, 1, 16, 20, 21, 32, 48, 64])) if r.random() < .9 else b'\xee' + rb(r, 3))
        yield c + 'label %s %s %d' % (s, h(rb(r, r.choice([0, 1, 7, 8, 9, 11, 20, 100, 246]))), r.choice([0, 1, 12, 16, 32, 48, 255, 256, 257, 0x1234, 0xffff, r.getrandbits(16)]))
        yield c + 'initial %s %s' % (s, h(rb(r, r.choice([0, 1, 20]))))
        yield c + '%s %s' % (r.choice(['client', 'server', 'update', 'data', 'iv', 'hp', 'key', 'sizes']), s)
GENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_')}
