"""Executable specification: the line the replay harness must print for a case, computed independently of the repository.
It is the oracle of the bounded native cross-check and of the search for failing inputs after a proof failure."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from spec.static_table import TABLE
from spec.huffman_table import CODES
INC = 1 << 62
IDLE, DELEGATE, NOTIMPL, OVERFLOW, BADHDR, CLOSED, INVALID = (INC + i for i in range(1, 8))
INTERNAL, WRONG, CRITICAL, MISSING, UNEXPECTED, MALFORMED, QFAIL = 3, 0x0a, 0x0f, 0x12, 0x13, 0x100, 0x200
M64 = (1 << 64) - 1
MAXV = (1 << 62) - 1
def hx(b): return bytes(b).hex() or '-'
def unhx(s): return b'' if s == '-' else bytes.fromhex(s)
class Err(Exception):
    def __init__(s, code, consumed=0): s.code = code; s.consumed = consumed
# ---- integers
def vsize(v):
    if v > MAXV: raise Err(OVERFLOW)
    return 1 if v < 64 else 2 if v < 1 << 14 else 4 if v < 1 << 30 else 8
def venc(v):
    n = vsize(v); return (v | ({1: 0, 2: 1, 4: 2, 8: 3}[n] << (8 * n - 2))).to_bytes(n, 'big')
def vdec(b, p=0):
    if p >= len(b): raise Err(INC)
    n = 1 << (b[p] >> 6)
    if p + n > len(b): raise Err(INC)
    return int.from_bytes(b[p:p + n], 'big') & ((1 << (8 * n - 2)) - 1), p + n
def penc(v, p, first=0):
    m = (1 << p) - 1
    keep = first & ~m & 255
    if v < m: return bytes([keep | v])
    out = [keep | m]; v -= m
    while v >= 128: out.append(128 | v & 127); v >>= 7
    return bytes(out + [v])
def pdec(b, prefix, p=0):
    m = (1 << prefix) - 1
    if p >= len(b): raise Err(INC)
    v = b[p] & m; p += 1
    if v < m: return v, p
    sh = 0
    while True:
        if p >= len(b): raise Err(INC)
        x = b[p]; p += 1
        v += (x & 127) << sh; sh += 7
        if v > M64: raise Err(QFAIL)
        if x < 128: return v, p
# ---- Huffman
DEC = {(l, c): i for i, (c, l) in enumerate(CODES)}
def hbits(s): return sum(CODES[c][1] for c in s)
def hsize(s): return (hbits(s) + 7) // 8
def henc(s):
    n = 0; k = 0
    for c in s: n = n << CODES[c][1] | CODES[c][0]; k += CODES[c][1]
    pad = -k % 8
    return (n << pad | (1 << pad) - 1).to_bytes((k + pad) // 8, 'big')
def hdec(b):
    out = bytearray(); code = 0; l = 0
    for byte in b:
        for i in range(7, -1, -1):
            code = code << 1 | byte >> i & 1; l += 1
            s = DEC.get((l, code))
            if s is not None:
                if s == 256: raise Err(QFAIL)
                out.append(s); code = l = 0
            elif l > 30: raise Err(QFAIL)
    if l > 7 or code != (1 << l) - 1: raise Err(QFAIL)
    return bytes(out)
# ---- literals
def lsize(s, p):
    n = min(hsize(s), len(s)); return len(penc(n, p)) + n
def lenc(s, p, first=0):
    if hsize(s) < len(s): return penc(hsize(s), p, first | 1 << p) + henc(s)
    return penc(len(s), p, first) + s
def ldec(b, prefix, p=0):
    if p >= len(b): raise Err(INC)
    huff = b[p] >> prefix & 1
    n, p = pdec(b, prefix, p)
    if n > len(b) - p: raise Err(INC)
    s = b[p:p + n]
    return (hdec(s) if huff else bytes(s)), p + n
# ---- QPACK
NAMES = {}
PAIRS = {}
for i, (n, v) in enumerate(TABLE):
    n = n.encode(); v = v.encode()
    NAMES.setdefault(n, i)
    if v: PAIRS[(n, v)] = i
def lower(n): return not any(65 <= c <= 90 for c in n)
def field(n, v):
    if (n, v) in PAIRS: return penc(PAIRS[(n, v)], 6, 0xc0)
    if n in NAMES: return penc(NAMES[n], 4, 0x50) + lenc(v, 7)
    return lenc(n, 3, 0x20) + lenc(v, 7)
def fdec(b, p=0):
    if p >= len(b): raise Err(INC)
    x = b[p]
    if x & 0x80:
        if not x & 0x40: raise Err(QFAIL)
        i, p = pdec(b, 6, p)
        if i >= len(TABLE): raise Err(QFAIL)
        return (TABLE[i][0].encode(), TABLE[i][1].encode()), p
    if x & 0x40:
        if not x & 0x10: raise Err(QFAIL)
        i, p = pdec(b, 4, p)
        if i >= len(TABLE): raise Err(QFAIL)
        v, p = ldec(b, 7, p)
        return (TABLE[i][0].encode(), v), p
    if x & 0x20:
        n, p = ldec(b, 3, p); v, p = ldec(b, 7, p)
        if not lower(n): raise Err(BADHDR)
        return (n, v), p
    raise Err(QFAIL)
class QDec:
    def __init__(s): s.pref = True; s.count = 0
    def decode(s, q):
        """q: Seq"""
        if s.pref:
            if len(q.b) < 2: raise Err(INC)
            q.consume(2); s.count += 2; s.pref = False
        r, p = fdec(q.b)
        s.count += p; q.consume(p)
        return r
class QEnc:
    def __init__(s): s.pref = True; s.count = 0
    def size(s, n, v):
        if not lower(n): raise Err(BADHDR)
        return (2 if s.pref else 0) + len(field(n, v))
    def encode(s, n, v):
        s.size(n, v)
        b = (b'\0\0' if s.pref else b'') + field(n, v)
        s.pref = False; s.count += len(b)
        return b
class Seq:
    def __init__(s, b=b''): s.b = bytes(b)
    def consume(s, n): s.b = s.b[n:]
    def push(s, b): s.b += bytes(b)
# ---- frames
KNOWN = (0, 1, 2, 3, 4, 5, 7, 13, 14)
def payload(f):
    t = f[0]
    if t in (0, 1): return b'', f[1]
    if t == 2: p = bytes([(f[1] << 6 | f[2] << 4) & 0xf0]) + venc(f[3]) + venc(f[4]) + bytes([f[5]])
    elif t in (3, 7, 13, 14): p = venc(f[1])
    elif t == 4:
        p = b''
        for i, x in ((6, f[1]), (9, f[2]), (1, f[3]), (7, f[4])):
            if i == 9 and x == 0: continue
            p += venc(i) + venc(x)
    elif t == 5:
        p = venc(f[1]); venc(f[2]); return p, len(p) + f[2]
    return p, len(p)
def fenc(f):
    p, n = payload(f); return venc(f[0]) + venc(n) + p
def fdec1(b, p):
    """(frame or None for an unknown frame, position after)"""
    t, p = vdec(b, p); n, p = vdec(b, p)
    s = p
    def u8():
        nonlocal p
        if p >= len(b): raise Err(INC)
        p += 1; return b[p - 1]
    def v():
        nonlocal p
        x, p = vdec(b, p); return x
    if t in (0, 1): return (t, n), p
    if t == 2:
        x = u8(); f = (2, x >> 6, x >> 4 & 3, v(), v(), u8())
    elif t in (3, 7, 13, 14): f = (t, v())
    elif t == 4:
        d = {6: MAXV, 9: 0, 1: 0, 7: 0}
        while p - s < n:
            i = v(); x = v()
            if i in d: d[i] = x
        f = (4, d[6], d[9], d[1], d[7])
    elif t == 5:
        x = v(); k = p - s
        if k > n: raise Err(MALFORMED)
        return (5, x, n - k), p
    else:
        if n > len(b) - p: raise Err(INC)
        return None, p + n
    if p - s != n: raise Err(MALFORMED)
    return f, p
def framedec(q):
    while True:
        f, p = fdec1(q.b, 0)
        q.consume(p)
        if f: return f
def peek(b):
    p = 0
    while True:
        t, p = vdec(b, p)
        if t in KNOWN: return t
        n, p = vdec(b, p)
        if n > len(b) - p: raise Err(INC)
        p += n
# ---- chunk lists
class Chunks:
    def __init__(s): s.c = []
    def size(s): return sum(map(len, s.c))
    def cat(s): return b''.join(s.c)
    def push(s, b): s.c.append(bytes(b))
    def pop(s): return s.c.pop(0)
    def consume(s, n):
        i = 0
        while n:
            k = min(n, len(s.c[i])); s.c[i] = s.c[i][k:]; n -= k; i += 1
        while s.c and not s.c[0]: s.c.pop(0)
    def slice(s, n):
        r = s.cat()[:n]
        if n: s.consume(n)
        return r
# ---- encoders and decoders
class BodyEnc:
    def __init__(s): s.c = Chunks(); s.fin_ = False; s.st = 'frame'
    def add(s, b):
        if s.fin_: raise Err(INTERNAL)
        s.c.push(b)
    def fin(s):
        if s.st == 'fin': raise Err(INTERNAL)
        s.fin_ = True
        if s.c.size() == 0: s.st = 'fin'
    def finished(s): return s.st == 'fin'
    def encode(s):
        if s.st == 'frame':
            if s.c.size() == 0: raise Err(IDLE)
            s.st = 'data'; return fenc((0, len(s.c.c[0])))
        if s.st == 'data':
            b = s.c.pop(); s.st = 'fin' if s.fin_ and s.c.size() == 0 else 'frame'; return b
        raise Err(INTERNAL)
class BodyDec:
    def __init__(s): s.data = False; s.rem = 0
    def decode(s, q):
        if not s.data:
            t = peek(q.b)
            if t != 0: raise Err(DELEGATE)
            s.rem = framedec(q)[1]; s.data = True
        if not q.b and s.rem: raise Err(INC)
        n = min(len(q.b), s.rem); r = q.b[:n]; q.consume(n); s.rem -= n
        if s.rem == 0: s.data = False
        return r
class HdrEnc:
    def __init__(s): s.q = QEnc(); s.c = Chunks(); s.st = 'idle'
    def add(s, n, v):
        if s.st != 'idle': raise Err(INTERNAL)
        s.c.push(s.q.encode(n, v))
    def fin(s):
        if s.st != 'idle' or not s.c.c: raise Err(INTERNAL)
        s.st = 'frame'
    def finished(s): return s.st == 'fin'
    def encode(s):
        if s.st == 'idle': raise Err(IDLE)
        if s.st == 'frame': s.st = 'qpack'; return fenc((1, s.q.count))
        if s.st == 'qpack':
            b = s.c.pop()
            if not s.c.c: s.st = 'fin'
            return b
        raise Err(INTERNAL)
class HdrDec:
    def __init__(s): s.st = 'frame'; s.q = QDec(); s.n = 0
    def started(s): return s.st != 'frame'
    def finished(s): return s.st == 'fin'
    def decode(s, q):
        if s.st == 'fin': raise Err(INTERNAL)
        if s.st == 'frame':
            t = peek(q.b)
            if t != 1: raise Err(DELEGATE)
            s.n = framedec(q)[1]; s.st = 'qpack'
            if s.n == 0: raise Err(MALFORMED)
        r = s.q.decode(q)
        if s.q.count > s.n: raise Err(MALFORMED)
        if s.q.count == s.n: s.st = 'fin'
        return r
# ---- streams
class Sender:
    def __init__(s, id): s.id = id; s.h = HdrEnc(); s.b = BodyEnc(); s.st = 'headers'; s.handle = None
    def finished(s): return s.st == 'fin'
    def send(s):
        if s.st == 'headers':
            e = s.h.encode()
            if s.h.finished(): s.st = 'fin' if s.b.finished() else 'body'
            return ('data', s.id, s.st == 'fin', e)
        if s.st == 'body':
            if s.b.finished(): s.st = 'fin'; return ('data', s.id, True, b'')
            e = s.b.encode()
            if s.b.finished(): s.st = 'fin'
            return ('data', s.id, s.st == 'fin', e)
        raise Err(INTERNAL)
class Receiver:
    def __init__(s, role, id): s.role = role; s.id = id; s.h = HdrDec(); s.b = BodyDec(); s.q = Seq(); s.st = 'closed'; s.fin = False
    def start(s): s.st = 'headers'
    def recv(s, fin, b):
        if s.fin: raise Err(INTERNAL)
        s.fin = fin; s.q.push(b)
    def process(s):
        if s.st == 'closed': raise Err(INTERNAL)
        if s.st == 'fin': return ('finished', s.id)
        try:
            if s.st == 'headers':
                n, v = s.h.decode(s.q)
                if s.h.finished(): s.st = 'fin' if not s.q.b and s.fin else 'body'
                return ('header', s.id, s.h.finished(), n, v)
            r = s.b.decode(s.q)
            fin = not s.q.b and s.fin
            if fin:
                if s.b.data: raise Err(MALFORMED)
                s.st = 'fin'
            return ('body', s.id, fin, r)
        except Err as e: code = e.code
        if code == INC and s.fin:
            if s.st == 'body' and not s.b.data:
                try: framedec(s.q)
                except Err: pass
                if not s.q.b: s.st = 'fin'; return ('body', s.id, True, b'')
            raise Err(MALFORMED)
        if code == DELEGATE:
            try: f = framedec(s.q)
            except Err as e: raise Err(MALFORMED if e.code == INC and s.fin else e.code)
            t = f[0]
            if t == 1: s.q = Seq(); s.st = 'fin'; return ('body', s.id, True, b'')
            if t == 0: raise Err(UNEXPECTED)
            if t in (4, 13, 3, 7): raise Err(WRONG)
            if s.role == 'client': raise Err(UNEXPECTED if t == 2 else NOTIMPL)
            raise Err((UNEXPECTED if s.h.started() else NOTIMPL) if t == 2 else UNEXPECTED)
        raise Err(code)
CTRL = {'client': 2, 'server': 3}
OTHER = {'client': 'server', 'server': 'client'}
class CSend:
    def __init__(s, role): s.id = CTRL[role]; s.n = 0
    def send(s):
        s.n += 1
        if s.n == 1: return ('data', s.id, False, b'\0')
        if s.n == 2: return ('data', s.id, False, fenc((4, MAXV, 0, 0, 0)))
        raise Err(IDLE)
class CRecv:
    def __init__(s, role): s.role = role; s.id = CTRL[OTHER[role]]; s.q = Seq(); s.st = 'type'
    def recv(s, fin, b):
        if fin: raise Err(CRITICAL)
        s.q.push(b)
    def process(s):
        if s.st == 'type':
            t, p = vdec(s.q.b); s.q.consume(p)
            if t != 0: raise Err(WRONG)
            s.st = 'settings'
        f = framedec(s.q); t = f[0]
        if s.st == 'settings':
            if t != 4: raise Err(MISSING)
            s.st = 'active'; return ('settings',) + f[1:]
        if t in (0, 1, 5, 14): raise Err(WRONG)
        if t == 4: raise Err(UNEXPECTED)
        if s.role == 'client': raise Err(NOTIMPL if t in (3, 7) else UNEXPECTED)
        raise Err(UNEXPECTED if t == 7 else NOTIMPL)
class Conn:
    def __init__(s, role): s.role = role; s.cs = CSend(role); s.cr = CRecv(role); s.req = {}; s.next = 0
    def send(s):
        try: return s.cs.send()
        except Err as e:
            if e.code != IDLE: raise
        for id in sorted(s.req):
            snd, rcv = s.req[id]
            if snd.finished(): continue
            try: ev = snd.send()
            except Err as e:
                if e.code != IDLE: raise
                continue
            if s.role == 'client':
                if rcv.st == 'closed': rcv.start()
            elif snd.finished(): s.drop(id)
            return ev
        raise Err(IDLE)
    def drop(s, id): s.req[id][0].gone = True; del s.req[id]
    def recv(s, id, fin, b):
        if id == s.cr.id: return s.cr.recv(fin, b)
        if id & 2: return
        if id not in s.req:
            if s.role == 'client': raise Err(INTERNAL)
            s.req[id] = (Sender(id), Receiver(s.role, id)); s.req[id][1].start()
        s.req[id][1].recv(fin, b)
    def process(s, id):
        if id == s.cr.id: return s.cr.process()
        if id & 2: raise Err(INC)
        if id not in s.req: raise Err(INTERNAL if s.role == 'client' else CLOSED)
        e = s.req[id][1].process()
        if s.role == 'client' and e[0] == 'finished': s.drop(id)
        return e
    def open(s, id):
        if s.role == 'client':
            id = s.next; s.next += 4; s.req[id] = (Sender(id), Receiver(s.role, id))
        elif id not in s.req: raise Err(CLOSED)
        return Handle(s.req[id][0])
class Handle:
    def __init__(s, snd=None):
        s.snd = snd; s.id = snd.id if snd else M64
        if snd:
            if snd.handle: snd.handle.snd = None
            snd.handle = s
    def use(s):
        if s.snd is None or getattr(s.snd, 'gone', False): raise Err(INVALID)
        return s.snd
# ---- text
def ev(e):
    if e[0] == 'settings': return ['settings'] + [str(x) for x in e[1:]]
    if e[0] == 'header': return ['header', str(e[1]), str(int(e[2])), hx(e[3]), hx(e[4])]
    if e[0] == 'body': return ['body', str(e[1]), str(int(e[2])), hx(e[3])]
    if e[0] == 'data': return ['data', str(e[1]), str(int(e[2])), hx(e[3])]
    return ['finished', str(e[1])]
def E(e): return ['E%d' % (e.code if isinstance(e, Err) else e)]
def attempt(f, show=lambda r: []):
    try: r = f()
    except Err as e: return E(e), False
    return ['ok'] + show(r), True
def void(f): return attempt(f)[0]
def fparse(a, i):
    n = {0: 1, 1: 1, 2: 5, 3: 1, 4: 4, 5: 2, 7: 1, 13: 1, 14: 1}[int(a[i])]
    return tuple(int(x) for x in a[i:i + 1 + n]), i + 1 + n
def ftext(f): return [str(x) for x in f]
def wordsF(f): return ' '.join(str(x) for x in f)
def cat(chunks): return b''.join(unhx(c) for c in chunks.split(','))
def decoded(fn, b, show):
    q = Seq(b)
    r, _ = attempt(lambda: fn(q), show)
    return r + ['rest', hx(q.b)]
def taking(f):
    def go(q):
        r, p = f(q.b); q.consume(p); return r
    return go
def expect(line):
    a = line.split(' '); o = a[0]
    return globals()['x_' + o](a)
def x_ve(a):
    v = int(a[1]); r = attempt(lambda: vsize(v), lambda n: [str(n)])[0] + attempt(lambda: venc(v), lambda b: [hx(b)])[0]
    try: b = venc(v); return r + ['raw', str(len(b)), hx(b)]
    except Err as e: return r + E(e) + ['raw', '0', 'a5' * 8]
def x_vd(a): return decoded(taking(vdec), cat(a[2]), lambda v: [str(v)])
def x_pe(a):
    v, p, f = int(a[1]), int(a[2]), int(a[3])
    b = penc(v, p); r = penc(v, p, f)
    return [str(len(b)), hx(b), 'raw', str(len(r)), hx(r)]
def x_pd(a): return decoded(taking(lambda b: pdec(b, int(a[2]))), cat(a[3]), lambda v: [str(v)])
def x_he(a):
    b = henc(unhx(a[1])); return [str(len(b)), hx(b), 'raw', str(len(b)), hx(b)]
def x_hd(a):
    n = int(a[2])
    def f(b):
        if len(b) < n: raise Err(INC)
        return hdec(b[:n]), n
    return decoded(taking(f), cat(a[3]), lambda s: [hx(s)])
def x_le(a):
    s, p, f = unhx(a[1]), int(a[2]), int(a[3])
    b = lenc(s, p); r = lenc(s, p, f)
    return [str(len(b)), hx(b), 'raw', str(len(r)), hx(r)]
def x_ld(a): return decoded(taking(lambda b: ldec(b, int(a[2]))), cat(a[3]), lambda s: [hx(s)])
def x_fe(a):
    f, _ = fparse(a, 1)
    try: b = fenc(f)
    except Err as e: return E(e) * 3
    return ['ok', str(len(b)), 'ok', hx(b), 'raw', str(len(b)), hx(b)]
def x_fd(a): return decoded(framedec, cat(a[2]), ftext)
def x_fp(a): return decoded(lambda q: peek(q.b), cat(a[2]), lambda t: [str(t)])
def x_B(a):
    r = [b''] * 6; out = []
    for w in a[1:]:
        t = w.split(':'); o = t[0]; i = int(t[1]) if len(t) > 1 else 0
        if o in ('new', 'chr', 'view'): r[i] = unhx(t[2])
        elif o == 'mv':
            j = int(t[2])
            if i != j: r[i] = r[j]; r[j] = b''
        elif o == 'ctor': j = int(t[2]); x = r[i]; r[i] = b''; r[j] = x
        elif o == 'sl': n = int(t[2]); x = r[i][:n]; r[i] = r[i][n:]; r[int(t[3])] = x
        elif o == 'con': r[i] = r[i][int(t[2]):]
        elif o == 'cat': r[int(t[3])] = r[i] + r[int(t[2])]
        elif o == 'del': r[i] = b''
        elif o == 'set': k = int(t[2]); r[i] = r[i][:k] + bytes([int(t[3])]) + r[i][k + 1:]
        elif o == 'get': out += [str(r[i][int(t[2])]), str(r[i][0])]
        elif o == 'sz': out += [str(len(r[i])), str(int(not r[i]))]
        elif o == 'all': out += [hx(x) for x in r]
    return out + ['end'] + [hx(x) for x in r]
def la(full, words):
    out = []; ls = [[0, 0]]
    for w in words:
        t = w.split(':')
        if t[0] == 'la': p, c = ls[int(t[1])]; ls.append([p + c, 0])
        elif t[0] == 'lc': ls[int(t[1])][1] += int(t[2])
        for p, c in ls:
            b = full[p + c:]
            out += [hx(b), str(c), str(int(not b))] + ([str(b[0])] if b else [])
        out.append(hx(full))
    return out
def x_BL(a): return la(unhx(a[2]), a[3:])
def x_Q(a):
    r = [Chunks() for _ in range(3)]; out = []
    for k, w in enumerate(a[1:]):
        t = w.split(':'); o = t[0]; i = int(t[1]) if len(t) > 1 else 0; b = r[i]
        if o == 'push': b.push(unhx(t[2]))
        elif o == 'pushsl':
            x = unhx(t[2]); n = int(t[3])
            while x: b.push(x[:n]); x = x[n:]
        elif o == 'pop': out.append(hx(b.pop()))
        elif o == 'sl': out.append(hx(b.slice(int(t[2]))))
        elif o == 'con': b.consume(int(t[2]))
        elif o == 'get': x = b.cat(); out += [str(x[int(t[2])]), str(x[0])]
        elif o == 'sz': out += [str(b.size()), str(int(b.size() == 0))]
        elif o == 'mv': r[i].c = r[int(t[2])].c; r[int(t[2])].c = []
        elif o == 'ctor': x = b.c; b.c = []; r[int(t[2])].c = x
        elif o == 'front': out.append(hx(b.c[0]))
        elif o == 'back': out.append(hx(b.c[-1]))
        elif o == 'lA': out += la(b.cat(), a[k + 2:]); break
    return out + ['end'] + [hx(b.cat()) for b in r]
def x_be(a):
    e = BodyEnc(); out = []
    for w in a[1:]:
        t = w.split(':')
        if t[0] == 'add': out += void(lambda: e.add(unhx(t[1])))
        elif t[0] == 'fin': out += void(e.fin)
        elif t[0] == 'enc': out += attempt(e.encode, lambda b: [hx(b)])[0]
        out.append(str(int(e.finished())))
    return out
def feed(a, run):
    """the chunk feeding protocol shared by the decoder programs"""
    out = []; q = Seq()
    if a[1] == 'buffer':
        q.push(unhx(a[2])); out += run(q); return out + ['rest', hx(q.b)]
    for w in a[2:]:
        if w == 'move': continue
        q.push(unhx(w)); out += run(q)
    return out + ['rest', hx(q.b)]
def x_bd(a):
    d = BodyDec()
    def run(q):
        out = []
        for _ in range(200):
            r, ok = attempt(lambda: d.decode(q), lambda b: [hx(b)])
            out += r
            if not ok: break
            out.append(str(int(d.data)))
        return out + [str(int(d.data))]
    return feed(a, run)
def x_hE(a):
    e = HdrEnc(); out = []
    for w in a[1:]:
        t = w.split(':')
        if t[0] == 'add': out += void(lambda: e.add(unhx(t[1]), unhx(t[2])))
        elif t[0] == 'fin': out += void(e.fin)
        elif t[0] == 'enc': out += attempt(e.encode, lambda b: [hx(b)])[0]
        out.append(str(int(e.finished())))
    return out
def x_hD(a):
    d = HdrDec()
    def run(q):
        out = []
        for _ in range(200):
            r, ok = attempt(lambda: d.decode(q), lambda h: [hx(h[0]), hx(h[1])])
            out += r
            if not ok: break
            out.append(str(int(d.finished())))
            if d.finished(): break
        return out + [str(int(d.started())), str(int(d.finished()))]
    return feed(a, run)
def x_qe(a):
    e = QEnc(); f = QEnc(); out = []
    for w in a[1:]:
        n, v = (unhx(x) for x in w.split(':'))
        r, ok = attempt(lambda: f.size(n, v), lambda x: [str(x)]); out += r
        out += attempt(lambda: e.encode(n, v), lambda b: [hx(b)])[0] + [str(e.count)]
        if ok: b = f.encode(n, v); out += ['raw', str(len(b)), hx(b)]
        out.append(str(f.count))
    return out
def x_qd(a):
    d = QDec(); out = []; q = Seq()
    def run():
        out = []
        for _ in range(400):
            r, ok = attempt(lambda: d.decode(q), lambda h: [hx(h[0]), hx(h[1])]); out += r
            if not ok: break
            out.append(str(d.count))
        return out + [str(d.count)]
    if a[1] == 'buffer': q.push(unhx(a[2])); return run() + ['rest', hx(q.b)]
    for w in a[2:]:
        if w == 'move': continue
        q.push(unhx(w)); out += run() + ['rest', hx(q.b)]
    return out
def x_S(a):
    s = Sender(int(a[1])); out = []
    for w in a[2:]:
        t = w.split(':')
        if t[0] == 'h': out += void(lambda: s.h.add(unhx(t[1]), unhx(t[2])))
        elif t[0] == 'b': out += void(lambda: s.b.add(unhx(t[1])))
        elif t[0] == 'start': out += void(s.h.fin)
        elif t[0] == 'fin': out += void(s.b.fin)
        elif t[0] == 'send': out += attempt(s.send, ev)[0]
        out.append(str(int(s.finished())))
    return out
def x_R(a):
    r = Receiver(a[1], int(a[2])); out = []
    for w in a[3:]:
        t = w.split(':')
        if t[0] == 'start': out += void(r.start)
        elif t[0] == 'p': out += attempt(r.process, ev)[0]
        elif t[0] == 'r': out += void(lambda: r.recv(t[1] == '1', unhx(t[2])))
        elif t[0] == 'd':
            for _ in range(400):
                last = []
                x, ok = attempt(r.process, lambda e: last.append(e) or ev(e)); out += x
                if not ok or last[0][0] == 'finished': break
        out += [str(int(r.st == 'fin')), str(int(r.st == 'closed'))]
    return out
def x_K(a):
    s = CSend(a[1]); r = CRecv(a[1]); out = [str(r.id)]
    for w in a[2:]:
        t = w.split(':')
        if t[0] == 'send': out += attempt(s.send, ev)[0]
        elif t[0] == 'r': out += void(lambda: r.recv(t[1] == '1', unhx(t[2])))
        elif t[0] == 'p': out += attempt(r.process, ev)[0]
    return out
class Gen:
    def __init__(s, c, id): s.c = c; s.id = id; s.done = False
    def next(s):
        """None: stop, else text, ok"""
        if s.done: return None
        try: e = s.c.process(s.id)
        except Err as x:
            if x.code == INC: return None
            return E(x), False
        if e[0] == 'finished': s.done = True
        return ev(e), True
def x_C(a):
    c = Conn(a[1]); hs = {}; g = None; out = []
    def H(i): return hs.setdefault(i, Handle())
    for w in a[2:]:
        t = w.split(':'); o = t[0]
        if o == 'open':
            try: h = c.open(int(t[2]) if len(t) > 2 else 0)
            except Err as e: out += E(e); continue
            out += ['ok', str(h.id)]
            old = hs.get(int(t[1]))
            if old is not None and old.snd is not None and old.snd.handle is old: old.snd.handle = None
            hs[int(t[1])] = h
        elif o == 'h': out += void(lambda: H(int(t[1])).use().h.add(unhx(t[2]), unhx(t[3])))
        elif o == 'b': out += void(lambda: H(int(t[1])).use().b.add(unhx(t[2])))
        elif o == 'start': out += void(lambda: H(int(t[1])).use().h.fin())
        elif o == 'fin': out += void(lambda: H(int(t[1])).use().b.fin())
        elif o == 'drop':
            h = hs.pop(int(t[1]), None)
            if h is not None and h.snd is not None and h.snd.handle is h: h.snd.handle = None
        elif o == 'send': out += attempt(c.send, ev)[0]
        elif o == 'flush':
            for _ in range(400):
                try: out += ev(c.send())
                except Err as e: out += E(e); break
        elif o in ('r', 'R'):
            r = void(lambda: c.recv(int(t[1]), t[2] == '1', unhx(t[3]))); out += r
            if r != ['ok']: continue
            g = Gen(c, int(t[1]))
            if o == 'r':
                for _ in range(400):
                    x = g.next()
                    if x is None: out.append('stop'); break
                    out += x[0]
                    if not x[1]: break
        elif o == 'N':
            if g is None: out.append('nogen'); continue
            x = g.next()
            if x is None: out.append('stop')
            else: out += (['ok'] if x[1] else []) + x[0]
        elif o == 'X': out += E(NOTIMPL)
        elif o == 'move': g = None
    return out
def x_H(a):
    s = {}; h = {}; out = []
    def kill(x):
        if x.handle: x.handle.snd = None; x.handle = None
    def killh(x):
        if x.snd: x.snd.handle = None; x.snd = None
    def movs(dst, src):
        dst.__dict__.update({k: v for k, v in src.__dict__.items()})
        if dst.handle: dst.handle.snd = dst
        src.handle = None; src.h = HdrEnc(); src.b = BodyEnc()
    def movh(dst, src):
        dst.id, dst.snd = src.id, src.snd; src.id = M64; src.snd = None
        if dst.snd: dst.snd.handle = dst
    for w in a[1:]:
        t = w.split(':'); o = t[0]; x = int(t[1]) if len(t) > 1 else 0; y = int(t[2]) if len(t) > 2 and o != 'bd' else 0
        if o == 'ns':
            if x in s: kill(s[x])
            s[x] = Sender(y)
        elif o == 'ds':
            if x in s: kill(s.pop(x))
        elif o == 'ms':
            if y in s:
                n = Sender(0); movs(n, s[y])
                if x in s: kill(s[x])
                s[x] = n
        elif o == 'as':
            if x in s and y in s and x != y: kill(s[x]); movs(s[x], s[y])
        elif o == 'nh':
            if y in s:
                n = Handle(s[y])
                if x in h: killh(h[x]) if h[x].snd else None
                h[x] = n
        elif o == 'eh':
            if x in h: killh(h[x])
            h[x] = Handle()
        elif o == 'dh':
            if x in h: killh(h.pop(x))
        elif o == 'mh':
            if y in h:
                n = Handle(); movh(n, h[y])
                if x in h: killh(h[x])
                h[x] = n
        elif o == 'ah':
            if x in h and y in h and x != y: killh(h[x]); movh(h[x], h[y])
        elif x in h and o in ('hdr', 'bd', 'st', 'fn', 'id'):
            k = h[x]
            if o == 'hdr': out += void(lambda: k.use().h.add(b'a', b'b'))
            elif o == 'bd': out += void(lambda: k.use().b.add(unhx(t[2])))
            elif o == 'st': out += void(lambda: k.use().h.fin())
            elif o == 'fn': out += void(lambda: k.use().b.fin())
            else: out.append(str(k.id))
        elif o == 'snd' and x in s:
            for _ in range(50):
                try: out += ev(s[x].send())
                except Err as e: out += E(e); break
    return out
def x_V(a):
    k = a[1]; two = lambda l: l + l
    i = lambda n: int(a[n])
    if k == 'settings': return two(['settings'] + a[2:6]) + ['6', a[2], '9', a[3], '1', a[4], '7', a[5]]
    if k == 'header':
        n, v = a[4], a[5]
        return two(['header', a[2], str(int(a[3] == '1')), n, v]) + [n, v, n, v, '1', '0', str(int(lower(unhx(n))))]
    if k == 'body': return two(['body', a[2], str(int(a[3] == '1')), a[4]])
    if k == 'finished': return two(['finished', a[2]])
    if k == 'qdata': return [a[2]] + two(['data', a[2], str(int(a[3] == '1')), a[4]])
    if k == 'qerror': return [a[3]] + two(['error', a[2], a[3], a[4]])
    if k == 'heq': e = a[2] == a[4] and a[3] == a[5]; return [str(int(e)), str(int(not e)), str(int(lower(unhx(a[2]))))]
    if k == 'veq':
        p, q = unhx(a[2]), unhx(a[3]); e = p == q; n = len(p)
        r = [int(e), int(not e)] * 2 + [n, int(n == 0)] * 2
        r = [str(x) for x in r] + [hx(p), hx(p)]
        if p: r += [str(p[-1]), str(p[0]), str(p[-1]), str(p[0])]
        return r + [str(n), str(n)]
    if k == 'ip':
        p = a[2]; six = len(p) == 32
        return [str(int(a[2] == a[3])), p, str(int(six)), p, a[4], '1'] + ([] if six else [p]) + ['1', '00000000']
    if k == 'host': return [a[2], a[2]]
    if k == 'feq':
        f, n = fparse(a, 2); g, _ = fparse(a, n); e = f == g
        return [str(int(e)), str(int(not e))] + ftext(f) + ['1']

def x_X(a):
    k, h, o, s = int(a[1]), int(a[2]), a[3], unhx(a[4])
    KEY = {0: 16, 1: 32, 2: 32}[k]; HASH = {0: 32, 1: 48}[h]; out = []
    def ex(label, n):
        i = bytes([n >> 8, n & 255, 6 + len(label)]) + b'tls13 ' + label + b'\0'
        out.extend(['e', hx(s), hx(i), str(n)])
        return None if s[:1] == b'\xee' else bytes(c ^ 0x5a for c in s + i)
    def show(r): out.extend([hx(r)] if r is not None else ['err', '1'])
    if o == 'sizes': return ['16', str(HASH), str(KEY)]
    if o == 'label': show(ex(unhx(a[5]), int(a[6])))
    elif o == 'initial':
        t = unhx(a[5]); out.extend(['x', hx(s), hx(t), '0']); show(None if s[:1] == b'\xee' else bytes(c ^ 0x5a for c in s + t))
    elif o == 'key':
        rs = []
        for l, n in ((b'quic key', KEY), (b'quic iv', 12), (b'quic hp', KEY)):
            r = ex(l, n)
            if r is None: show(r); return out
            rs.append(r)
        for r in rs: show(r)
    else: show(ex(*dict(client=(b'client in', HASH), server=(b'server in', HASH), update=(b'traffic upd', len(s)), data=(b'quic key', KEY), iv=(b'quic iv', 12), hp=(b'quic hp', KEY))[o]))
    return out
