#!/usr/bin/env python3
"""Mines the proof-of-work header fixtures in /verif/fixtures/headers.json.
Run once, offline; no check runs it.  Independent of /repo's code: it builds
the header bytes itself and only shares the wire format with it."""
import hashlib, json, os, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '../../fixtures/headers.json')
b2 = lambda b: hashlib.blake2b(b, digest_size=32).digest()
def pack(eb, nonces):
    v = 0
    for i, n in enumerate(nonces): v |= n << (i*eb)
    return v.to_bytes((eb*42+7)//8, 'little')
def diff(powbytes): return 0x0fffffffffffffff // max(1, int.from_bytes(b2(powbytes)[:8], 'big'))
G4 = [0x46f3b4,0x1135f8c,0x1a1596f,0x1e10f71,0x41c03ea,0x63fe8e7,0x65af34f,0x73c16d3,0x8216dc3,0x9bc75d0,0xae7d9ad,0xc1cb12b,0xc65e957,0xf67a152,0xfac6559,0x100c3d71,0x11eea08b,0x1225dfbb,0x124d61a1,0x132a14b4,0x13f4ec38,0x1542d236,0x155f2df0,0x1577394e,0x163c3513,0x19349845,0x19d46953,0x19f65ed4,0x1a0411b9,0x1a2fa039,0x1a72a06c,0x1b02ddd2,0x1b594d59,0x1b7bffd3,0x1befe12e,0x1c82e4cd,0x1d492478,0x1de132a5,0x1e578b3c,0x1ed96855,0x1f222896,0x1fea0da6]
GTD = (2 << 5)*29*1000000
GTS = 1539806400
db = json.load(open(OUT)) if os.path.exists(OUT) else {}
def save():
    tmp = OUT+'.tmp'; json.dump(db, open(tmp,'w'), indent=1, sort_keys=True); os.replace(tmp, OUT)
def prevnonces(seed):
    # synthetic predecessor: 42 ascending nonces whose proof has a nonzero difficulty
    i = 0
    while True:
        ns = sorted({int.from_bytes(b2(b'%d/%d/%d' % (seed, i, j))[:4], 'big') & 0x1fffffff for j in range(42)})
        if len(ns) == 42 and 3 <= diff(b'\x1d'+pack(29, ns)) <= 1000: return ns
        i += 1
def job(name, height, version, ts, prev, td, eb=29, scaling=1000, extra=None):
    if callable(prev): prev = prev()
    if callable(td): td = td()
    if name in db: return
    f = lambda s: b2((name+s).encode())
    pre = struct.pack('>HQq', version, height, ts) + prev + f('pr') + f('ur') + f('rr') + f('kr') + bytes(32) \
        + struct.pack('>QQQI', (2*height+3) & (2**64-1), height+2, td, scaling)
    p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    nonce = 0; t0 = time.time()
    while True:
        k = struct.unpack('<4Q', b2(pre + struct.pack('>Q', nonce)))
        p.stdin.write('%d %x %x %x %x\n' % ((eb,)+k)); p.stdin.flush()
        r = p.stdout.readline().split()
        if r[0] == 'SOL': break
        nonce += 1
    p.stdin.close(); p.wait()
    ns = list(map(int, r[1:]))
    hdr = pre + struct.pack('>Q', nonce) + bytes([eb]) + pack(eb, ns)
    db[name] = dict(hex=hdr.hex(), height=height, version=version, ts=ts, td=td, edgebits=eb, scaling=scaling, **(extra or {}))
    save(); print(name, nonce, round(time.time()-t0), flush=True)
def hh(name):
    raw = bytes.fromhex(db[name]['hex']); n = (42*db[name]['edgebits']+7)//8
    return b2(raw[-n:])
def nexttd(name):
    raw = bytes.fromhex(db[name]['hex']); n = (42*db[name]['edgebits']+7)//8
    return db[name]['td'] + diff(raw[-n-1:])
T = GTS
for eb in (12, 16, 20, 24, 28): job('small%d' % eb, 70000, 1, T, b2(b'x'), GTD, eb=eb, scaling=1)
job('b1', 1, 1, T+60, b2(pack(29, G4)), GTD+diff(b'\x1d'+pack(29, G4)))
job('b2', 2, 1, T+120, lambda: hh('b1'), lambda: nexttd('b1'))
job('b3', 3, 1, T+180, lambda: hh('b2'), lambda: nexttd('b2'))
for h in (72, 71, 70, 73, 200):
    ns = prevnonces(h)
    job('w%d' % h, h, 1, T+60*h, b2(pack(29, ns)), 10**9+diff(b'\x1d'+pack(29, ns)), extra=dict(prev_nonces=ns, prev_td=10**9))
for h, v in ((95000,2),(95000,1),(94999,1),(94999,2),(249999,2),(250000,3),(250000,2),(249999,3),(499999,3),(500000,3),(0,1),(500000,4),(65930,0),(499999,4),(1<<63,3)):
    job('v%d_%d' % (v, h), h, v, T+60*min(h, 10**7), b2(b'x'), GTD)
job('tmax', 70000, 1, 2**63-1, b2(b'x'), GTD)
job('t3000', 70000, 1, 32503680000, b2(b'x'), GTD)
job('tneg', 70000, 1, -1, b2(b'x'), GTD)
job('p30_1', 70000, 1, T, b2(b'x'), GTD, eb=30, scaling=1)
job('p30_2', 70000, 1, T, b2(b'x'), GTD, eb=30, scaling=2)
job('p30_0', 70000, 1, T, b2(b'x'), GTD, eb=30, scaling=0)
job('s29_0', 70000, 1, T, b2(b'x'), GTD, scaling=0)
job('b4', 4, 1, T+240, lambda: hh('b3'), lambda: nexttd('b3'))
print('done')
