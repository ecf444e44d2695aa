"""Inverse depth: all codes, lattice and random depths, scalars against images, legacy 8-bit data."""
import numpy as np
from common import *
from sumo.geometry import inverse_depth as D

NEARS = [(3, 10), (1, 2), (1, 1), (1, 4), (5, 8), (7, 64), (1, 10), (2, 1)]


def shape(k):
    n = len(k)
    for h in (7, 5, 3, 2):
        if n % h == 0 and n > h:
            return (h, n // h)
    return (1, n)


def img(f, vals, dt, near):
    a = np.array(vals, dtype=dt).reshape(shape(vals))
    keep = a.copy()
    o = np.asarray(f(a, near))
    return o, np.array_equal(keep, a)


def same(o, vals):
    return bool(o.shape == shape(vals) and np.allclose(o.reshape(-1), np.array(vals, dtype=o.dtype), rtol=3e-7, atol=0))


def decode(codes, p, q, mx):
    near = p / q
    dec, enc, im, dt = ((D.depth_of_inverse_depth, D.inverse_depth_of_depth, D.depth_image_of_inverse_depth_map, np.uint16) if mx == 65535 else
                        (D.depth_of_uint8_inverse_depth, D.uint8_inverse_depth_of_depth, D.depth_image_of_uint8_inverse_depth_map, np.uint8))
    dep = [dec(c, near) for c in codes]
    o, keep = img(im, codes, dt, near)
    k = max(1, min(20000, 19 * 10 ** 8 // (p * mx)))
    up = [d for _, d in sorted(zip(codes, dep), reverse=True)]
    log.ev("decode", p=p, q=q, max=mx, k=k, codes=codes, depth=[fx(d, q * k) for d in dep],
           again=[int(enc(d, near)) for d in dep], image_same=keep and same(o, dep),
           order=[fx(d, q * k) for d in up])


def encode(ns, m, p, q, mx):
    near = p / q
    enc, im = ((D.inverse_depth_of_depth, D.inverse_depth_map_of_depth_image) if mx == 65535 else
               (D.uint8_inverse_depth_of_depth, D.uint8_inverse_depth_map_of_depth_image))
    ds = [np.float32(n / m) for n in ns]
    codes = [int(enc(d, near)) for d in ds]
    o, keep = img(im, ds, np.float32, near)
    log.ev("encode", p=p, q=q, max=mx, m=m, n=ns, codes=codes, image_same=same(o, codes), same=keep,
           exact=q & (q - 1) == 0)


def mono(p, q, mx):
    near = p / q
    enc = D.inverse_depth_of_depth if mx == 65535 else D.uint8_inverse_depth_of_depth
    n32 = np.float32(near)
    ds = {np.float32(rnd.uniform(0, 2) * near) for _ in range(60)} | {np.float32(near * 10 ** rnd.uniform(-6, 7)) for _ in range(80)}
    for _ in range(40):
        c = rnd.randrange(1, mx + 1)
        b = np.float32(near * mx / (c - 0.5))
        ds |= {b, np.nextafter(b, np.float32(0)), np.nextafter(b, np.float32(1e30))}
    ds |= {n32, np.nextafter(n32, np.float32(0)), np.nextafter(n32, np.float32(9)), np.float32(1e-30), np.float32(3e38), np.float32(np.inf)}
    ds = sorted(x for x in ds if x > 0)
    log.ev("mono", max=mx, codes=[int(enc(d, near)) for d in ds], atnear=[bool(d <= n32) for d in ds],
           far=int(enc(float("inf"), near)), zero=int(enc(0.0, near)))


def legacy(p, q):
    near = p / q
    codes = list(range(256))
    outs = [int(D.inverse_depth_from_uint8(c, near)) for c in codes]
    o, keep = img(D.uint16_of_uint8_inverse_depth_map, codes, np.uint8, near)
    log.ev("legacy", p=p, q=q, codes=codes, out=outs, image_same=keep and same(o, outs))
    if (p, q) == (3, 10):
        outs = [int(D.inverse_depth_from_uint8(c)) for c in codes]
        o = np.asarray(D.uint16_of_uint8_inverse_depth_map(np.array(codes, dtype=np.uint8).reshape(shape(codes))))
        log.ev("legacy", p=p, q=q, codes=codes, out=outs, image_same=same(o, outs))


nears = NEARS[:2] if not THOROUGH else NEARS
for p, q in nears:                                   # every 16-bit code
    for lo in range(0, 65536, 512):
        decode(list(range(lo, lo + 512)), p, q, 65535)
for p, q in NEARS:
    decode([0, 65535] + [rnd.randrange(65536) for _ in range(200)], p, q, 65535)
    decode(list(range(256)), p, q, 255)
    legacy(p, q)
    for mx in (255, 65535):
        for _ in range(IN["n"]):
            m = rnd.choice([64, 8, 1])
            near_n = p * m // q
            top = min(10 ** 8 // (q * 3), [m * 3, m * 40, m * 100000, near_n * 300 + 1][rnd.randrange(4)])
            ns = [0, 1, near_n, near_n + 1, max(near_n - 1, 0)] + [rnd.randrange(top + 1) for _ in range(60)]
            ns = [n for n in ns if n <= 2 ** 24]
            encode(ns, m, p, q, mx)
            mono(p, q, mx)
# the default near plane
codes = [0, 1, 2, 3, 255, 256, 65534, 65535]
log.ev("decode", p=3, q=10, max=65535, k=9000, codes=codes, depth=[fx(D.depth_of_inverse_depth(c), 90000) for c in codes],
       again=[int(D.inverse_depth_of_depth(D.depth_of_inverse_depth(c))) for c in codes], order=[],
       image_same=same(np.asarray(D.depth_image_of_inverse_depth_map(np.array([codes], np.uint16))), [D.depth_of_inverse_depth(c) for c in codes])
       if shape(codes)[0] == 1 else bool(np.array_equal(np.asarray(D.depth_image_of_inverse_depth_map(np.array([codes], np.uint16)))[0], np.array([D.depth_of_inverse_depth(c) for c in codes], np.float32))))
