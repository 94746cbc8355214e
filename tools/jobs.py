"""Which harness runs with which parameters decide which property (see DESIGN.md for the meaning of the parameters)."""
import itertools

CODES = {16: (16, 8), 32: (32, 16), 64: (64, 32), 128: (64, 32), 256: (256, 128), 512: (256, 128)}


def code(cap):
    """(bytes per codeword, message bytes per codeword) of a capacity, or None"""
    return (1024, 512) if cap >= 1024 else CODES.get(cap)


def capacity(r, c, l):
    return (r >> l) * (c >> l) // 8


def fitting(cap, extra=4):
    """(smallest, greatest) payload whose codewords occupy the whole capacity, (0, greatest) without a code"""
    k = code(cap)
    if not k:
        return 0, cap - extra
    words = cap // k[0]
    return max(0, (words - 1) * k[1] - extra + 1), words * k[1] - extra


def e01(tier):
    j = []
    small = [(16, 18, 1), (24, 14, 1), (18, 16, 1), (16, 24, 1), (24, 16, 1), (18, 18, 1), (22, 26, 1), (14, 40, 1), (16, 32, 1), (32, 16, 1),
             (32, 32, 1), (64, 32, 1), (32, 64, 2), (64, 16, 1), (40, 36, 2), (36, 40, 2), (64, 128, 3), (128, 64, 3), (72, 72, 3), (144, 64, 3), (64, 64, 1),
             (128, 128, 2), (96, 16, 1), (176, 144, 4)]
    large = [(64, 128, 1), (128, 64, 1), (128, 128, 1), (256, 256, 3), (192, 192, 3), (208, 264, 3), (256, 512, 3), (144, 192, 1), (192, 144, 1), (160, 200, 1), (128, 256, 1), (256, 256, 1)]
    if tier == 'thorough':
        large += [(512, 256, 3), (256, 128, 1), (336, 400, 1), (512, 512, 3), (640, 480, 3), (480, 640, 3), (208, 208, 4), (288, 240, 4)]
    for n, (r, c, l) in enumerate(small + large):
        lo, hi = fitting(capacity(r, c, l))
        depths = [[], [8, 33.3, 160], [16, 50, 400], [32, 100, 37.7, 800], [64, 150, 321]][l]
        big = r * c > 6000
        ns = sorted({0, lo, hi}) if big else sorted({0, lo // 3, lo, (lo + hi) // 2, hi})
        if (r, c) == (144, 192): ns += [254, 255, 256, 257, 512]
        for i, p in enumerate(ns):
            for d in (depths if tier == 'thorough' and not big else [depths[(n + i) % len(depths)]]):
                j.append(('e01_roundtrip', [r, c, l, int(d * 1000), p]))
    for (r, c, l) in small:
        lo, hi = fitting(capacity(r, c, l))
        for p in [hi + 1] + ([hi + 7, hi + 100] if r * c < 2000 else []):
            j.append(('e01_refuse', [r, c, l, 50000, p]))
    return j


def e02(tier):
    j = []
    sizes = [(16, 18, 1), (16, 24, 1), (24, 16, 1), (18, 18, 1), (22, 26, 1), (16, 32, 1), (32, 32, 1), (40, 36, 2), (36, 44, 2), (64, 128, 3), (72, 72, 3), (144, 64, 3), (128, 128, 2), (176, 144, 4), (144, 192, 1)]
    if tier == 'thorough':
        sizes += [(64, 128, 1), (128, 128, 1), (208, 208, 3), (256, 256, 3), (320, 200, 3), (288, 240, 4)]
    for n, (r, c, l) in enumerate(sizes):
        cap = capacity(r, c, l)
        k = code(cap)
        hi = fitting(cap)[1]
        ds = [3.2, 20, 50.5, 100, 255, 400, 1000]
        for i, p in enumerate(sorted({0, hi // 2, hi})):
            for d in ([ds[(n + 2 * i) % 7], ds[(n + 2 * i + 3) % 7]] if r * c < 10000 else [ds[(n + i) % 7]]):
                j.append(('e02_bounded', [r, c, l, int(d * 1000), p]))
    return j


def e03(tier):
    j = []
    sizes = [(16, 18, 1), (16, 24, 1), (24, 16, 1), (18, 18, 1), (16, 32, 1), (32, 32, 1), (40, 36, 2), (36, 44, 2), (64, 128, 3), (72, 72, 3), (176, 144, 4), (144, 192, 1)]
    if tier == 'thorough':
        sizes += [(64, 128, 1), (128, 128, 1), (208, 208, 3), (256, 256, 3)]
    for n, (r, c, l) in enumerate(sizes):
        lo, hi = fitting(capacity(r, c, l))
        for i, q in enumerate([4, 10.5, 25, 50, 70]):
            if tier != 'thorough' and (n + i) % 2 and r * c > 3000:
                continue
            d = q * (1 << l)
            k = int(q / 4 - 0.5)
            if k >= q / 4 - 0.5:
                k -= 1
            if k < 0 or 0.75 * q + 1 + k > 120:
                continue
            for p in sorted({lo // 2, lo, hi})[:3 if r * c < 3000 else 2]:
                j.append(('e03_noise', [r, c, l, int(d * 1000), p, k]))
    return j


def e04(tier):
    s = [(2, 2, 1), (8, 12, 2), (12, 8, 2), (4, 10, 1), (16, 8, 3), (8, 16, 3), (6, 2, 1), (24, 24, 3), (16, 16, 4), (32, 48, 4), (4, 64, 1), (64, 4, 2), (16, 56, 2), (8, 80, 3), (56, 8, 3), (2, 100, 1), (66, 2, 1)]
    if tier == 'thorough':
        s += [(32, 32, 5), (64, 64, 3), (48, 80, 4), (64, 64, 6), (104, 104, 3)]
    return [('e04_inverse', list(x)) for x in s]


def e05(tier):
    j = []
    for n, (r, c) in enumerate([(2, 4), (8, 12), (12, 8), (3, 16), (16, 3), (5, 5), (7, 9), (1, 24), (24, 1), (16, 16)] + ([(32, 32), (40, 20), (20, 40), (64, 64)] if tier == 'thorough' else [])):
        cap = r * c // 8
        for i, b in enumerate(sorted({0, 1, cap // 2, cap})):
            if b <= cap:
                for d in ([5, 20, 37.5, 100, 0.5] if r * c < 100 or tier == 'thorough' else [20, 250]):
                    j.append(('e05_cells', [r, c, int(d * 1000), b, 249 if d >= 1 else 240]))
    return j


def c01(tier):
    j = []
    for cap in [9, 12, 17, 40, 84, 100, 200, 300, 1000]:
        j += [('c01_roundtrip', [cap, n]) for n in sorted({0, 1, 2, 3, 5, 8, 13, cap // 2, cap - 2, cap, 255, 256, 257})]
    for cap, ns in [(16, [0, 1, 2, 5, 6, 7, 14, 15, 40]), (32, [0, 1, 13, 14, 15, 30, 31, 100]), (64, [0, 1, 29, 30, 31, 62, 63, 100]), (128, [0, 30, 31, 62, 63, 200]),
                    (256, [0, 1, 125, 126, 127, 254]), (512, [0, 126, 127, 254]), (1024, [0, 1, 510]), (2048, [0, 511]), (5000, [200])]:
        j += [('c01_roundtrip', [cap, n]) for n in ns]
    j += [('c01_roundtrip', [cap, n]) for cap in (16, 32, 64, 128, 20) for n in range(0, 70)]
    j += [('c01_roundtrip', [20, n]) for n in (1000, 4096, 20000, 65535)] + [('c01_roundtrip', [16, 600])]
    if tier == 'thorough':
        j += [('c01_roundtrip', [cap, n]) for cap in (16, 32, 64, 128, 20) for n in range(70, 300)] + [('c01_roundtrip', [256, n]) for n in range(0, 255, 7)]
        j += [('c01_roundtrip', [256, 900]), ('c01_roundtrip', [1024, 1534])]
    j += [('c01_roundtrip', [cap, n], 300) for cap, n in ((16, 30), (32, 28), (64, 61))] + ([('c01_roundtrip', [256, 125], 1500)] if tier == 'thorough' else [])
    j += [('c01_refuse', [cap, n]) for cap in (10, 16, 256, 1024) for n in (65536, 65552, 70000)]
    return j


def c02(tier):
    j = []
    step = lambda n, chunk: [(a, 1, min(chunk, n - a)) for a in range(0, n, chunk)]
    for a, s, k in step(128, 16):
        j.append(('c02_flip', [16, 4, a, s, k]))
    for a, s, k in step(256, 16):
        j.append(('c02_flip', [32, 14, a, s, k]))
    for a, s, k in step(512, 32):
        j.append(('c02_flip', [64, 20, a, s, k]))
    for n in (0, 1, 6, 7, 22):
        j.append(('c02_flip', [16, n, n, 17, 8]))
    for n in (0, 13, 15, 46):
        j.append(('c02_flip', [32, n, n, 37, 8]))
    for n in (0, 30, 31, 94):
        j.append(('c02_flip', [128, n, n, 61, 9]))
    for a in range(0, 2048, 256 if tier != 'thorough' else 32):
        j.append(('c02_flip', [256 if a % 512 else 512, 100, a, 37 if tier != 'thorough' else 1, 7 if tier != 'thorough' else 32]))
    for a in range(0, 8192, 2048 if tier != 'thorough' else 512):
        j.append(('c02_flip', [1024, 200, a, 523, 3 if tier != 'thorough' else 8]))
    return j


def c03(tier):
    j = []
    for cap in (9, 12, 20, 40, 100, 255, 300):
        for n in (0, 1, 5, 9, 30):
            for extra in (0, 1, 2, 7, 64, 300):
                j.append(('c03_trailing', [cap, n, extra, 1]))
    for cap in (16, 32, 64, 128, 256, 512):
        w, k = code(cap)
        for n in sorted({0, 1, k - 2, k - 1}):
            for extra in sorted({0, 1, 2, w // 2, w - 1, w, w + 1, 3 * w + w // 2}):
                j.append(('c03_trailing', [cap, n, extra, 1]))
            for extra in (w, 2 * w + 3):
                for kind in (0, 2, 3, 4):
                    j.append(('c03_trailing', [cap, n, extra, kind]))
    for n in (0, 510, 511) if tier == 'thorough' else (200,):
        j += [('c03_trailing', [1024, n, 100, 1]), ('c03_trailing', [1024, n, 1023, 1]), ('c03_trailing', [1024, n, 1024, 1]), ('c03_trailing', [2048, n, 1024, 0]), ('c03_trailing', [2048, n, 3100, 1])]
    return j


def s01(tier):
    j = [('s01_frame', [n, e]) for n in (0, 1, 2, 3, 7, 16, 255, 256, 257, 1000) for e in (0, 1, 2, 3, 50)]
    j += [('s01_frame', [n, e]) for n in (32767, 32768, 65279, 65280, 65534, 65535) for e in (0, 3)]
    j += [('s01_refuse', [n]) for n in (65536, 65537, 65600, 70000, 131072)]
    j += [('s01_frame', [n, 5]) for n in range(4, 300)] + [('s01_frame', [n, 5]) for n in range(300, 65536, 1777 if tier != 'thorough' else 307)]
    return j


def s02(tier):
    j = [('s02_record', [a, b, c, e, w]) for a in (0, 1, 7, 8, 9, 33, 255) for b in (0, 64) for c in (0, 12) for e in (0, 5) for w in (1,)]
    j += [('s02_record', [33, 64, n, 3, w]) for n in (1, 2, 3, 6, 50, 127, 128, 255) for w in (1, 2, 3)]
    j += [('s02_record', [a, b, c, 2, 1]) for a, b, c in ((255, 255, 255), (254, 1, 1), (1, 254, 254), (16, 255, 0), (128, 128, 128), (127, 200, 3), (240, 0, 255), (64, 3, 129))]
    if True:
        j += [('s02_record', [a, 64, 12, 1, 1]) for a in range(256)] + [('s02_record', [24, b, 12, 1, 1]) for b in range(256)] + [('s02_record', [24, 64, c, 1, 1]) for c in range(256)]
    for over in (256, 257, 300, 512):
        j += [('s02_refuse', [over, 64, 12]), ('s02_refuse', [24, over, 12]), ('s02_refuse', [24, 64, over])]
    return j


def s03(tier):
    return [('s03_bits', [n]) for n in (range(0, 300 if tier != 'thorough' else 1100))]


STEPS = [(0.25, 40000), (1, 1000), (1, 100000), (0.5, 1000000), (3, 3000), (250, 400), (0.001, 1000), (7.77, 1000), (1000, 10)]


def q01(tier):
    j = []
    for s, r in STEPS:
        for n in (1, 2, 3, 5, 8) if tier != 'thorough' else (1, 2, 3, 4, 5, 8, 11, 16):
            for noise in (990, 500, 100):
                j.append(('q01_noise', [n, round(s * 1000), r * 1000, noise]))
    j += [('q01_bytes', [n, 250, r * 1000, 990]) for n in (1, 3, 11) for r in (40, 4000)]
    j += [('q01_noise', [0, 1000, 1000000, 990]), ('q01_noise', [11, 1000, 1000000, 990]), ('q01_noise', [16, 250, 40000000, 990])]
    return j


def q02(tier):
    j = []
    for s, r in STEPS:
        for n in (1, 2, 3, 5, 8, 11) if tier != 'thorough' else (1, 2, 3, 5, 8, 11, 16):
            j.append(('q02_floor', [n, round(s * 1000), r * 1000]))
    return j + [('q02_floor', [0, 1000, 1000000]), ('q02_floor', [11, 1000, 1000000])]


def q03(tier):
    j = []
    for s, r in STEPS:
        for n in (1, 2, 3, 5) if tier != 'thorough' else (1, 2, 3, 5, 8):
            for sign in (1000, -1000):
                for hi in (3000, 9000, 100000):
                    j.append(('q03_far', [n, round(s * 1000), r * 1000, 2001, hi, sign]))
    return j


def pairs(order):
    return [m for m in range(order % 2, order + 1, 2)]


def z01(tier):
    j = []
    for d in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12):
        for o in (0, 1, 2, 3, 4, 5, 7, 8, 11, 13) if tier != 'thorough' else range(0, 16):
            for m in pairs(o):
                if d <= 6 or (o + m + d) % 3 == 0 or tier == 'thorough':
                    j.append(('z01_turns', [d, o, m]))
    j += [('z01_turns', [16, 21, m]) for m in (1, 11, 21)]
    j += [('z01_magnitudes', [r, c, n]) for r, c, n in ((8, 8, 3), (6, 10, 3), (8, 8, 6), (4, 4, 1), (12, 7, 2))]
    return j


def z02(tier):
    j = [('z02_features', [r, c, n]) for r, c in ((2, 2), (3, 3), (4, 4), (8, 8), (6, 10), (10, 6), (12, 5), (3, 16), (7, 7), (11, 4)) for n in (1, 2, 3, 5, 11)]
    j += [('z02_features', [r, c, n]) for r, c, n in ((8, 8, 8), (8, 8, 11), (16, 16, 11), (7, 9, 11), (24, 24, 4))]
    if tier == 'thorough':
        j += [('z02_features', [r, c, n]) for r, c in ((5, 5), (16, 16), (9, 20), (32, 32)) for n in range(1, 12)]
    return j


def z03(tier):
    j = []
    for r, c in ((2, 2), (3, 3), (4, 4), (8, 8), (6, 9), (9, 6), (5, 12), (12, 3), (2, 9), (7, 7), (10, 4), (11, 11)):
        for o in (0, 1, 2, 3, 4, 5, 7, 9, 12) if tier != 'thorough' else range(0, 18):
            for m in pairs(o):
                if r * c < 20 or (o + m + r) % 3 == 0 or tier == 'thorough':
                    j.append(('z03_linear', [r, c, o, m]))
    j += [('z03_linear', [8, 8, 21, m]) for m in (1, 3, 11, 21)] + [('z03_linear', [16, 16, 7, 3]), ('z03_linear', [24, 16, 5, 1])]
    return j


def z04(tier):
    j = []
    for d in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16):
        for o in range(0, 13) if tier != 'thorough' else range(0, 22):
            for m in pairs(o):
                if d <= 9 or (o + m) % 5 == 0 or tier == 'thorough':
                    j.append(('z04_basis', [d, o, m, 0]))
        j += [('z04_basis', [d, 5, 3, 1]), ('z04_basis', [d, 4, 2, 1])]
    j += [('z04_basis', [8, o, m, 0]) for o in (15, 17, 19, 21) for m in (1, 5, o)] + [('z04_basis', [32, 21, 1, 0]), ('z04_basis', [31, 9, 5, 0])]
    return j


def g01(tier):
    j = []
    for n in (0, 1, 2, 8, 31, 32, 33, 64, 88, 200):
        j += [('g01_accept', [n]), ('g01_signature', [n]), ('g01_key', [n])]
        j += [('g01_message', [n, m]) for m in sorted({0, n, n + 1, max(0, n - 1), 2 * n + 8})if n + m > 0]
    return j


def w01(tier):
    q = [([208, 208, 20000, 1000, 1, 1], 300), ([208, 208, 100000, 1000, 2, 2], 300), ([208, 208, 20000, 500, 1, 3], 500), ([216, 200, 60000, 1000, 1, 4], 500), ([200, 216, 20000, 1000, 1, 3], 500), ([168, 256, 32000, 250, 1, 1], 300)]
    if tier == 'thorough':
        q += [([256, 168, 100000, 1000, 2, k], 900) for k in (1, 2, 3, 4)] + [([224, 224, 50000, 1000, 4, k], 900) for k in (1, 4)] + [([512, 256, 100000, 1000, 11, 1], 1500)]
    return [('w01_image', p, t) for p, t in q]


def w02(tier):
    q = [[512, 256, 20000, 250000, 3, -990, 990, 1000, 1, 3], [512, 256, 100000, 250000, 3, 2010, 4000, 1000, 0, 1],
         [208, 208, 20000, 250000, 1, -990, 990, 1000, 1, 1], [224, 224, 20000, 250000, 4, -990, 990, 1000, 1, 4], [224, 200, 100000, 1000, 2, -990, 990, 1000, 1, 2], [200, 224, 32000, 1000, 3, -500, 500, 1000, 1, 3],
         [224, 224, 20000, 1000, 10, -990, 990, 1000, 1, 10],
         [320, 240, 30000, 1000, 11, -990, 990, 1000, 1, 11], [320, 240, 30000, 1000, 11, 2010, 9000, 1000, 0, 5],
         [208, 208, 20000, 250000, 1, 2010, 3000, 1000, 0, 0], [208, 208, 20000, 250000, 1, 2010, 3000, -1000, 0, 1], [224, 224, 20000, 1000, 4, 2010, 5000, 1000, 0, 4],
         [200, 224, 100000, 500, 2, 2010, 5000, -1000, 0, 0], [224, 224, 20000, 1000, 3, 2010, 30000, -1000, 0, 2], [224, 224, 20000, 1000, 10, 2010, 5000, 1000, 0, 9], [224, 224, 20000, 1000, 10, 2010, 5000, -1000, 0, 0]]
    if tier == 'thorough':
        q += [[512, 512, 30000, 1000, 11, -990, 990, 1000, 1, 11], [512, 512, 30000, 1000, 11, 2010, 9000, -1000, 0, 10], [640, 480, 30000, 1000, 11, -990, 990, 1000, 1, 11]]
        q += [[256, 512, 100000, 250000, 3, -990, 990, 1000, 1, 3], [256, 512, 100000, 1000, 11, 2010, 4000, -1000, 0, 10], [168, 256, 20000, 250, 1, -990, 990, 1000, 1, 1], [256, 168, 20000, 250, 1, -990, 990, 1000, 1, 1],
              [240, 240, 20000, 1000, 11, -990, 990, 1000, 1, 11]]
        q += [[224, 224, 20000, 1000, 8, 2010, 6000, s, 0, i] for i in range(8) for s in (1000, -1000)]
    return [('w02_channel', p, 600) for p in q]


def b01(tier):
    ns = list(range(0, 13)) + [20, 33, 64, 100] + (list(range(13, 64)) if tier == 'thorough' else [])
    return [('b01_u16', [n]) for n in ns] + [('b01_i64', [n]) for n in ns]


def b02(tier):
    j = [('b02_hex', [n]) for n in (tuple(range(0, 34)) + (48, 63, 64, 65, 100) if tier != 'thorough' else list(range(0, 130)))]
    j += [('b02_any', [n, 1], 300) for n in list(range(0, 13)) + [16, 32, 64]] + [('b02_any', [n, 2], 300) for n in (2, 3, 4, 5, 6, 7, 8)] + [('b02_any', [n, 3], 300) for n in (3, 4, 5, 6, 7, 8)]
    if tier == 'thorough':
        j += [('b02_any', [n, 1], 900) for n in (24, 63, 65, 128)] + [('b02_any', [n, w], 900) for n in (10, 12, 16) for w in (2, 3)]
    return j


def r01(tier):
    j = []
    for a, b in ((0, 1), (0, 1000), (-7000, 13000), (-1000000, 1), (5000, 5000), (-3, -1), (1000000000, 2000000000), (-2000, 5000), (999, 1000)):
        for n in (1, 3, 20, 60) if tier != 'thorough' else (1, 2, 3, 5, 20, 100, 400):
            j.append(('r01_range', [n, a, b]))
    return j


def d01(tier):
    big = tier == 'thorough'
    j = [('d01_uncoded', x) for x in ([9, 0], [9, 1], [9, 2], [9, 3], [9, 9], [9, 20], [20, 60], [100, 90])]
    j += [('d01_coded', x) for x in ([16, 1, 0], [16, 0, 0], [16, 0, 5], [16, 2, 3], [32, 1, 0], [32, 0, 31])]
    j += [('d01_coded', [64, 1, 0], 300)] + ([('d01_coded', x, 900) for x in ([16, 3, 15], [32, 2, 0], [64, 1, 40])] if big else [])
    j += [('d01_any', [cap, n], 300) for cap, w in ((16, 16), (32, 32), (64, 64), (128, 64), (256, 256)) for n in sorted({0, 1, w - 1, w, w + 1, 2 * w, 3 * w + 5 if w < 200 else w + 9})] + ([('d01_any', [1024, 1024], 600), ('d01_any', [1024, 1023]), ('d01_any', [512, 700], 600)] if big else [])
    j += [('d01_frame', [n]) for n in (0, 1, 2, 3, 12, 60)] + [('d01_frame', [300], 600)]
    j += [('d01_recover', x) for x in ([0, 9], [3, 0], [3, 1], [3, 7], [2, 12], [3, 9], [1, 255])]
    j += [('d01_record', x, 600) for x in ([0, 0, 256], [1, 0, 256], [2, 0, 256], [3, 0, 256], [4, 0, 256], [6, 0, 256], [5, 0, 0], [7, 0, 17], [9, 0, 1], [12, 0, 0], [12, 0, 255])]
    j += [('d01_record', x, 600) for x in ([8, 1, 3, 2, 2], [8, 1, 9, 1, 200], [6, 1, 0, 0, 2], [6, 1, 0, 1, 255], [7, 1, 200, 1, 1], [12, 1, 0, 255, 255], [60, 1, 33, 64, 12])]
    if big:
        j += [('d01_record', x, 900) for x in ([8, 0, 256], [12, 0, 256], [30, 0, 33], [7, 1, 0, 0, 3], [7, 1, 0, 0, 4])]
    j += [('d01_verify', x) for x in ([8, 0], [8, 10], [8, 63], [8, 64], [8, 65], [0, 64], [88, 255])]
    return j


def a01(tier):
    c = [72, 64, 100000, 1000, 4, 28, 22]
    q = [('a01_unmarked', c + [8, 4, v], 300) for v in (0, 7, 33, 255)] + [('a01_unmarked', c + [16, 4, 263], 300), ('a01_unmarked', c + [24, 2, 1], 300)]
    q += [('a01_unmarked', [64, 72, 100000, 250, 1, 28, 22, 8, 4, 3], 300)]
    q += [('a01_any', [64, 128, 100000, 1000, 1], 600), ('a01_any', [128, 64, 20000, 1000, 1], 600)]
    forged = [[208, 208, 20000, 1000, 2, 6, 64, 12], [208, 216, 100000, 250000, 4, 0, 64, 12], [256, 240, 20000, 1000, 3, 255, 64, 0], [168, 256, 32000, 500, 11, 33, 63, 5], [200, 200, 20000, 1000, 2, 6, 0, 0]]
    moved = [[208, 208, 20000, 1000, 2, 1000, 1], [208, 208, 20000, 250000, 1, -1000, 0], [200, 224, 60000, 1000, 4, 1000, 2], [224, 224, 20000, 500, 8, -1000, 7]]
    if tier == 'thorough':
        q += [('a01_unmarked', c + [8, 4, v], 900) for v in (1, 2, 3, 8, 9, 16, 24, 64, 128)] + [('a01_unmarked', [80, 64] + c[2:] + [8, 4, 9], 900)]
        forged += [[240, 256, 20000, 1000, 3, pb, 64, 12] for pb in (1, 8, 9, 10, 33)] + [[512, 256, 20000, 1000, 11, 33, 64, 12]]
        moved += [[240, 256, 20000, 1000, 11, s, i] for i in (0, 5, 10) for s in (1000, -1000)]
    return q + [('a01_forged', x, 600) for x in forged] + [('a01_transplanted', x, 600) for x in moved]


JOBS = {f.__name__.upper(): f for f in (e01, e02, e03, e04, e05, c01, c02, c03, s01, s02, s03, q01, q02, q03, z01, z02, z03, z04, g01, w01, w02, b01, b02, r01, d01, a01)}


def jobs(prop, tier):
    return [(x[0], x[1], x[2] if len(x) > 2 else 120) for x in JOBS[prop](tier)]


if __name__ == '__main__':
    for p in JOBS:
        print(p, len(jobs(p, 'quick')), len(jobs(p, 'thorough')))
