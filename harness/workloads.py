"""Invocations that exercise each property. A workload returns a Load: the runs to be recorded, and the
groups of runs that the specification relates to each other. It decides nothing."""
import ipaddress, itertools, json, os, shutil
import common
from gen import *


class Load:
    def __init__(self, gen, record, models):
        self.g = gen
        self.record = record      # [(args, colour)] -> recorded runs
        self.models = models      # behaviours of the bounded models, by name
        self.jobs = []            # (args, colour, which lines to keep)
        self.groups = []          # (kind, clause, [job numbers], more)

    def add(self, args, col=0, keep=None):
        self.jobs.append((list(args), col, keep))
        return len(self.jobs) - 1

    def same(self, clause, argss, cols=None):
        """Runs that request the same thing: their outputs must be the same."""
        ids = [self.add(a, cols[i] if cols else 0) for i, a in enumerate(argss)]
        self.groups.append(("same", clause, ids, {}))


def shuffled(g, x):
    x = list(x)
    g.r.shuffle(x)
    return x


# ---- the default report ------------------------------------------------------

def nets_of_masks(g, f, masks):
    return [g.net_text(f, g.addr(f), m) for m in masks]


def cidr_byte_masks(g, f, count):
    """Masks made of contiguous-mask bytes in any order: where contiguity is decided byte by byte."""
    w = BITS[f] // 8
    res = []
    for _ in range(count):
        k = g.r.randrange(3)
        if k == 0:
            bs = [g.r.choice(CIDR_BYTES) for _ in range(w)]
        else:       # ones, then something, then zeros, with at most two deviations
            p = g.r.randrange(w + 1)
            bs = [255] * p + [0] * (w - p)
            for _ in range(k):
                bs[g.r.randrange(w)] = g.r.choice(CIDR_BYTES)
        res.append(int.from_bytes(bytes(bs), "big"))
    return res


def single_byte_masks(g, f, values):
    """Every byte value at every byte position between ones and zeros (or zeros and ones)."""
    w = BITS[f] // 8
    for i in range(w):
        for v in values:
            yield int.from_bytes(bytes([255] * i + [v] + [0] * (w - i - 1)), "big")
            if g.thorough:
                yield int.from_bytes(bytes([0] * i + [v] + [255] * (w - i - 1)), "big")


def show_nets(L, nets, size=8, col=0):
    for b in L.g.batches(nets, size):
        L.add(b, col)


def c01(L):
    g = L.g
    for f in (4, 6):
        nets = []
        for p in range(BITS[f] + 1):
            for a in [g.addr(f) for _ in range(g.n(4 if f == 4 else 1, 12 if f == 4 else 4))] + g.r.sample([0, full(f)], 1):
                nets.append("%s/%d" % (txt(f, a), p))
        if f == 4:
            nets += nets_of_masks(g, f, single_byte_masks(g, f, range(256)))
        else:
            nets += nets_of_masks(g, f, single_byte_masks(g, f, g.r.sample(range(256), g.n(8, 64))))
        nets += nets_of_masks(g, f, cidr_byte_masks(g, f, g.n(600 if f == 4 else 120, 6561 if f == 4 else 1200)))
        nets += [g.net(f) for _ in range(g.n(500 if f == 4 else 200, 6000 if f == 4 else 2000))]
        # one or two host bits anywhere; host bits on both sides of every boundary
        for i in range(BITS[f]):
            if g.thorough or f == 4 or g.r.randrange(2):
                nets.append(g.net_text(f, g.addr(f), full(f) ^ (1 << i)))
                nets.append(g.net_text(f, g.addr(f), full(f) ^ (1 << i) ^ (1 << g.r.randrange(BITS[f]))))
        show_nets(L, shuffled(g, nets))
    for b in sample(g, L.models["facts"], g.n(150, 1000)):
        L.add([embed_net(g, b["n"])])


def c15(L):
    g = L.g
    for _ in range(g.n(260, 2500)):
        k = g.r.choice([1, 1, 2, 2, 3, 4, 6])
        L.add([g.net(g.r.choice((4, 4, 6))) for _ in range(k)])
    for f in (4, 6):        # every width of address text, hosts and broadcast present and absent
        w = BITS[f]
        for p in (w, w - 1, w - 2, w - 3, w // 2, 0, 1):
            for a in (0, full(f), 1, full(f) ^ 1, int("01" * (w // 2), 2), int("10" * (w // 2), 2)):
                L.add(["%s/%d" % (txt(f, a), p), "%s/%d" % (txt(f, a), g.prefix(f))])
        for i in range(w):      # every bit of the binary column
            L.add(["%s/%d" % (txt(f, 1 << i), g.prefix(f)), g.net_text(f, full(f) ^ (1 << i), g.mask(f))])
    L.add([g.net(4) for _ in range(60)])
    L.add([g.net(g.family()) for _ in range(30)])
    L.add([g.net(4) for _ in range(260)])       # a counter of 8 bits wraps
    for n in (5, 7, 9, 10, 12, 16, 17, 20, 33, g.n(70, 300)):    # the same ones again, next to each other or not
        few = [g.net(g.r.choice((4, 4, 6))) for _ in range(max(2, n // 3))]
        L.add(g.r.choices(few, k=n))
    for _ in range(g.n(40, 400)):       # the same address or network address with other masks, the same mask with other addresses
        f = g.family()
        w = BITS[f]
        a, m = g.addr(f), g.lopsided(f)
        ms = [m, m ^ 1 << g.r.randrange(w), m ^ 1 << g.r.randrange(w), g.mask(f)]
        some = [(a, x) for x in ms] + [(a & m & x, x) for x in ms] + [(a ^ 1 << g.r.randrange(w), m), (a & m, m), (a & ms[1] & m, m), (a & ms[1] & m, ms[1])]
        L.add([g.net_text(f, *x) for x in g.r.sample(some, g.r.randrange(2, 6))])
    for _ in range(g.n(12, 100)):
        x, y = g.net(4), g.net(g.family())
        L.add(g.r.choice([[x, x], [x, y, x], [x, x, y], [x, y, y], [x, y, x, y]]))
    for _ in range(g.n(40, 400)):
        L.add(resize_args(g, g.family()))
        L.add(split_args(g, g.family()))


def c16(L):
    g = L.g
    nets = []
    for top in range(32):               # leading address bits x leading mask bits
        for mtop in range(32):
            a = (top << 27) | g.r.getrandbits(27)
            low = g.r.choice([0, g.r.getrandbits(27), (1 << 27) - 1 - 3 * (1 << g.r.randrange(26))])
            nets.append(g.net_text(4, a, (mtop << 27) | low))
    for p in range(33):
        for o in (0, 1, 126, 127, 128, 129, 191, 192, 223, 224, 239, 240, 247, 248, 255):
            nets.append("%s/%d" % (dotted((o << 24) | g.r.getrandbits(24)), p))
            if g.thorough:
                nets.append(g.net_text(4, (o << 24) | g.r.getrandbits(24), g.lopsided(4)))
    for o in range(256):                # every first octet, with masks of every kind
        nets.append(g.net_text(4, (o << 24) | g.addr(4) >> 8, g.mask(4)))
        nets.append(g.net_text(4, (o << 24) | g.addr(4) >> 8, (g.r.randrange(256) << 24) | g.r.getrandbits(22)))
    for _ in range(g.n(200, 4000)):
        nets.append(g.net(4))
    for i in range(32):                 # one or two host bits, wherever they are
        for _ in range(g.n(2, 12)):
            m = full(4) ^ (1 << i) ^ (1 << g.r.randrange(32) if g.r.randrange(2) else 0)
            nets.append(g.net_text(4, (g.r.randrange(32) << 27) | g.r.getrandbits(27), m))
    for b in sample(g, L.models["report"], g.n(120, 2000)):
        nets.append(embed_top(g, b["n"]))
    for top in range(16):
        nets += ["%s/%d" % (colons((top << 124) | g.r.getrandbits(124)), p) for p in g.r.sample(range(129), g.n(3, 20))]
    show_nets(L, shuffled(g, nets), 10)
    # the class in the blocks of other modes
    for top in range(16):
        for p in (4, 5, 8, 24):
            L.add(["-r", "%s/%d" % (dotted(top << 28 | g.r.getrandbits(28)), p), str(max(0, p + g.r.choice([-2, -1, 1, 2])))])
    for p in range(33):
        for top in g.r.sample(range(16), g.n(4, 16)):
            a = dotted(top << 28 | g.r.getrandbits(28))
            L.add(["-r", "%s/%d" % (a, p), str(min(32, max(0, p + g.r.choice([-1, 0, 1, 2]))))])
            L.add(["-s", "%s/%d" % (a, p)] + g.r.choice([["1"], ["2"], ["0", "2"], ["2", "1"], ["6", "3", "2"], [str(max(0, (1 << (32 - p)) // 2 - 2))]]))
        m = g.mask(4)
        L.add(["-r", g.net_text(4, g.r.getrandbits(32), m), g.mask_text(4, m ^ (1 << g.r.randrange(32)))])
    for p in (0, 1, 2, 3, 4):
        L.add(["-s", "%s/%d" % (dotted(g.r.getrandbits(32)), p)] + [str(2 ** g.r.randrange(20, 28)) for _ in range(3)])
        L.add(["-r", "%s/%d" % (dotted(g.r.getrandbits(32)), p), str(p + 5)])


# ---- derange -------------------------------------------------------------------

def range_ends(g, f):
    """Two ends of a range."""
    w, r = BITS[f], g.r
    k = r.randrange(8)
    if k < 2:
        return g.addr(f), g.addr(f)
    if k == 2:      # one block, or one short of or beyond a block
        p = r.randrange(w + 1)
        m = pmask(f, p)
        a = g.addr(f) & m
        b = a | (full(f) ^ m)
        return max(0, a + r.choice([-1, 0, 0, 1])), min(full(f), b + r.choice([-1, 0, 0, 1]))
    if k == 3:      # near the end of the space
        return full(f) - (g.r.getrandbits(r.randrange(1, w)) if r.randrange(3) else g.r.randrange(4)), full(f) - r.choice([0, 0, 0, 1, 2])
    if k == 4:      # from the start
        return r.choice([0, 0, 1]), g.addr(f)
    if k == 5:      # short
        a = g.addr(f)
        return a, min(full(f), a + r.randrange(20))
    if k == 6:      # across a boundary
        b = r.choice([8 * r.randrange(1, w // 8), w // 2])
        c = (g.r.getrandbits(w) >> b << b)
        return max(0, c - r.randrange(1, 300)), min(full(f), c + r.randrange(300))
    a = g.addr(f)
    return a, a


def c08(L):
    g = L.g
    for f in (4, 6):
        for _ in range(g.n(500 if f == 4 else 130, 6000 if f == 4 else 1500)):
            a, b = range_ends(g, f)
            L.add([g.r.choice(["-d", "--derange"])] + g.r.choice([[txt(f, a), txt(f, b)], [txt(f, b), txt(f, a)]]))
        for p in range(BITS[f] + 1):        # exactly one block of every size, somewhere, first and last
            m = pmask(f, p)
            a = g.r.choice([g.addr(f) & m, 0, m])
            L.add(["-d", txt(f, a), txt(f, a | (full(f) ^ m))])
        for k in range(BITS[f] + 1):        # from the first address, up to the last one
            L.add(["-d", "0.0.0.0" if f == 4 else "::", txt(f, (1 << k) - 1)])
            if f == 4 or g.thorough or g.r.randrange(6) == 0:
                L.add(["-d", txt(f, min(full(f), 1 << k)), txt(f, full(f))])
                L.add(["-d", txt(f, full(f)), txt(f, full(f) ^ ((1 << k) - 1))])
        for _ in range(g.n(90 if f == 4 else 60, 900)):     # some zeros or ones at the end of either end
            i, j = g.r.randrange(BITS[f]), g.r.randrange(BITS[f])
            a, b = g.addr(f) >> i << i, g.addr(f) | ((1 << j) - 1)
            if g.r.randrange(2):
                top = g.r.randrange(BITS[f])
                b = (a >> top << top) | (b & ((1 << top) - 1))
            L.add(["-d", txt(f, a), txt(f, b)])
        # all sizes up to one (or from one down to a single address), that one once or a few times
        for h in range(1, BITS[f]):
            if f == 4 or g.thorough or h % 32 in (0, 31) or g.r.randrange(5) == 0:
                k = g.r.choice([1, 1, 2, 3])
                a = min(g.addr(f) >> h, (full(f) >> h) - k) << h
                L.add(["-d", txt(f, a + g.r.choice([1, 1, 2, 3]) % (1 << h)), txt(f, a + ((k + 1) << h) - 1)])
                L.add(["-d", txt(f, a), txt(f, a + (k << h) + (1 << h) - 1 - g.r.choice([1, 1, 2, 3]) % (1 << h))])
    for b in sample(g, L.models["derange"], g.n(350, 3000)):
        f, lo, hi = embed_range(g, b)
        L.add(["-d", txt(f, lo), txt(f, hi)])
    for _ in range(g.n(60, 400)):
        f = g.family()
        a, b = range_ends(g, f)
        L.same("C08.swapped", [["-d", txt(f, a), txt(f, b)], ["-d", txt(f, b), txt(f, a)]])


c09 = c08


# ---- minimize -------------------------------------------------------------------

def net_set(g, f):
    """A list of (address, mask) that has something to merge or to drop."""
    w, r = BITS[f], g.r
    k = r.randrange(12)
    if k == 0:
        return [(g.addr(f), g.mask(f)) for _ in range(r.randrange(1, 8))]
    if k >= 10:     # a pair that merges, and others in their neighbourhood
        at = g.scatter(f, r.choice([3, 4, 5]))
        base = g.r.choice([g.addr(f), full(f), 0])
        m0 = full(f) if r.randrange(2) else g.lopsided(f)
        mm = [r.randrange(2) for _ in at]
        i = r.randrange(len(at))
        mm[i] = 1
        x = [r.randrange(2) for _ in at]
        y = x[:i] + [1 - x[i]] + x[i + 1:]
        res = [(x, mm), (y, mm)]
        for _ in range(r.randrange(1, 5)):
            z = [r.randrange(2) for _ in at] if k == 10 else [x[j] if r.randrange(3) else 1 - x[j] for j in range(len(at))]
            res.append((z, [r.randrange(2) for _ in at] if r.randrange(3) else mm))
        return shuffled(g, [(place(f, base, at, v), place(f, m0, at, m)) for v, m in res])
    if k == 1:      # all subnets of a network, some missing
        p = r.randrange(w - 3)
        d = r.randrange(1, min(5, w - p) + 1)
        a = g.addr(f) & pmask(f, p)
        subs = [(a | (i << (w - p - d)), pmask(f, p + d)) for i in range(2 ** d)]
        if r.randrange(2):
            subs = r.sample(subs, r.randrange(1, len(subs) + 1))
        return shuffled(g, subs)
    if k == 2:      # networks of neighbouring sizes in a small window
        p = r.randrange(w - 5)
        a = g.addr(f) & pmask(f, p)
        res = []
        for _ in range(r.randrange(2, 12)):
            q = p + r.randrange(1, 6)
            res.append((a | (r.getrandbits(5) << (w - p - 5)), pmask(f, q)))
        return res
    if k == 3:      # the two halves of a network, and of one of them, and so on
        p = r.randrange(0, w)
        a = g.addr(f)
        res = []
        while p < w and len(res) < 12:
            res.append((a ^ (1 << (w - 1 - p)), pmask(f, p + 1)))
            p += 1
        res.append((a, pmask(f, p)))
        if r.randrange(2):
            res.pop(r.randrange(len(res)))
        return shuffled(g, res)
    if k == 4:      # lopsided ones that merge: vary bits of a common mask
        m = g.lopsided(f)
        at = [i for i in range(w) if m >> i & 1]
        if not at:
            return [(g.addr(f), m)]
        low = r.sample(at[:6] if r.randrange(2) else at, min(r.randrange(1, 4), len(at)))
        a = g.addr(f)
        res = [(a ^ sum(1 << i for i in s), m) for k in range(len(low) + 1) for s in itertools.combinations(low, k)]
        if r.randrange(2):
            res = r.sample(res, r.randrange(1, len(res) + 1))
        return shuffled(g, res)
    if k == 5:      # nested, lopsided and not
        m, a = g.mask(f), g.addr(f)
        res = [(a, m)]
        for _ in range(r.randrange(1, 5)):
            res.append((a ^ (g.bits(w) & (full(f) ^ m) if r.randrange(3) else 1 << r.randrange(w)), m | g.bits(w)))
        return shuffled(g, res)
    if k == 6:      # single addresses in a row
        a = g.addr(f)
        n = r.randrange(2, 18)
        a = min(a, full(f) - n)
        return shuffled(g, [(a + i, full(f)) for i in range(n)])
    if k == 7:      # at both ends of the space, and neighbours of different size
        p = r.randrange(1, w + 1)
        q = r.randrange(1, w + 1)
        return shuffled(g, [(0, pmask(f, p)), (full(f), pmask(f, p)), (full(f), pmask(f, q)), (1 << (w - 1), pmask(f, r.randrange(1, w + 1)))])
    if k == 8 and r.randrange(3) == 0:      # adjacent, the carry running through a few bits
        p = r.randrange(2, w + 1)
        c = r.randrange(1, min(p, 8 if r.randrange(3) else p))
        n = (g.r.getrandbits(p) >> (c + 1) << (c + 1)) | ((1 << c) - 1)
        s = w - p
        return shuffled(g, [(n << s, pmask(f, p)), ((n + 1) << s, pmask(f, p))] + [((n + i) % (1 << p) << s, pmask(f, p)) for i in r.sample([-1, 2, 3], r.randrange(3))])
    if k == 8:      # adjacent but not mergeable (misaligned), and mergeable ones
        p = r.randrange(2, w + 1)
        s = 1 << (w - p)
        a = (g.addr(f) & pmask(f, p))
        return [(max(0, min(full(f), a + i * s)), pmask(f, p)) for i in r.sample(range(-3, 5), r.randrange(2, 6))]
    # like k == 2, over scattered bits
    at = g.scatter(f, 3)
    base, m0 = g.addr(f), full(f)
    if r.randrange(2):
        m0 = g.lopsided(f)
    res = []
    for _ in range(r.randrange(2, 8)):
        bits, ms = [r.randrange(2) for _ in at], [r.randrange(2) for _ in at]
        res.append((place(f, base, at, bits), place(f, m0, at, ms)))
    return res


def neighbours(g, f):
    """Adjacent networks of every prefix length that are not the halves of one: one bit below the last one differs, or a few."""
    w = BITS[f]
    for p in range(2, w + 1):
        for c in sorted({1, g.r.randrange(1, p), g.r.randrange(1, min(p, 5))}):
            n = (g.r.getrandbits(p) >> (c + 1) << (c + 1)) | ((1 << c) - 1)
            yield [(n << (w - p), pmask(f, p)), ((n + 1) << (w - p), pmask(f, p))]


def spelled(g, f, nets, plain=False):
    return [g.net_text(f, a, m) if plain or g.r.randrange(2) else "%s/%s" % (g.spell(f, a), g.mask_text(f, m)) for a, m in nets]


def c06(L):
    g = L.g
    for _ in range(g.n(900, 9000)):
        f = g.r.choice((4, 4, 6))
        nets = net_set(g, f)
        if g.r.randrange(3) == 0:
            nets = nets + g.r.choices(nets, k=g.r.randrange(1, 4))
        L.add([g.r.choice(["-m", "--minimize"])] + spelled(g, f, nets))
    for b in sample(g, L.models["minimize"], g.n(300, 4000)) + sample(g, L.models["minimize-lopsided"], g.n(200, 2000)):
        f, nets = embed_nets(g, b["ins"])
        L.add(["-m"] + spelled(g, f, nets, True))
    for f in (4, 6):
        for nets in neighbours(g, f):
            L.add(["-m"] + spelled(g, f, shuffled(g, nets), True))
    long_lists(L)
    for n in (40, g.n(70, 150)):
        for f in (4, 6):
            p = BITS[f] - 12
            a = g.addr(f) & pmask(f, p)
            L.add(["-m"] + spelled(g, f, [(a | g.r.getrandbits(12), pmask(f, g.r.randrange(p + 4, BITS[f] + 1))) for _ in range(n)]))


def long_lists(L):
    """Many networks: all of them single addresses, some missing, or of different sizes."""
    g = L.g
    for f in (4, 6):
        a = g.addr(f) & pmask(f, BITS[f] - 9)
        L.add(["-m"] + ["%s/%d" % (txt(f, a + i), BITS[f]) for i in shuffled(g, range(g.n(136 if f == 4 else 70, 400)))])
        L.add(["-m"] + ["%s/%d" % (txt(f, a + i), BITS[f]) for i in g.r.sample(range(200), g.n(60, 150))])
        b = g.addr(f) & pmask(f, 8)
        L.add(["-m"] + ["%s/16" % txt(f, b + (i << BITS[f] - 16)) for i in shuffled(g, range(g.n(66, 256)))])
        # a pair to be merged and a network to be dropped at every size
        for alike in (0, full(f)):
            nets = []
            for p in range(2, BITS[f] + 1):
                b = (full(f) ^ pmask(f, p - 1)) + 1 ^ alike & pmask(f, p - 1)     # apart from those of other sizes
                nets += [(b, pmask(f, p)), (b | 1 << BITS[f] - p, pmask(f, p))]
                if p < BITS[f] and f == 4:
                    nets.append((b | g.bits(BITS[f] - p), pmask(f, g.r.randrange(p + 1, BITS[f] + 1))))
            L.add(["-m"] + [g.net_text(f, *x) for x in shuffled(g, nets)])
        # very many that cannot be merged, some inside others or mergeable far down the list
        n = g.n(1030 if f == 4 else 265, 1100)
        p = g.r.choice([16, 20, BITS[f] - 2])
        a = g.addr(f) & pmask(f, p - 12)
        nets = [(a + (2 * k << BITS[f] - p), pmask(f, p)) for k in range(n)]
        nets += [(a + (k << BITS[f] - p), pmask(f, p)) for k in (1, 2 * n - 1, 2 * g.r.randrange(n) + 1)]
        nets += [(nets[k][0] + g.bits(BITS[f] - p), pmask(f, g.r.randrange(p + 1, BITS[f] + 1))) for k in (0, n - 1, g.r.randrange(n))]
        L.add(["-m"] + [g.net_text(f, *x) for x in shuffled(g, nets)])
        at = g.scatter(f, 7)
        m = full(f)
        for i in (0, g.r.getrandbits(BITS[f]) & g.r.getrandbits(BITS[f])):
            L.add(["-m"] + [g.net_text(f, place(f, b, at, [k >> j & 1 for j in range(7)]), place(f, m & ~i, at, [1] * 7))
                            for k in shuffled(g, range(g.n(66, 128)))])


def c07(L):
    g = L.g
    long_lists(L)
    for _ in range(g.n(700, 6000)):
        f = g.r.choice((4, 4, 6))
        L.add(["-m"] + spelled(g, f, net_set(g, f)))
    for b in sample(g, L.models["minimize"], g.n(250, 3000)) + sample(g, L.models["minimize-lopsided"], g.n(250, 2000)):
        f, nets = embed_nets(g, b["ins"])
        L.add(["-m"] + spelled(g, f, nets, True))
    for f in (4, 6):
        for nets in sample(g, list(neighbours(g, f)), g.n(40, 1000)):
            L.add(["-m"] + spelled(g, f, nets, True))
    for i in range(g.n(120, 1200)):     # order and repetition
        f = g.r.choice((4, 4, 6))
        if i % 2 and L.models["minimize-lopsided"]:
            f, nets = embed_nets(g, g.r.choice(L.models["minimize-lopsided"])["ins"])
        else:
            nets = net_set(g, f)
        variants = [["-m"] + spelled(g, f, nets, True)]
        for _ in range(2):
            variants.append(["-m"] + spelled(g, f, shuffled(g, nets + g.r.choices(nets, k=g.r.randrange(3)))))
        variants.append(["--minimize"] + spelled(g, f, list(reversed(nets))))
        L.same("C07.depends", variants)
    for i in range(g.n(100, 1000)):     # once more
        f = g.r.choice((4, 4, 6))
        first = ["-m"] + spelled(g, f, net_set(g, f))
        out = L.record([(first, 0)])[0]["out"]
        x = L.add(first)
        if usable(out):
            y = L.add(["-m"] + out)
            L.groups.append(("chain", "C07.again", [x, y], {"links": [[[2], [1]]], "equal": [[1, 2]]}))


# ---- resize ------------------------------------------------------------------------

def limited(g, n, lim):
    return n if n <= lim else g.r.randrange(lim + 1)


def some_blocks(g, count):
    """Of a resizing into count subnets, whose lines to keep: the first, the last, some at and between powers of two."""
    at = [(7 + b * k - 3, 18) for k in (6, 7) for b in (255, 4095, 65535) if b < count + 1]
    return 50, 60, at + [(g.r.randrange(6 * count), 16) for _ in range(6)]


def some_addresses(g, count):
    at = [(b - 5, 10) for b in (256, 4096, 65536, 1 << 20) if b < count]
    return 30, 30, at + [(g.r.randrange(count), 12) for _ in range(8)]


def many_subnets(L, lopsided):
    """More subnets than anybody reads: the numbers in their headings, and where they end."""
    g = L.g
    for f, n in ((4, 17), (4, 16), (6, 16)) + ((4, 18), (4, 17), (6, 17)) * g.thorough:
        w = BITS[f]
        if lopsided:
            at = g.scatter(f, n + g.r.randrange(3))
            m = place(f, g.lopsided(f), at, [0] * len(at))
            t = place(f, m, at, [1] * n + [0] * (len(at) - n))
            if g.r.randrange(2):    # so many ones, wherever they are
                t = sum(1 << i for i in g.r.sample(range(w), ones(t)))
            L.add(["-r", g.net_text(f, g.addr(f), m), g.r.choice(g.notations(f, t))], keep=some_blocks(g, 1 << n))
        else:
            p = w - n - (0 if n == 17 else g.r.choice([0, 1, g.r.randrange(w - n)]))
            L.add(["-r", "%s/%d" % (txt(f, g.r.choice([g.addr(f), full(f)])), p), str(p + n)], keep=some_blocks(g, 1 << n))


def many_addresses(L):
    g = L.g
    for f, n in ((4, 21), (4, 18), (4, 17), (6, 17), (6, 16)) + ((4, 20), (6, 21), (6, 19), (4, 24)) * g.thorough:
        m = full(f)
        for p in g.scatter(f, n):
            m ^= 1 << (BITS[f] - 1 - p)
        L.add(["-e", g.net_text(f, g.r.choice([g.addr(f), full(f), 0]), m)], keep=some_addresses(g, 1 << n))
        n = g.r.choice([14, 15, 16])
        L.add(["-e", enum_net(g, f, 4), "%s/%d" % (txt(f, g.addr(f)), BITS[f] - n), enum_net(g, f, 9)],
              keep=some_addresses(g, 1 << n))


def resize_args(g, f, lim=3):
    """Both masks contiguous; at most 2^lim subnets."""
    w, r = BITS[f], g.r
    p = g.prefix(f)
    q = r.choice([r.randrange(w + 1), p, min(w, p + r.randrange(lim + 1)), min(w, p + 1), max(0, p - 1), 0])
    if q > p + lim:
        p = q - r.randrange(lim + 1)
    return [r.choice(["-r", "--resize"]), "%s/%d" % (txt(f, g.addr(f)), p), g.mask_text(f, pmask(f, q)) if r.randrange(4) == 0 else str(q)]


def c12(L):
    g = L.g
    for f in (4, 6):
        w = BITS[f]
        pairs = [(p, q) for p in range(w + 1) for q in range(w + 1) if q <= p + 2]
        for p, q in (pairs if g.thorough or f == 4 else g.r.sample(pairs, 120)):
            if f == 4 and not g.thorough and q < p - 1 and g.r.randrange(3):
                continue
            a = g.r.choice([g.addr(f), g.addr(f), full(f), 0])
            L.add(["-r", "%s/%d" % (txt(f, a), p), str(q)])
        for p in range(w + 1):      # a few more subnets; the last ones of the space among them
            if f == 6 and not g.thorough:
                L.add(["-r", g.cidr(f, p), str(min(w, p + g.r.randrange(3)))])
                L.add(["-r", g.cidr(f, g.r.randrange(p, w + 1)), str(p)])
            if f == 4 or g.thorough or g.r.randrange(4) == 0:
                q = min(w, p + g.r.randrange(3, 6 if not g.thorough else 8))
                L.add(["-r", "%s/%d" % (txt(f, g.r.choice([g.addr(f), full(f)])), p), str(q)])
    for _ in range(g.n(150, 2000)):
        L.add(resize_args(g, g.family(), 4))
    for b in sample(g, [b for b in L.models["resize"] if all(sorted(m, reverse=True) == m for m in (b["orig"]["m"], b["mask"]))], g.n(200, 1500)):
        L.add(embed_resize(g, b, True))
    for f in (4, 6):                    # as large a difference as there can be
        w = BITS[f]
        for p in (w, w - 1, w - 2, w // 2 + 1, w // 2, w // 2 - 1):
            for q in (0, 1, 2, w // 2 - 1, w // 2, w // 2 + 1):
                L.add(["-r", g.cidr(f, p), str(q)])
    L.add(["-r", "10.0.0.0/16", "25"])
    L.add(["-r", "10.0.0.0/8", str(g.n(17, 19))])
    L.add(["-r", "2001:db8::/56", str(g.n(63, 66))])
    L.add(["-r", "%s/%d" % (colons(full(6)), 60), "66"])
    L.add(["-r", "255.255.255.0/23", "32"])
    many_subnets(L, False)


def c13(L):
    g = L.g
    for _ in range(g.n(520, 6000)):
        f = g.r.choice((4, 4, 6))
        w = BITS[f]
        m = g.mask(f)
        k = ones(m)
        c = g.r.randrange(5)
        lim = g.n(4, 6)
        if c == 0:      # same number of network bits
            t = sum(1 << i for i in g.r.sample(range(w), k))
        elif c in (1, 2):
            j = min(w, k + g.r.randrange(1, lim + 1))
            t = sum(1 << i for i in g.r.sample(range(w), j))
            if g.r.randrange(2):        # keep the old ones
                extra = [i for i in range(w) if not m >> i & 1]
                t = m | sum(1 << i for i in g.r.sample(extra, min(len(extra), j - k)))
        elif c == 3:
            t = sum(1 << i for i in g.r.sample(range(w), g.r.randrange(k + 1)))
        else:
            t = g.mask(f)
            if ones(t) > k + lim:
                m, t = t, m
        if is_prefix(f, m) and is_prefix(f, t) and g.r.randrange(4):
            t = sum(1 << i for i in g.r.sample(range(w), min(w, ones(t))))
        a = g.r.choice([g.addr(f), g.addr(f), full(f)])
        L.add([g.r.choice(["-r", "--resize"]), g.net_text(f, a, m), g.r.choice(g.notations(f, t))])
    for v in range(256):                # every byte a mask can have
        for _ in range(g.n(1, 4)):
            f = g.r.choice((4, 4, 4, 6))
            w = BITS[f]
            m = full(f) ^ (255 - v) << 8 * g.r.randrange(w // 8)
            p = g.r.choice([ones(m), ones(m), min(w, ones(m) + 1)])
            other = pmask(f, p) if g.r.randrange(2) else sum(1 << i for i in g.r.sample(range(w), p))
            x, y = (m, other) if g.r.randrange(2) and p == ones(m) else (other, m)
            L.add(["-r", g.net_text(f, g.addr(f), x), g.mask_text(f, y)])
    for f in (4, 6):                    # every number of network bits, as the original's and as the target's
        w = BITS[f]
        for k in range(w + 1):
            up, down = min(w, k + g.r.choice([1, 1, 2, 3])), min(w, k + g.r.choice([1, 2, 7, 8, g.r.randrange(w)]))
            for x, y in ((k, up), (down, k), (down, k), (k, k)):
                kinds = ((0, 1), (1, 0), (1, 1))
                for lop in kinds if f == 4 or g.thorough else g.r.sample(kinds, 1):
                    ms = [sum(1 << i for i in g.r.sample(range(w), n)) if l else pmask(f, n) for n, l in ((x, lop[0]), (y, lop[1]))]
                    L.add(["-r", g.net_text(f, g.r.choice([g.addr(f), full(f), g.r.getrandbits(w)]), ms[0]), g.mask_text(f, ms[1])])
    for b in sample(g, L.models["resize"], g.n(350, 3000)):
        L.add(embed_resize(g, b))
    for _ in range(g.n(6, 30)):         # many subnets
        f = g.family()
        at = g.scatter(f, 11)
        m = place(f, g.lopsided(f), at, [0] * 11)
        L.add(["-r", g.net_text(f, g.addr(f), m), g.r.choice(g.notations(f, place(f, m, at, [0] + [1] * g.n(6, 10) + [0] * 6)))])
    many_subnets(L, True)


# ---- split -------------------------------------------------------------------------

def split_args(g, f, small=True):
    return ["-s"] + split_request(g, f)


def split_request(g, f):
    w, r = BITS[f], g.r
    p = r.choice([g.prefix(f), r.randrange(w + 1), w - r.randrange(10), r.choice([0, 0, 1])])
    h = w - p
    a = r.choice([g.addr(f), g.addr(f), full(f), 0])
    k = r.randrange(8)

    def near(x):        # host counts around what a block of 2^x has
        return max(0, 2 ** max(0, x) - 2 + r.choice([0, 0, 1, -1]))
    if k == 0:
        c = [near(r.randrange(h + 2)) for _ in range(r.randrange(1, 5))]
    elif k == 1:        # exactly full: halve repeatedly
        blocks = [h]
        for _ in range(r.randrange(6)):
            x = blocks.pop(r.randrange(len(blocks)))
            blocks += [x - 1, x - 1] if x > 1 else [x]
        c = [2 ** max(1, x) - 2 - (r.randrange(2) if x > 2 else 0) for x in blocks]
    elif k == 2:        # full, then one taken away or added
        blocks = [h]
        for _ in range(r.randrange(1, 6)):
            x = blocks.pop(r.randrange(len(blocks)))
            blocks += [x - 1, x - 1] if x > 1 else [x]
        c = [2 ** max(1, x) - 2 for x in blocks]
        if r.randrange(2) and len(c) > 1:
            c.pop(r.randrange(len(c)))
        else:
            c.append(r.choice([0, 1, 2]))
    elif k == 3:
        c = [r.randrange(2 ** max(1, min(h, 40))) for _ in range(r.randrange(1, 7))]
    elif k == 4:        # much smaller ones
        c = [near(r.randrange(1, max(2, min(h, 8)))) for _ in range(r.randrange(1, 9))]
    elif k == 5:
        c = [r.choice([0, 1, 2, 3, 6, 7]) for _ in range(r.randrange(1, 9))]
    elif k == 6:        # far too big
        c = [r.choice([2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 127, 2 ** 128 - 2, 2 ** 128 - 1, 2 ** 128, 10 ** 50]),
             r.choice([0, 5, 100])]
    else:               # equal ones
        c = [near(max(1, h - r.randrange(1, 5)))] * r.randrange(1, 6)
    c = [str(x) for x in c]
    if r.randrange(4) == 0:
        r.shuffle(c)
    if r.randrange(8) == 0:
        c[0] = "00" + c[0]
    return ["%s/%s" % (txt(f, a), g.mask_text(f, pmask(f, p)))] + c


def c10(L):
    g = L.g
    for _ in range(g.n(420, 5000)):
        L.add([g.r.choice(["-s", "--split"])] + split_request(g, g.r.choice((4, 4, 4, 6))))
    for b in sample(g, L.models["split"], g.n(300, 3000)):
        L.add(embed_split(g, b))
    # every size, around its limit
    for f in (4, 6):
        for h in range(1, BITS[f] + 1):
            if True:
                p = BITS[f] - h
                for d in (-1, 0, 1) if f == 4 or g.thorough or g.r.randrange(4) == 0 else (0, 1) if g.r.randrange(2) else (1,):
                    if 2 ** h - 2 + d >= 0:
                        L.add(["-s", "%s/%d" % (txt(f, g.addr(f)), max(0, p - g.r.choice([0, 1, 2]))), str(2 ** h - 2 + d), str(g.r.choice([0, 1, 2]))])
                if h + 1 <= BITS[f]:        # one more than fits needs the next size
                    L.add(["-s", "%s/%d" % (txt(f, g.addr(f)), max(0, p - g.r.choice([1, 2, 3]))), str(2 ** h - 1)])
        # every network to be split
        for p in range(BITS[f]):
            h = BITS[f] - p
            c = [max(0, 2 ** max(0, h - g.r.randrange(1, 8)) - 2 - g.r.randrange(3)) for _ in range(g.r.randrange(1, 4))]
            if p % 16 == 0 or (g.thorough and p % 4 == 0):
                L.add(["-s", g.cidr(f, p), str(g.r.randrange(300)), str(g.r.randrange(9))])
            L.add(["-s", g.cidr(f, p)] + [str(x) for x in c])
    for f, p in ((4, 24), (6, 120), (4, 16)):     # many
        L.add(["-s", "%s/%d" % (txt(f, g.addr(f)), p)] + [str(g.r.choice([0, 1, 2, 2, 3, 5])) for _ in range(24)])
    for n in (9, 10, 11, 12, 13, 16, 17, 32, 33, g.n(40, 130)):
        f = g.family()
        h = g.r.randrange(8, 20)
        c = [2 ** g.r.randrange(1, h - 5) - 2 for _ in range(n)]
        L.add(["-s", g.cidr(f, BITS[f] - h)] + [str(x if g.r.randrange(2) else max(0, x - g.r.randrange(3))) for x in c])
        L.add(["-s", g.cidr(f, BITS[f] - n.bit_length() - 4)] + ["14"] * n)
    for f, n in ((4, 275),) + (((4, 1030), (6, 275)) if g.thorough else ()):
        L.add(["-s", g.cidr(f, BITS[f] - n.bit_length() - 4)] + [str(g.r.choice([0, 0, 1, 2, 2, 6])) for _ in range(n)])
    for _ in range(g.n(6, 60)):         # as many of one size as fit, and one more
        f, k, x = g.family(), g.r.randrange(1, 5), g.r.randrange(1, 9)
        for d in (-1, 0, 1):
            L.add(["-s", g.cidr(f, BITS[f] - k - x)] + [str(max(0, 2 ** x - 2))] * (2 ** k + d))
    # numbers may have a sign or underscores
    for c in ("+5", "1_0", "5_", "-0", "-00", "+0_0", "1__2", "+6_", "-0_"):
        L.add(["-s", g.cidr(g.family(), 24), c, str(g.r.randrange(9))])


c11 = c10


# ---- enumerate ---------------------------------------------------------------------

def enum_net(g, f, hmax):
    w, r = BITS[f], g.r
    k = r.randrange(4)
    if k == 0:
        m = pmask(f, w - r.randrange(hmax + 1))
    else:
        m = full(f)
        for p in g.scatter(f, r.randrange(hmax + 1)):
            m ^= 1 << (w - 1 - p)
    a = r.choice([g.addr(f), g.addr(f), full(f), 0])
    return g.net_text(f, a, m)


def c14(L):
    g = L.g
    for _ in range(g.n(420, 5000)):
        f = g.family()
        L.add([g.r.choice(["-e", "--enumerate"]), enum_net(g, f, 5)])
    for _ in range(g.n(40, 300)):
        L.add(["-e", enum_net(g, g.family(), g.r.choice([7, 8, 9]))])
    for _ in range(g.n(80, 800)):
        L.add(["-e"] + [enum_net(g, g.family(), 3) for _ in range(g.r.randrange(2, 6))])
    for f in (4, 6):
        for i in range(BITS[f]):        # one host bit at every place, and it with the lowest one
            L.add(["-e", g.net_text(f, g.addr(f), full(f) ^ (1 << i)), g.net_text(f, full(f), full(f) ^ (1 << i)),
                   g.net_text(f, g.addr(f), (full(f) ^ (1 << i)) & ~1)])
    for b in sample(g, L.models["enumerate"], g.n(250, 800)):
        f, nets = embed_nets(g, b["nets"], False)
        L.add(["-e"] + [g.net_text(f, a, m) for a, m in nets])
    for v in range(256):                # every byte a mask can have
        for i in range(4) if g.thorough or ones(v) > 3 else (g.r.randrange(4),):
            L.add(["-e", g.net_text(4, g.addr(4), full(4) ^ (255 - v) << 8 * i)])
        if g.thorough or v % 4 == 0:
            L.add(["-e", g.net_text(6, g.addr(6), full(6) ^ (255 - v) << 8 * g.r.randrange(16))])
    for _ in range(g.n(12, 100)):       # many networks, some again
        few = [enum_net(g, g.family(), 2) for _ in range(g.r.randrange(2, 7))]
        L.add(["-e"] + g.r.choices(few, k=g.r.choice([5, 8, 9, 12, 20, 40])))
    # counters of 8 and 16 bits wrap
    for f in (4, 6):
        L.add(["-e"] + ["%s/%d" % (txt(f, g.addr(f)), BITS[f] - g.r.randrange(2)) for _ in range(g.n(262, 1030))])
    L.add(["-e", "%s/%d" % (dotted(g.r.getrandbits(32)), g.n(19, 15))])
    L.add(["-e", "%s/%d" % (colons(g.r.getrandbits(128)), g.n(117, 111))])
    L.add(["-e", "255.255.255.255/%d" % g.n(21, 18)])
    L.add(["-e", "255.255.255.255/255.%d.255.%d" % ((240, 1) if not g.thorough else (7, 1))])
    many_addresses(L)


# ---- text --------------------------------------------------------------------------

def c05(L):
    g = L.g
    # every octet value at every position; leading zeros
    for i in range(4):
        for b in g.batches(range(256), 64):
            L.add(["-e"] + [".".join(str(v) if k == i else str(g.r.randrange(256)) for k in range(4)) + "/32" for v in b])
    for _ in range(g.n(40, 400)):
        L.add(["-e"] + [g.spell(4, g.addr(4)) + "/32" for _ in range(8)])
    for f in (4, 6):        # addresses of blocks with a meaning of their own
        for b in g.batches([txt(f, g.known(f, x)) + "/%d" % BITS[f] for x in KNOWN[f] for _ in range(g.n(4, 20))], 32):
            L.add(["-e"] + b)
    # every pattern of zero groups printed, with group values of every length
    vals = [1, 9, 0xa, 0xf, 0x10, 0x99, 0xff, 0x100, 0xabc, 0xfff, 0x1000, 0x8000, 0xcdef, 0xffff, 0x0f00, 0xf000]
    allv = []
    for rep in range(g.n(2, 8)):
        for z in range(256):
            v = 0
            for k in range(8):
                v = (v << 16) | (0 if z >> k & 1 else g.r.choice(vals + [g.r.randrange(1, 65536)]))
            allv.append(v)
    for b in g.batches(allv, 16):
        L.add(["-e"] + [colons(v) + "/128" for v in b])
    # every group position with every interesting value and all its spellings
    for i in range(8):
        ss = []
        for v in vals + [0]:
            for s in {"%x" % v, "%04x" % v, "%X" % v, ("%x" % v).rjust(3, "0") if v < 0x1000 else "%x" % v}:
                o = ["%x" % g.r.randrange(1, 65536) for _ in range(8)]
                o[i] = s
                ss.append(":".join(o) + "/128")
        for b in g.batches(ss, 16):
            L.add(["-e"] + b)
    # "::" between every number of groups on the left and on the right
    ss = []
    for a in range(8):
        for b in range(8 - a):
            for _ in range(g.n(2, 6)):
                x = ["%x" % g.r.choice([0, 1, 0xffff, g.r.randrange(65536)]) for _ in range(a)]
                y = ["%x" % g.r.choice([0, 1, 0xffff, g.r.randrange(65536)]) for _ in range(b)]
                ss.append(":".join(x) + "::" + ":".join(y) + "/128")
    for b in g.batches(shuffled(g, ss), 12):
        L.add(["-e"] + b)
    # spellings of the same thing in every mode
    for i in range(g.n(90, 900)):
        f = g.r.choice((4, 6, 6))
        a = zeroish(g, f)
        b = zeroish(g, f)
        k = i % 6
        def sp(v): return [txt(f, v)] + [g.spell(f, v) for _ in range(2)]
        m = g.mask(f)
        if k == 0:
            argss = [[s + "/" + t] for s, t in zip(sp(a), [txt(f, m)] + [g.spell(f, m) for _ in range(2)])]
        elif k == 1:
            argss = [["-d", s, t] for s, t in zip(sp(a), sp(b))]
        elif k == 2:
            argss = [["-m", s + "/%d" % (BITS[f] - 1), t + "/%d" % BITS[f]] for s, t in zip(sp(a), sp(b))]
        elif k == 3:
            argss = [["-e", s + "/%d" % (BITS[f] - 1), t + "/%d" % BITS[f]] for s, t in zip(sp(a), sp(b))]
        elif k == 4:
            t = g.lopsided(f)
            if ones(t) > ones(m) + 3:
                m, t = t, m
            argss = [["-r", s + "/" + u, v] for s, u, v in zip(sp(a), sp(m), sp(t))]
        else:
            argss = [["-s", s + "/%d" % (BITS[f] - 8), "5", "20"] for s in sp(a)]
        L.same("C05.spelling", argss)
    # what is printed can be read again, and denotes the same
    for _ in range(g.n(60, 600)):
        f = g.r.choice((4, 6, 6))
        a, m = zeroish(g, f), (g.mask(f) if g.r.randrange(2) else zeroish(g, f))
        first = ["-m", txt(f, a) + "/" + txt(f, m)]
        out = L.record([(first, 0)])[0]["out"]
        x = L.add(first)
        if usable(out, 1):
            y = L.add(["-m", out[0]])
            L.groups.append(("chain", "C05.again", [x, y], {"links": [[[2], [1]]], "equal": [[1, 2]]}))
    # the report's text
    show_nets(L, [txt(f, zeroish(g, f)) + "/" + g.mask_text(f, g.mask(f)) for f in (4, 6, 6) for _ in range(g.n(60, 600))])
    typed = [b["s"] for k in ("addr6", "addr6-long", "addr4") for b in L.models[k] if b["ok"]]
    for b in g.batches([embed_addr(g, s) + ("/128" if ":" in s else "/32") for s in map(chars, typed) for _ in range(2)], 40):
        L.add(["-e"] + b)
    for s in sample(g, typed, g.n(60, 1000)):
        x = embed_addr(g, chars(s))
        L.add(["-d", x, x])


def zeroish(g, f):
    if f == 4 or g.r.randrange(3) == 0:
        return g.addr(f)
    v = 0
    for _ in range(8):
        v = (v << 16) | g.r.choice([0, 0, 0, 1, 0xf0, 0xabc, 0xffff, g.r.randrange(65536)])
    return v


# ---- notations ----------------------------------------------------------------------

def c02(L):
    g = L.g
    def group(f, m, k):
        a, b = g.addr(f), g.addr(f)
        ns = g.notations(f, m)
        if g.r.randrange(2):
            ns.append(g.spell(f, m))
            ns[1] = "-" + g.spell(f, full(f) ^ m)
        if k == 0:
            return [["%s/%s" % (txt(f, a), n)] for n in ns]
        if k == 1:
            return [["-m", "%s/%s" % (txt(f, a), n), "%s/%s" % (txt(f, b), ns[(i + 1) % len(ns)])] for i, n in enumerate(ns)]
        if k == 2:
            t = g.mask(f)
            if ones(t) > ones(m) + 3:
                t = m if ones(m) == 0 else t & m
            return [["-r", "%s/%s" % (txt(f, a), n), txt(f, t)] for n in ns]
        if k == 3:      # as the target
            t = m | (1 << g.r.randrange(BITS[f]))
            if ones(m) > ones(t) + 3:
                t = m
            o = m if g.r.randrange(2) else g.mask(f)
            if ones(m) > ones(o) + 3:
                o = m
            return [["-r", "%s/%s" % (txt(f, a), txt(f, o)), n] for n in ns]
        if k == 4:
            m2 = m | (full(f) ^ ((1 << 5) - 1))
            return [["-e", "%s/%s" % (txt(f, a), n)] for n in g.notations(f, m2)]
        return [["-s", "%s/%s" % (txt(f, a), n), "5", "0"] for n in ns]
    for f in (4, 6):
        for p in range(BITS[f] + 1):
            L.same("C02.differs", group(f, pmask(f, p), 0 if f == 4 or p % 2 else 3))
            if f == 4 or g.thorough:
                L.same("C02.differs", group(f, pmask(f, p), 3 if f == 4 else 1))
            L.same("C02.differs", group(f, pmask(f, p), 1))
    for i in range(g.n(150, 2000)):
        f = g.r.choice((4, 4, 6))
        k = i % 6
        m = pmask(f, g.prefix(f)) if k == 5 or g.r.randrange(3) == 0 else g.lopsided(f)
        L.same("C02.differs", group(f, m, k))
    for f, n in ((4, 2), (6, g.n(1, 4))):   # groups of zeros and ones only
        for x in range(16 if f == 4 else 256):
            if f == 4 or g.thorough or bin(x).count("1") in (1, 7) or g.r.randrange(6) == 0:
                m = sum((255 if f == 4 else 65535) << (8 if f == 4 else 16) * i for i in range(BITS[f] // (8 if f == 4 else 16)) if x >> i & 1)
                for _ in range(n):
                    L.same("C02.differs", group(f, m, g.r.choice([0, 0, 1, 3])))
    for _ in range(g.n(60, 600)):     # masks that look like something else read as wildcards
        f = g.family()
        m = g.r.choice([full(f) ^ pmask(f, g.prefix(f)), g.r.choice(cidr_byte_masks(g, f, 4))])
        L.same("C02.differs", group(f, m, g.r.choice([0, 1, 3])))


# ---- malformed input -------------------------------------------------------------------

def bad_addrs(g, f):
    """Malformed addresses."""
    r = g.r
    if f == 4:
        o = [str(r.randrange(256)) for _ in range(4)]
        i = r.randrange(4)
        def w(s): return ".".join(o[:i] + [s] + o[i + 1:])
        c = r.randrange(12)
        if c == 0: return w(str(r.choice([256, 257, 260, 300, 384, 511, 512, 999, 1000, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 10 ** 30])))
        if c == 1: return w("")
        if c == 2: return ".".join(o[:3])
        if c == 3: return ".".join(o + [str(r.randrange(256))])
        if c == 4: return w(r.choice(["-", "+", ""]) + o[i] + r.choice(["x", "a", " ", "-", "+", "_", "e1", "\u0663"])) if r.randrange(2) else w(r.choice("+- ") + o[i])
        if c == 5: return w(r.choice(["0x10", "a", "f", "ff", "1e2", "\u0661", "\uff11", "1_0", "1,2"]))
        if c == 6: return r.choice([".", ""]) + ".".join(o) + "."
        if c == 7: return "." + ".".join(o)
        if c == 8: return ",".join(o) if r.randrange(2) else ":".join(o[:2]) + "." + ".".join(o[2:])
        if c == 9: return str(r.getrandbits(32))
        if c == 10: return r.choice(["", " ", "..", "...", "....", "a.b.c.d", "localhost", "0.0.0", "1.2.3.4.5.6"])
        return ".".join(o).replace(".", r.choice(["..", ". ", " ."]), 1)
    gs = ["%x" % r.randrange(65536) for _ in range(8)]
    i = r.randrange(8)
    def w(s): return ":".join(gs[:i] + [s] + gs[i + 1:])
    c = r.randrange(15)
    if c == 0: return w(r.choice(["10000", "12345", "fffff", "1ffff", "1234567890", "ffffffffffffffffff"]))
    if c == 1: return ":".join(gs[:r.randrange(1, 8)])
    if c == 2: return ":".join(gs + ["%x" % r.randrange(65536) for _ in range(r.randrange(1, 9))])
    if c == 3: return w(r.choice("ghxyzGZ+-_. ") + gs[i][:3])
    if c == 4: return w(gs[i][:3] + r.choice("gxz+-_ %"))
    if c == 5:      # two "::"
        k = sorted(r.sample(range(1, 7), 2))
        return ":".join(gs[:k[0]]) + "::" + ":".join(gs[k[0]:k[1]]) + "::" + ":".join(gs[k[1]:k[1] + r.randrange(2)])
    if c == 6:      # "::" where nothing is left out
        k = r.randrange(9)
        return ":".join(gs[:k]) + "::" + ":".join(gs[k:])
    if c == 7: return ":" + ":".join(gs[:r.choice([7, 8, 8])])
    if c == 8: return ":".join(gs[:r.choice([7, 8, 8])]) + ":"
    if c == 9:      # lone colon next to a shortened form
        s = ":".join(gs[:2]) + "::" + ":".join(gs[2:4])
        return r.choice([":" + s, s + ":"])
    if c == 10: return r.choice([":", ":::", "::::", "1:::2", ":::1", "1:::", "", "g::", "::g", "::+1", "::-1", "+1::", "::1+", "1::2::3", "::1::", "0x1::", "1;2::"])
    if c == 11:     # too many with "::"
        k = r.randrange(10)
        x = gs + [gs[0]]
        return ":".join(x[:k]) + "::" + ":".join(x[k:])
    if c == 12: return w(r.choice(["", " "]) + r.choice(["/", ",", ";", "|", "*"]) + gs[i][:2])
    if c == 13: return ":".join(gs) + "%eth0" if r.randrange(2) else "[" + ":".join(gs) + "]"
    return w("+" + gs[i][:3])


def extended(g, f):
    """Notations of addresses known from elsewhere that ripcalc does not have."""
    r = g.r
    a = g.r.choice([g.addr(f), g.r.getrandbits(BITS[f])])
    s = txt(f, a)
    if f == 4:
        o = [(a >> k) & 255 for k in (24, 16, 8, 0)]
        return r.choice(["%d.%d" % (o[0], o[1]), "%d.%d.%d" % tuple(o[:3]), "%d" % o[0], "%d.%d" % (o[0], a & 0xffffff), "%d" % a, "0x%08x" % a, ".".join("0x%x" % x for x in o),
                         s + ".", "." + s, s + ":80", s + "%eth0", "[%s]" % s, "%d.%d.%d.%d-%d" % (*o, min(255, o[3] + 1)), s + "-" + s, s + "," + s, "%d.%d.%d.*" % tuple(o[:3]), "%d.%d.%d.x" % tuple(o[:3]),
                         s + "#", s + " ", " " + s, "\t" + s, s + "\n", s + "\r", "%s\u00a0" % s, s + "/32", s + "/24", s + "/" + dotted(pmask(4, 24)), ".".join(reversed([str(x) for x in o])) + ".in-addr.arpa", "\"%s\"" % s, s + ";", "+" + s, "-" + s])
    h = "%032x" % a
    return r.choice([s + "%eth0", s + "%1", "[%s]" % s, "[%s]:80" % s, h, "0x" + h, "::ffff:1.2.3.4", "::1.2.3.4", "64:ff9b::192.0.2.33", "1:2:3:4:5:6:1.2.3.4", s.replace(":", "."), s.replace(":", "-"), s + ":",
                     ":" + s, s + "/128", s + "/64", s + "/" + colons(pmask(6, 64)), s + "-" + s, s + "," + s, " " + s, s + " ", "\t" + s, s + "\n", "%s\u00a0" % s, "::%d" % a, "0x1::2", "::g", "\"%s\"" % s, s[:-1] + "*", s[:-1] + "x", s + "#",
                     s + "\r", ":".join(h[k:k + 2] for k in range(0, 32, 2)), ".".join(reversed(h)) + ".ip6.arpa", "+" + s, "-" + s, "::+5", "1::-5", ":".join(h[k:k + 4] for k in range(0, 32, 4)) + "h"])


def bad_masks(g, f):
    r = g.r
    w = BITS[f]
    c = r.randrange(9)
    if c == 0: return str(w + r.choice([1, 1, 2, 3, 8, 95, 100, 223, 224, 1000]))
    if c == 1: return "-" + str(w + r.choice([1, 1, 2, 96, 300]))
    if c == 2: return bad_addrs(g, f)
    if c == 3: return "-" + bad_addrs(g, f)
    if c == 4: return txt(10 - f, g.addr(10 - f))
    if c == 5: return "-" + txt(10 - f, g.addr(10 - f))
    if c == 6: return r.choice(["--1", "--8", "+8", "-+8", "+-8", "-", "--", "+", "", " ", " 8", "8 ", "0x8", "a", "8a", "1e1", "8.", ".8", "8.0", "255.255", "1.5", "\u0668", "8\n", "\t8", "-8-", "8-",
                              "255.255.255.0.0", "256.0.0.0", "--255.0.0.0", "18446744073709551616", "18446744073709551624", "99999999999999999999999999"])
    if c == 7: return str(r.choice([2 ** 8, 2 ** 16, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 64 + 8, 2 ** 32 + 8, 2 ** 8 + 8, 2 ** 16 + 8]))
    return "-" + str(r.choice([2 ** 64, 2 ** 64 + 8, 2 ** 32 + 8, 2 ** 8 + 8]))


def few_addresses(nets):
    """Whether texts may be given to --enumerate: those that end like a network have few host bits."""
    for n in nets:
        t = n.split("/")[-1].lstrip("-")
        if t.isdecimal() and int(t) < (120 if ":" in n else 24) or not t.isdecimal() and t.strip("0123456789.:abcdefABCDEF-") == "" and "-" in n:
            return False
        if "." in t and not t.isdecimal() and sum(x != "255" for x in t.split(".")) > 1 or ":" in t and sum(x.lower() != "ffff" for x in t.split(":")) > 1:
            return False
    return True


def bad_net(g, f):
    r = g.r
    c = r.randrange(9)
    good = g.net(f)
    if c < 3: return bad_addrs(g, f) + "/" + str(g.prefix(f) if r.randrange(2) else txt(f, g.mask(f)))
    if c < 6: return txt(f, g.addr(f)) + "/" + bad_masks(g, f)
    if c == 6: return r.choice([txt(f, g.addr(f)), txt(f, g.addr(f)) + "/", "/" + str(g.prefix(f)), "/", good + "/", good + "/8", "/" + good, good.replace("/", "//")])
    if c == 7: return r.choice([" " + good, good + " ", good + "\n", "\n" + good, good + "x", "x" + good, good + ",", good.replace("/", " /"), good.replace("/", "/ "), "\u200b" + good, good + "\0"[:0] + "\u00e9", good.replace("/", "\\")])
    i = r.randrange(len(good))     # one character changed
    return good[:i] + r.choice("gxz.:/-+ _%,;") + good[i + 1:]


def c03(L):
    g = L.g
    for _ in range(g.n(1500, 4000)):
        f = g.family()
        r = g.r
        b = bad_net(g, f)
        k = r.randrange(8)
        if k < 2:
            xs = [g.cidr(r.choice((4, 6))) for _ in range(r.randrange(3))]
            xs.insert(r.randrange(len(xs) + 1), b)
            if xs[0] in ("-m", "-d", "-s", "-r", "-e") or xs[0].startswith("--"):
                continue
            L.add(xs)
        elif k == 2:
            xs = [g.cidr(f) for _ in range(r.randrange(3))]
            xs.insert(r.randrange(len(xs) + 1), b)
            L.add(["-m"] + xs)
        elif k == 3:
            xs = [txt(f, g.addr(f)), bad_addrs(g, f)]
            L.add(["-d"] + shuffled(g, xs))
        elif k == 4:
            L.add(["-r", b, str(g.prefix(f))] if r.randrange(3) == 0 else ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - r.randrange(4)), bad_masks(g, f)])
        elif k == 5:
            bad_count = r.choice(["", " ", "-1", "-5", "a", "1a", "0x10", "1.5", "1,000", "\u0661", "--1", "ten", "5 ", " 5", "-0x1", "1e3", "."])
            if r.randrange(2):
                L.add(["-s", b, "5"])
            else:
                xs = [str(r.randrange(10)) for _ in range(r.randrange(3))]
                xs.insert(r.randrange(len(xs) + 1), bad_count)
                L.add(["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 8)] + xs)
        else:
            xs = [enum_net(g, g.family(), 2) for _ in range(r.randrange(4))]
            for _ in range(r.choice([1, 1, 2])):
                xs.insert(r.randrange(len(xs) + 1), bad_net(g, g.family()))
            L.add(["-e"] + xs)
    # counters of 8 bits wrap
    for n in (2, 4, 8, 16, 32, 64, 100, 128, 255, 256, 257, 512):
        x, y, z = bad_net(g, g.family()), g.cidr(4), g.cidr(6)
        L.add(["-e"] + [x] * n)
        L.add(["-e"] + [bad_net(g, g.family()) for _ in range(n)] + [enum_net(g, 4, 1)] * g.r.randrange(2))
        if n > 250:
            L.add([y] * n + [x])
            L.add(["-m"] + [z] * n + [bad_net(g, 6)])
            L.add(["-s", y] + ["0"] * n + ["-1"])
    # notations known from elsewhere, and arguments of another kind
    for _ in range(g.n(500, 3000)):
        f, r = g.family(), g.r
        x = extended(g, f)
        good, mode = g.spell(f, g.addr(f)), g.r.randrange(8)
        if mode < 3: L.add(["-d"] + shuffled(g, [x, r.choice([good, good, g.spell(10 - f, g.addr(10 - f)), extended(g, f)])]))
        elif mode == 3: L.add(["-e", x + r.choice(["/32", "/31", "/128", "/127", "/255.255.255.254"])] + [enum_net(g, f, 1)] * r.randrange(2))
        elif mode == 4: L.add(["-r", good + "/" + str(BITS[f]), x])
        elif mode == 5: L.add(["-m"] + shuffled(g, [x + "/" + str(g.prefix(f)), g.cidr(f)]))
        elif mode == 6: L.add(["-r", good + "/-" + x, str(BITS[f])])
        else: L.add([g.cidr(f), good + "/" + x])
    # any argument of an invocation with a character or two more, fewer or others
    for c in PRINTABLE:
        f = g.family()
        for xs in (["-d", txt(f, g.addr(f)), txt(f, g.addr(f))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), str(BITS[f] - g.r.randrange(3))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), txt(f, g.mask(f))],
                   ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 9), str(g.r.randrange(60))], ["-m", g.net(f)], ["-e", enum_net(g, f, 2)]):
            i = g.r.randrange(1 if xs[0] != "-r" else 2, len(xs))
            for t in (c + xs[i], xs[i] + c):
                L.add(xs[:i] + [t] + xs[i + 1:])
    for a in AFFIXES:                   # notations of numbers where there is nothing but a number
        for f in (g.family(),) if not g.thorough else (4, 6):
            for xs in (["-d", txt(f, g.addr(f)), txt(f, g.addr(f))], ["-r", g.cidr(f), str(BITS[f] - g.r.randrange(3))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), txt(f, g.mask(f))],
                       ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 9), str(g.r.randrange(60))]):
                i = 1 if xs[0] == "-d" else 2
                for t in (a + xs[i], xs[i] + a):
                    L.add(xs[:i] + [t] + xs[i + 1:])
    for form in ("0x%x", "0x%02x", "0X%02X", "%x", "%#o", "0%o", "0b%s", "$%x", "%xh", "\\x%02x", "#%02x", "+%d", "-%d", "%d.0", "%de0", "%d_", "0d%d", "%d/1", "%du8", "\uff10%d"):
        for i in range(4):
            b = [g.r.choice([g.r.randrange(256), g.r.randrange(10, 100), 10, 16, 255, 8, 100]) for _ in range(4)]
            n = [str(x) for x in b]
            n[i] = form % (bin(b[i])[2:] if "s" in form else b[i])
            t = ".".join(n)
            c = form % (bin(b[i])[2:] if "s" in form else b[i])
            L.add([["-d", t, "1.2.3.4"], ["-d", dotted(g.r.getrandbits(32)), t], ["-r", g.cidr(4), t], ["-m", t + "/8"]][i])
            L.add([["-s", g.cidr(4, 9), c], ["-r", g.cidr(6, 128), form % (bin(b[i])[2:] if "s" in form else b[i] % 129)], ["%s/%s" % (txt(4, g.addr(4)), c)], ["-m", "1.2.3.4/" + t]][i])
    for a in AFFIXES * g.n(1, 4):
        for k in range(7):
            f = g.family()
            xs = (["-d", txt(f, g.addr(f)), txt(f, g.addr(f))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), str(BITS[f] - g.r.randrange(3))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), txt(f, g.mask(f))],
                  ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 9), str(g.r.randrange(60))], ["-m", g.net(f)], ["-e", enum_net(g, f, 2)], ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 9), str(g.r.randrange(60))])[k]
            i = g.r.randrange(1, len(xs)) if xs[0] not in ("-r", "-s") or k == 3 else 2
            xs[i] = affixed(g, xs[i], a)
            if xs[0] != "-e" or few_addresses(xs[1:]):
                L.add(xs)
    for _ in range(g.n(500, 4000)):
        f = g.family()
        lop = g.net_text(f, g.addr(f), full(f) ^ 5 << g.r.randrange(BITS[f] - 3))
        xs = g.r.choice([["-d", g.spell(f, g.addr(f)), txt(f, g.addr(f))], ["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), g.mask_text(f, g.mask(f))],
                         ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 9), str(g.r.randrange(60)), str(g.r.randrange(60))], ["-m", g.net(f), g.net(f)], ["-e", enum_net(g, f, 2), lop], [g.net(f)]])
        i = g.r.randrange(len(xs))
        if xs[0][0] == "-" and i == 0: i = 1
        xs[i] = mutated(g, xs[i])
        if xs[0] == "-r":
            # whatever became of the network or the subnet: few subnets only
            if i == 1: xs[2] = g.r.choice(["0", "1", "-%d" % BITS[f]])
        if xs[0] == "-e" and not few_addresses(xs[1:]):
            continue
        L.add(xs)
    # options where there should be something else
    opts = ["-m", "--minimize", "-d", "--derange", "-s", "--split", "-r", "--resize", "-e", "--enumerate", "--help", "--color-test", "-h", "--", "-", "--version", "-v"]
    for o in opts:
        for xs in ([g.cidr(4)], [g.net(6)], ["-m", g.cidr(4)], ["-d", txt(4, g.addr(4))], ["-s", g.cidr(4)], ["-r", g.cidr(6)], ["-e", enum_net(g, 4, 2)], ["-s", g.cidr(4, 20), "5"],
                   [g.net(4), g.net(4)], ["-m", g.cidr(6), g.cidr(6)], ["-e", enum_net(g, 6, 2), enum_net(g, 6, 1)]):
            if g.thorough or len(xs) < 2 or g.r.randrange(2):
                i = g.r.randrange(1, len(xs) + 1)
                L.add(xs[:i] + [o] + xs[i:])
    # one family written within the other, where either family could be meant
    for _ in range(g.n(2, 10)):
        v4, a6 = dotted(g.r.getrandbits(32)), g.r.getrandbits(128)
        for x in ("::ffff:" + v4, "::FFFF:" + v4, "::" + v4, "64:ff9b::" + v4, ":" + v4, v4 + ":", v4 + "::", "0:0:0:0:0:ffff:" + v4, "::ffff:0:" + v4, "[" + v4 + "]", v4 + ":0", "2002:" + v4,
                  "6to4:" + v4, ":".join(v4.split(".")), "::" + ".".join(v4.split(".")[:3]), "%d" % a6, "%x" % a6, ".".join("%d" % (a6 >> k & 255) for k in range(120, -8, -8))):
            for f in (4, 6):
                L.add(["-d"] + shuffled(g, [x, txt(f, g.addr(f))]))
            f = g.family()
            L.add(["-m"] + shuffled(g, [x + g.r.choice(["/32", "/128", "/8", "/120"]), g.cidr(f)]))
            L.add(g.r.choice([["-r", g.cidr(f), x], ["-r", x + "/32", "32"], ["-e", x + g.r.choice(["/32", "/128"])], [x + g.r.choice(["/24", "/128"])], ["-s", x + "/24", "5"]]))
    kinds = [lambda f: g.spell(f, g.addr(f)), lambda f: g.cidr(f), lambda f: g.net_text(f, g.addr(f), g.lopsided(f)), lambda f: str(g.r.randrange(40)), lambda f: "-" + str(g.r.randrange(40)),
             lambda f: txt(f, g.mask(f)), lambda f: "-" + txt(f, g.mask(f)), lambda f: "", lambda f: "--", lambda f: "-m"]
    right = {"-d": (0, 0), "-r": (1, 3), "-s": (1, 3), "-m": (1, 1), "-e": (1, 1), "": (1, 1)}
    for mode, want in right.items():
        for i in range(2):
            for k in range(len(kinds)):
                for f in (4, 6):
                    f2 = g.r.choice((f, f, 10 - f))
                    args = [kinds[k if j == i else want[j]](f if j == i else f2) for j in range(2)]
                    if mode == "-e" and k != want[i]: args[1 - i] = enum_net(g, f2, 2)
                    if mode == "-e" and k in (1, 2): continue
                    if mode == "-r" and i == 0 and k in (1, 2): continue
                    if mode == "-r" and i == 1: args[0] = "%s/%d" % (txt(f2, g.addr(f2)), BITS[f2])
                    if mode == "" and i == 0 and k in (8, 9): continue
                    L.add(([mode] if mode else []) + args)
    # every prefix beyond the limit, nearby
    for f in (4, 6):
        for p in range(BITS[f] + 1, BITS[f] + 12):
            for s in ("", "-"):
                L.add(["%s/%s%d" % (txt(f, g.addr(f)), s, p)])
                L.add(["-r", "%s/%d" % (txt(f, g.addr(f)), BITS[f]), "%s%d" % (s, p)])
    for i in range(4):
        for v in (256, 257, 299, 300, 511, 512, 1000):
            o = ["1", "2", "3", "4"]
            o[i] = str(v)
            L.add([".".join(o) + "/8"])
            L.add(["1.2.3.4/" + ".".join(o)])
            L.add(["-d", "1.2.3.4", ".".join(o)])
            L.add(["-r", "1.2.3.4/32", ".".join(o)])
    # texts typed in the models
    bad = [chars(b["s"]) for k in ("addr6", "addr4") for b in L.models[k] if not b["ok"]]
    for b in g.batches([embed_addr(g, s) + ("/128" if ":" in s else "/32") for s in sample(g, bad, g.n(2400, 30000))], 40):
        L.add(["-e"] + b)
    for s in sample(g, bad, g.n(150, 3000)):
        x = embed_addr(g, s)
        L.add(g.r.choice([["-d", x, g.spell(6 if ":" in s else 4, 5)], ["-d", g.spell(6 if ":" in s else 4, 5), x], ["-m", x + "/9"], ["-s", x + "/20", "5"], [x + "/7"]]))
    nets = L.models["net"] + L.models["net-number"]
    for b in sample(g, [b for b in nets if not b["ok"]], g.n(500, 3000)):
        x = embed_net_text(g, chars(b["s"]))
        c = g.r.randrange(5)
        if c == 0 and x[:1] != "-":
            L.add([x])
        elif c == 1:
            L.add(["-r", x, "0"])
        else:
            L.add(["-m"] + shuffled(g, [x] + [g.cidr(6 if ":" in x else 4)] * g.r.randrange(2)))
    for b in sample(g, [b for b in nets if b["ok"]], g.n(200, 3000)):
        L.add(["-m", embed_net_text(g, chars(b["s"]))])
    for b in sample(g, L.models["mask"] + L.models["mask-number"], g.n(400, 4000)):
        s = embed_net_text(g, chars(b["s"]))
        L.add(["-r", g.r.choice(["1.2.3.4/32", "9.8.7.6/31", "::1234/128", "1:2::/127"]), s])


def chars(s):
    return "".join(map(chr, s))


def embed_addr(g, s):
    """A text typed in a model with fewer groups or octets, filled up, and its characters varied."""
    r = g.r
    out = ""
    for c in s:
        if c == "1" and ":" in s: c = r.choice("123456789abcdefABCDEF")
        elif c == "f": c = r.choice("fFeEaAbBcCdD")
        elif c == "g": c = r.choice("ggGxzhH_%, .;@`")
        elif c in "-+": c = r.choice("-+ x,;")
        out += c
    s = out
    if ":" in s:
        if r.randrange(4) == 0:
            return s
        k = 8 - min(8, len([x for x in s.split(":") if x]))
        if "::" in s:
            k = r.randrange(k + 1)
        if k == 0:
            return s
        a = r.randrange(k + 1)
        front = ":".join("%x" % r.choice([0, 1, 0xffff, r.randrange(65536)]) for _ in range(a))
        back = ":".join("%x" % r.choice([0, 1, 0xffff, r.randrange(65536)]) for _ in range(k - a))
        if front and (s[:2] != "::" or r.randrange(8) == 0):
            front += ":"
        if back and (s[-2:] != "::" or r.randrange(8) == 0):
            back = ":" + back
        return front + s + back
    if r.randrange(6) == 0:
        return s
    o = [str(r.choice([0, 1, 255, r.randrange(256)])) for _ in range(4)]
    k = r.randrange(3)
    return ".".join(o[:k] + [s] + o[k:2])


def embed_net_text(g, s):
    def part(x):
        d = "-" if x[:1] == "-" else ""
        x = x[len(d):]
        return d + (embed_addr(g, x) if ":" in x or "." in x else x)
    return "/".join(part(x) for x in s.split("/"))


# ---- ends of the address spaces ---------------------------------------------------------

def edge(g, f):
    """An address at or next to an end of the space or a boundary of its parts."""
    w, r = BITS[f], g.r
    c = r.choice([0, full(f), full(f), 1 << (w - 1), 1 << (w // 2), 1 << (8 * r.randrange(1, w // 8)), full(f) >> 8 * r.randrange(1, w // 8),
                  full(f) ^ ((1 << 8 * r.randrange(1, w // 8)) - 1)])
    return max(0, min(full(f), c + r.choice([-2, -1, 0, 0, 0, 1, 2])))


def edge_mask(g, f):
    w, r = BITS[f], g.r
    k = r.randrange(4)
    if k < 2:
        return pmask(f, r.choice([0, 1, w - 1, w, w - 2, w // 2, r.randrange(w + 1), 8 * r.randrange(w // 8 + 1)]))
    if k == 2:
        return full(f) ^ pmask(f, r.randrange(w + 1))
    return g.lopsided(f)


def c04(L):
    g = L.g
    for _ in range(g.n(260, 4000)):
        f = g.family()
        L.add(["%s/%s" % (txt(f, edge(g, f)), g.mask_text(f, edge_mask(g, f)))])
    for _ in range(g.n(260, 3000)):
        f = g.r.choice((4, 4, 6))
        L.add(["-d", txt(f, edge(g, f)), txt(f, edge(g, f))])
    for _ in range(g.n(260, 3000)):
        f = g.family()
        L.add(["-m"] + ["%s/%s" % (txt(f, edge(g, f)), g.mask_text(f, edge_mask(g, f))) for _ in range(g.r.randrange(1, 6))])
    for _ in range(g.n(200, 3000)):
        f = g.family()
        w = BITS[f]
        m = edge_mask(g, f)
        t = edge_mask(g, f)
        if ones(t) > ones(m) + 3:
            t, m = m, t
        if ones(t) > ones(m) + 3:
            t = m
        L.add(["-r", "%s/%s" % (txt(f, edge(g, f)), txt(f, m)), g.mask_text(f, t)])
    for _ in range(g.n(200, 3000)):
        f = g.r.choice((4, 4, 6))
        x = split_request(g, f)
        x[0] = txt(f, edge(g, f)) + "/" + (x[0].split("/")[1] if g.r.randrange(4) else g.mask_text(f, edge_mask(g, f)))
        L.add(["-s"] + x)
    for b in sample(g, L.models["argv"], g.n(300, 6000)):
        L.add(embed_argv(g, b["argv"]))
    for _ in range(g.n(200, 3000)):
        f = g.family()
        m = full(f) ^ pmask(f, 0) ^ (sum(1 << i for i in g.r.sample(range(BITS[f]), g.r.randrange(6))))
        L.add(["-e", "%s/%s" % (txt(f, edge(g, f)), txt(f, full(f) ^ (full(f) ^ m))), "%s/%d" % (txt(f, edge(g, f)), BITS[f] - g.r.randrange(6))])
    for f in (4, 6):
        w = BITS[f]
        for p in range(w + 1):
            if f == 6 and not g.thorough and g.r.randrange(2):
                continue
            L.add(["-d", txt(f, pmask(f, p)), txt(f, full(f))])
            L.add(["-s", "%s/%d" % (txt(f, full(f)), p), str(max(0, 2 ** (w - p) - 2))])
            L.add(["-m", "%s/%d" % (txt(f, full(f)), p), "%s/%d" % (txt(f, full(f) ^ ((1 << (w - p)) & full(f))), p)])
            if p < w:
                L.add(["-r", "%s/%d" % (txt(f, full(f)), p), str(p + 1)])
        for x in ([str(2 ** w), str(2 ** w - 2), str(2 ** w - 1), str(2 ** (w - 1) - 2), "0"]):
            L.add(["-s", txt(f, 0) + "/0", x])
            L.add(["-s", txt(f, 0) + "/0", x, x])
            L.add(["-s", txt(f, full(f)) + "/%d" % w, x])
            L.add(["-s", txt(f, full(f)) + "/%d" % (w - 1), x])
    # much of everything
    f = g.family()
    L.add(["-r", "%s/%d" % (txt(f, full(f)), BITS[f] - 16 - g.r.randrange(3)), str(BITS[f])], keep=some_blocks(g, 1 << 16))
    L.add(["-e", "%s/%d" % (txt(f, full(f)), BITS[f] - 16)], keep=some_addresses(g, 1 << 16))
    for f in (4, 6):
        few = [g.net(f) for _ in range(12)]
        L.add(["-m"] + g.r.choices(few, k=g.r.randrange(257, 400)))
        L.add(["-e"] + ["%s/%d" % (txt(f, g.addr(f)), BITS[f])] * 300)
        L.add(["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 12)] + ["1"] * g.r.choice([256, 257, 300]))
        # of every length of text
        L.add(["-e"] + shuffled(g, [g.net_text(f, g.addr(f), full(f)) for _ in range(180)] + [g.spell(f, g.addr(f)) + "/" + txt(f, full(f)) for _ in range(110)]))
        L.add(["-m"] + [g.spell(f, g.addr(f) & 0xFFFF00FF | full(f) << 16 & full(f)) + "/" + g.mask_text(f, full(f) ^ 3) for _ in range(270)])
        L.add([g.spell(f, g.addr(f)) + "/" + g.mask_text(f, g.mask(f)) for _ in range(260)] if f == 4 or g.thorough else [g.net(f) for _ in range(40)])
    L.add([g.net(g.r.choice((4, 4, 4, 6))) for _ in range(g.r.randrange(257, 300))])
    # long arguments, well-formed or not, of one-byte characters or others
    for n in (11, 16, 21, 33, 41, 50, 64, 65, 80, 128, 129, 200, 256, 257, 300, 1000) + ((5000, 70000) if g.thorough else (5000,)):
        f = g.family()
        w = BITS[f]
        many, zeros = g.r.choice(["\u00e9", "\u20ac", "\U0001f600", "x", "9", ":", ".", "-", "/"]), "0" * n
        junk = ("x" * n)[:g.r.randrange(4)] + many * n
        address = zeros + txt(f, g.addr(f)) if f == 4 else ":".join([zeros + "%x" % g.r.getrandbits(16) for _ in range(8)])
        mask = zeros + "255." + zeros + "255.255.252" if f == 4 else ":".join([zeros + "ffff"] * 8)
        number = zeros + str(w - g.r.randrange(3))
        for good in (address, number, mask, "-" + mask, "-" + number):
            L.add(["-r", txt(f, g.addr(f)) + "/" + str(w), good])
        for net in (address + "/" + mask, address + "/" + number, address + "/-" + number):
            L.add([net])
            L.add([g.r.choice(["-m", "-e"]) if "/-" not in net else "-m", net])
        L.add(["-d", address, txt(f, g.addr(f))])
        L.add(["-d", txt(f, g.addr(f)), address])
        L.add(["-s", txt(f, g.addr(f)) + "/" + zeros + str(w - 6), zeros + "5"])
        L.add(["-s", txt(f, g.addr(f)) + "/%d" % (w - 6), "9" * n])
        for bad in (junk, txt(f, g.addr(f)) + "/" + junk, txt(f, g.addr(f)) + junk, junk + "/8", txt(f, g.addr(f)) + "/" + "9" * n, "1" * n + "." * (f == 4) + ":1::" * (f == 6)):
            for xs in ([bad], ["-m", bad], ["-e", bad], ["-d", bad, "::"], ["-d", txt(f, 7), bad], ["-s", bad, "5"], ["-s", "1.2.3.4/24", bad], ["-r", bad, "5"], ["-r", g.cidr(f, w), bad]):
                if g.thorough or g.r.randrange(3) == 0:
                    L.add(xs)
    # anything at all as an argument
    pool = ["-m", "-d", "-s", "-r", "-e", "--help", "--", "-", "", "0", "1", "32", "128", "-8", "1.2.3.4", "::", "::/0", "0.0.0.0/0", "1.2.3.4/30", "::/127", "/", ":", ".", "\u00e9", "\U0001f600", "255.255.255.255/32",
            "x" * 300, "1.2.3.4/" + "9" * 40, "1" * 50 + ".2.3.4/8", ":" * 40, "1.2.3.4/31", "--minimize", "--split", "5"]
    for _ in range(g.n(250, 3000)):
        xs = [g.r.choice(pool) for _ in range(g.r.randrange(0, 5))]
        if xs[:1] == ["--color-test"] or big(xs):
            continue
        L.add(xs)


def big(xs):
    """Would print without end."""
    return (xs[:1] and xs[0] in ("-e", "--enumerate") and any(x in ("0.0.0.0/0", "::/0") for x in xs)) or \
           (xs[:1] and xs[0] in ("-r", "--resize") and any(x in ("0.0.0.0/0", "::/0") for x in xs))


# ---- colour -------------------------------------------------------------------------------

def c17(L):
    g = L.g
    for f in (4, 6):
        for p in range(BITS[f] + 1):
            if f == 4 or g.thorough or g.r.randrange(2):
                L.add(["%s/%d" % (txt(f, g.addr(f)), p)], 1)
        for _ in range(g.n(170 if f == 4 else 70, 2500 if f == 4 else 800)):
            L.add([g.net(f)], 1)
    for top in range(16):       # class bits
        for mtop in range(16):
            L.add([g.net_text(4, top << 28 | g.r.getrandbits(28), mtop << 28 | (g.r.getrandbits(28) if g.r.randrange(2) else 0))], 1)
    for b in sample(g, L.models["report"], g.n(60, 1200)):
        L.add([embed_top(g, b["n"])], 1)
    modes = [lambda f: [g.net(f)], lambda f: [g.net(f), g.net(10 - f)], lambda f: resize_args(g, f, 2), lambda f: split_args(g, f),
             lambda f: ["-m"] + [g.net(f) for _ in range(3)], lambda f: ["-d", txt(f, g.addr(f)), txt(f, g.addr(f))],
             lambda f: ["-e", enum_net(g, f, 3)], lambda f: [g.cidr(f, BITS[f])], lambda f: [g.cidr(f, BITS[f] - 1)],
             lambda f: [bad_net(g, f)], lambda f: ["--help"], lambda f: [], lambda f: ["--color-test"]]
    # 0: not a terminal; 1: forced; 2: a terminal; 3: a terminal, but told not to
    for i in range(g.n(190, 2000)):
        f = g.r.choice((4, 4, 6))
        a = modes[i % len(modes)](f)
        L.same("C17.text", [a, a, a, a] if i % 3 == 0 else [a, a], [0, 1, 2, 3] if i % 3 == 0 else [0, 1])


# ---- modes ------------------------------------------------------------------------------------

OPTS = {"minimize": ("-m", "--minimize"), "derange": ("-d", "--derange"), "split": ("-s", "--split"),
        "resize": ("-r", "--resize"), "enumerate": ("-e", "--enumerate")}


def c18(L):
    g = L.g
    toks = {4: ["1.2.3.4", "10.0.0.0/30", "9.8.7.6/255.255.253.252", "30", "255.255.255.254"],
            6: ["1::2", "a::/127", "f::/ffff:ffff:ffff:ffff:ffff:ffff:fffd:fffc", "126", "ffff::"]}
    argss = []
    for o in sum(OPTS.values(), ()):
        for n in range(0, 5):
            for _ in range(g.n(14, 60) if n else 1):
                argss.append([o] + [g.r.choice(toks[g.r.choice((4, 4, 6))] + ["2"]) for _ in range(n)])
    argss += [[], ["--help"], ["--help", "1.2.3.4/8"], ["--help", "x"], ["-h"], ["--version"], ["--Minimize"], ["-M"], ["-mm"], ["--min"], ["--minimize=x"], ["minimize"],
              ["-D"], ["--derang"], ["-x", "1.2.3.4/8"], ["--resize "], [" -m"], ["--"], ["--", "-m"], [""], ["1.2.3.4/8", "-m"], ["1.2.3.4/8", "--help"], ["-"],
              ["--split1"], ["--enum", "1.2.3.4/32"], ["-E", "1.2.3.4/32"], ["-S", "1.2.3.4/24", "5"], ["-R", "1.2.3.4/24", "25"], ["--splitt", "1.2.3.4/24", "5"]]
    for c in [chr(c) for c in range(33, 127)]:     # every other option of one letter
        if "-" + c not in sum(OPTS.values(), ()):
            argss += [["-" + c, "1.2.3.4/30"]] + [["-" + c]] * (c in "?hHvVuU")
    for o in ("help", "usage", "version", "?", "ip", "ipv4", "ipv6", "color", "no-color", "colour", "quiet", "verbose", "all", "json", "csv", "binary", "info", "sort", "merge", "range", "list", "hosts", "supernet",
              "subnet", "subnets", "aggregate", "expand", "invert", "wildcard", "mask", "contains", "overlap", "input", "file", "stdin", "test", "debug", "trace"):
        argss += [["--" + o], ["--" + o, "1.2.3.4/30"], [o], ["-" + o, "1.2.3.4/30"], [o, "1.2.3.4/30"], ["--" + o + "=x", "1.2.3.4/30"], ["/" + o]]
    for x in "mdsreh46":                        # several letters
        for y in "mdsrehv6":
            argss.append(["-" + x + y, "1.2.3.4/30"])
    for x in "mdsre":
        argss += [[x, "1.2.3.4/30"], ["-" + x + "1.2.3.4/30"], ["-" + x + "=1.2.3.4/30", "1.2.3.4/30"], ["+" + x, "1.2.3.4/30"], ["-" + x + "1.2.3.4/30", "30"], ["\u2013" + x, "1.2.3.4/30"]]
    for o in sum(OPTS.values(), ()):            # near misses of every option
        for v in [o[:-1], o + "x", o.upper(), o[1:], "-" + o, o + "=", o + " "] + [o[:k] for k in range(3, len(o) - 1)]:
            if v not in sum(OPTS.values(), ()) and v not in ("--help", "--color-test"):
                argss.append([v, "1.2.3.4/30"])
                argss.append([v, "1.2.3.4/24", "25"])
    for a in argss:
        if not big(a):
            L.add(a)
    # one argument too many or too few, of any kind
    for o in OPTS["derange"] + OPTS["resize"]:
        for f in (4, 6):
            two = [txt(f, g.addr(f)), txt(f, g.addr(f))] if o in OPTS["derange"] else ["%s/%d" % (txt(f, g.addr(f)), BITS[f]), str(BITS[f] - g.r.randrange(5))]
            for x in ("", " ", "-", "--", "--help", "-m", "-d", "-v", "/", "0", "5", "#", "x", two[0], two[1], txt(10 - f, 7)):
                for i in ([2] if not g.thorough else range(3)):
                    L.add([o] + two[:i] + [x] + two[i:])
                L.add([o] + two + [x] * 2)
                L.add([o, x])
    for o in sum(OPTS.values(), ()):
        for x in ("", " ", "--", "--help", "-h", "5", "x", "10.0.0.0/30", "::/127", "1.2.3.4"):
            L.add([o, x])
            L.add([o, g.net(4), x] if o not in OPTS["enumerate"] else [o, "10.0.0.0/30", x])
    # the families at every position
    for n in (2, 3, 4, 5, 5, 9, g.n(12, 40)):
        for i in range(n):
            f = g.family()
            xs = [g.cidr(f) for _ in range(n)]
            xs[i] = g.cidr(10 - f)
            L.add([g.r.choice(OPTS["minimize"])] + xs)
            xs[i] = g.r.choice([lambda: "%s/%d" % (txt(10 - f, g.r.choice([0, full(10 - f)])), g.r.choice([0, 0, BITS[10 - f]])), lambda: g.net(10 - f)])()
            L.add([g.r.choice(OPTS["minimize"])] + xs)
    for _ in range(g.n(20, 100)):
        f = g.family()
        L.add([g.r.choice(OPTS["derange"]), txt(f, g.addr(f)), txt(10 - f, g.addr(10 - f))])
        L.add([g.r.choice(OPTS["resize"]), g.cidr(f), txt(10 - f, g.mask(10 - f))])
        L.add([g.r.choice(OPTS["resize"]), g.cidr(f), "-" + txt(10 - f, g.mask(10 - f))])
    # both forms of an option
    for _ in range(g.n(40, 300)):
        f = g.family()
        for mode, args in (("minimize", [g.net(f) for _ in range(g.r.randrange(1, 4))]), ("derange", [txt(f, g.addr(f)), txt(f, g.addr(f))]),
                           ("split", split_request(g, f)), ("resize", resize_args(g, f, 2)[1:]), ("enumerate", [enum_net(g, f, 3)])):
            L.same("C18.forms", [[o] + args for o in OPTS[mode]])
    for b in sample(g, L.models["argv"], g.n(500, 6000)):
        L.add(embed_argv(g, b["argv"]))


def embed_argv(g, kinds):
    """Real arguments of the kinds a behaviour of MC_Modes has."""
    def one(k):
        r = g.r
        f = 6 if k.endswith("6") else 4
        if k.startswith("net"): return enum_net(g, f, 3)
        if k == "lop4": return "%s/%s" % (txt(4, g.addr(4)), txt(4, full(4) ^ (1 << r.randrange(1, 32)) ^ (1 << r.randrange(1, 32))))
        if k.startswith("addr"): return txt(f, g.addr(f))
        if k == "num": return str(r.randrange(28, 33))
        if k == "wild": return "-%d" % r.randrange(4)
        if k == "big": return str(r.choice([129, 200, 999, 2 ** 40, 10 ** 25]))
        if k == "mask4": return txt(4, full(4) ^ (1 << r.randrange(32)))
        if k == "wmask6": return "-" + txt(6, 1 << r.randrange(128))
        if k == "bad": return r.choice(["1.2.3/8", "1.2.3.256/30", "1.2.3.4/33", "::g/128", "1::2::3/127", "1.2.3.4/", "/", "x", "1.2.3.4/::", "::/255.0.0.0", "1.2.3.4/30/", "--minimise"])
        if k == "empty": return ""
        for o in OPTS.values():
            if k in o: return r.choice(o)
        return k
    return [one(k) for k in kinds]


# ---- chains -------------------------------------------------------------------------------------

def usable(out, most=300):
    """Whether the lines can be arguments of a further run."""
    return 0 < len(out) <= most and all(0 < len(x) < 100 and x.isascii() and x.isprintable() for x in out)


def nets_printed(run):
    """What a run printed, as network arguments (the specification checks this extraction)."""
    opt = run["args"][0] if run["args"] else ""
    out = run["out"]
    if opt in OPTS["minimize"] or opt in OPTS["derange"]:
        return list(out)
    if opt in OPTS["enumerate"]:
        return [l + ("/128" if ":" in l else "/32") for l in out]
    named = [l.split()[1] for l in out if l.startswith("Network:") and len(l.split()) > 1]
    if opt in OPTS["resize"]:
        return named[1:]
    if opt in OPTS["split"]:
        i = out.index("Unused networks:") if "Unused networks:" in out else len(out)
        return named[1:] + out[i + 1:]
    return named


def value_of(run, label):
    for l in run["out"]:
        if l.startswith(label) and len(l.split()) > 1:
            return l.split()[1]
    return None


def window(g, f):
    """CIDR networks in a window of at most 64 addresses."""
    w = BITS[f]
    h = g.r.randrange(1, 7)
    base = g.r.choice([g.addr(f), full(f), 0]) & pmask(f, w - h)
    return [(base | g.r.getrandbits(h), pmask(f, w - g.r.randrange(h + 1))) for _ in range(g.r.randrange(1, 5))]


def stage(g, f, cur, small):
    """Invocations that together print the same addresses as the networks in cur contain."""
    k = g.r.randrange(5 if small else 4)
    if k == 4 and sum(2 ** (BITS[f] - int(n.split("/")[1])) for n in cur) <= 150:
        return [["-e"] + cur]
    if k == 3 or k == 4:
        return [["-m"] + cur]
    steps, room = [], max(1, 150 // len(cur))
    for n in cur:
        h = BITS[f] - int(n.split("/")[1])
        if k == 0 or h < 1:     # (which may be the network itself)
            d = g.r.randrange(4)
            while 2 ** d > room:
                d -= 1
            steps.append([g.r.choice(OPTS["resize"]), n, str(min(BITS[f], BITS[f] - h + d))])
            continue
        c = [max(0, 2 ** x - 2 - g.r.randrange(2)) for x in [g.r.randrange(1, h + 1)]]
        if h > 2:
            c = [max(0, 2 ** g.r.randrange(1, h - 1) - 2) for _ in range(g.r.randrange(1, 4))]
        steps.append([g.r.choice(OPTS["split"]), n] + [str(x) for x in c])
    return steps


def planned(f, cur, op):
    """The invocations for one step of a history of MC_Chain."""
    w, k = BITS[f], op[0]
    if k in "em":
        return [["-" + k] + cur]
    steps = []
    for n in cur:
        a, p = n.split("/")
        h = w - int(p)
        if k == "d":
            v = int(ipaddress.ip_address(a))
            steps.append(["-d", txt(f, v | (1 << h) - 1), a])
        elif k == "s" and sum(2 ** x for x in op[1:]) <= 2 ** h:
            steps.append(["-s", n] + [str(2 ** x - 2) for x in op[1:]])
        else:
            steps.append(["-r", n, str(min(w, w - h + (op[1] if k == "r" else 0)))])
    return steps


def embed_chain(g, b):
    """The networks of a history of MC_Chain: the low bits of an address, or others if nothing is enumerated."""
    f = g.r.choice((4, 4, 6))
    w, k = BITS[f], len(b["nets"][0]["m"])
    s = 0 if any(op[0] == "e" for op in b["ops"]) else g.r.choice([0, g.r.randrange(w - k), w // 2 - 1, w - k])
    base = g.r.choice([g.addr(f), full(f), 0]) & pmask(f, w - s)
    at = list(range(w - s - k, w - s))
    nets = [g.net_text(f, place(f, base, at, n["b"]), place(f, pmask(f, w - s), at, n["m"])) for n in b["nets"]]
    # the smallest networks of the window are single addresses only when it is the lowest one
    ops = [op if s == 0 else [op[0]] + [x + s if op[0] == "s" else x for x in op[1:]] for op in b["ops"]]
    return f, nets, ops


def pipelines(L, count):
    g = L.g
    todo = []
    for b in sample(g, distinct(L.models["chain"]), g.n(150, 1500)):
        f, nets, ops = embed_chain(g, b)
        todo.append(dict(f=f, small=True, nets=nets, cur=nets, runs=[["-m"] + nets], prev=None, links=[], base=[], more=len(ops), ops=ops))
    for i in range(count):
        f = g.r.choice((4, 4, 6))
        if i % 4 == 0:
            nets = [(g.addr(f), pmask(f, g.prefix(f))) for _ in range(g.r.randrange(1, 3))]
        else:
            nets = window(g, f)
        nets = [g.net_text(f, a, m) for a, m in nets]
        todo.append(dict(f=f, small=i % 4 != 0, nets=nets, cur=nets, runs=[["-m"] + nets], prev=None, links=[], base=[],
                         more=g.r.choice([1, 1, 2, 3]), ops=[]))
    while any(t["more"] for t in todo):
        jobs = []
        for t in todo:
            if t["more"]:
                if t["ops"]:
                    t["steps"] = planned(t["f"], t["cur"], t["ops"][-t["more"]])
                else:
                    t["steps"] = stage(g, t["f"], t["cur"], t["small"])
                jobs += [(s, 0) for s in t["steps"]]
        recs = iter(L.record(jobs))
        for t in todo:
            if not t["more"]:
                continue
            out = [x for _ in t["steps"] for x in nets_printed(next(recs))]
            if not usable(out, 1000):
                t["cur"] = []
                t["runs"] += t["steps"]
                t["more"] = 0
                continue
            if t["prev"] is not None and (len(out) > 250 or sum(map(len, t["steps"])) > 400):
                t["more"] = 0
                continue
            new = list(range(len(t["runs"]) + 1, len(t["runs"]) + len(t["steps"]) + 1))
            t["runs"] += t["steps"]
            if t["prev"] is None:
                t["base"].append([1, new[0], new[-1]])
            else:
                t["links"].append([new, t["prev"]])
            t["prev"], t["cur"] = new, out
            # nothing to go on with: what was printed is not what should have been
            t["more"] = t["more"] - 1 if len(out) <= 250 and all(len(x.split("/")) == 2 and x.split("/")[1].isdecimal() and
                                                                          int(x.split("/")[1]) <= BITS[t["f"]] for x in out) else 0
    for t in todo:
        if not t["cur"]:
            ids = [L.add(r) for r in t["runs"]]
            L.groups.append(("chain", "C19.differs", ids, {"links": t["links"], "base": t["base"], "reads": [[list(range(1, len(ids) + 1)), 100000]]}))
            continue
        last = len(t["runs"]) + 1
        ids = [L.add(r) for r in t["runs"] + [["-m"] + t["cur"]]]
        t["links"].append([[last], t["prev"]])
        L.groups.append(("chain", "C19.differs", ids, {"links": t["links"], "equal": [[1, last]], "base": t["base"]}))


def lopsided_window(g, f):
    """Networks of at most 64 addresses whose host bits lie at a few scattered positions."""
    w, r = BITS[f], g.r
    at = g.scatter(f, r.randrange(1, 7))
    base = place(f, g.addr(f), at, [0] * len(at))
    for _ in range(r.randrange(1, 5)):
        hosts = [p for p in at if r.randrange(3)] if r.randrange(4) else at
        yield place(f, base, at, [r.randrange(2) for _ in at]), full(f) ^ place(f, 0, hosts, [1] * len(hosts))


def lopsided_chains(L, count):
    g = L.g
    todo = []
    for _ in range(count):
        f = g.r.choice((4, 4, 6))
        if g.r.randrange(4):
            todo.append([g.net_text(f, a, m) for a, m in lopsided_window(g, f)])
        else:       # addresses that differ in one bit
            a, b = g.addr(f), g.addr(f)
            todo.append([g.net_text(f, x ^ (1 << k), full(f)) for x, k in ((a, 0), (b, 0), (a, g.r.randrange(1, BITS[f])), (b, g.r.randrange(BITS[f])))] + [g.net_text(f, a ^ 1, full(f))])
    mins = L.record([(["-m"] + x, 0) for x in todo])
    enums = L.record([(["-e"] + x, 0) for x in todo])
    for nets, m, e in zip(todo, mins, enums):
        fewer, addrs = nets_printed(m), nets_printed(e)
        ids = [L.add(["-m"] + nets), L.add(["-e"] + nets)]
        more = {"reads": [[[1], len(nets)], [[2], 64 * len(nets)]]}
        if usable(fewer, 300) and usable(addrs, 300):
            addrs = list(dict.fromkeys(addrs))
            ids += [L.add(["-m"] + fewer), L.add(["-e"] + fewer), L.add(fewer), L.add(["-m"] + nets + fewer)]
            more.update(links=[[[3], [1]], [[4], [1]], [[5], [1]]], equal=[[1, 3], [1, 6]], names=[[1, 5]], members=[[[2], [4]]])
        L.groups.append(("chain", "C19.differs", ids, more))


def c19(L):
    g = L.g
    pipelines(L, g.n(130, 1800))
    lopsided_chains(L, g.n(70, 800))
    # a network's ends, as a range
    nets = []
    for _ in range(g.n(110, 1000)):
        f = g.family()
        p = min(g.prefix(f), BITS[f] - 1)
        a = g.r.choice([g.addr(f), full(f), 0]) & pmask(f, p)
        nets.append("%s/%d" % (txt(f, a), p))
    for n, r in zip(nets, L.record([([n], 0) for n in nets])):
        lo, hi = value_of(r, "Network:"), value_of(r, "Broadcast:")
        if lo is None or hi is None or not usable([lo, hi]):
            L.add([n])
            continue
        x, y, z = L.add([n]), L.add(["-d", lo.split("/")[0], hi]), L.add(["-m", n])
        L.groups.append(("chain", "C19.differs", [x, y, z], {"links": [], "equal": [[2, 3]], "ends": [[1, 2]]}))
    # any range, minimized
    rs = []
    for _ in range(g.n(80, 800)):
        f = g.r.choice((4, 4, 6))
        a, b = range_ends(g, f)
        if f == 6 and g.r.randrange(3):
            b = min(full(f), a + g.r.getrandbits(g.r.randrange(1, 40)))
        rs.append(["-d", txt(f, a), txt(f, b)])
    for args, r in zip(rs, L.record([(a, 0) for a in rs])):
        x = L.add(args)
        if not usable(r["out"], 128):
            continue
        y = L.add(["-m"] + r["out"])
        L.groups.append(("chain", "C19.differs", [x, y], {"links": [[[2], [1]]], "equal": [[1, 2]]}))
    # the report of a printed network
    srcs = [["-m"] + [g.net(f) for _ in range(2)] for f in (4, 6, 4, 6, 4, 6, 4, 6)] + \
           [["-d"] + [txt(f, x) for x in range_ends(g, f)] for f in (4, 6, 4, 6, 4, 6)] + \
           [resize_args(g, f, 2) for f in (4, 6, 4, 6)] + [["-s"] + split_request(g, f) for f in (4, 6, 4, 6)]
    srcs = srcs * g.n(2, 8)
    for args, r in zip(srcs, L.record([(a, 0) for a in srcs])):
        out = nets_printed(r)
        x = L.add(args)
        if usable(out, 40) and out[0][0] != "-":
            y = L.add(out)
            L.groups.append(("chain", "C19.differs", [x, y], {"links": [[[2], [1]]], "equal": [], "names": [[1, 2]]}))


# ---- behaviours of the bounded models, at full width ------------------------------------------------

def distinct(bs):
    return list({json.dumps(b, sort_keys=True): b for b in bs}.values())


def sample(g, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else g.r.sample(xs, n)


def embed_net(g, n):
    """A network of few bits at some bits of a full network; the others are network bits."""
    f = g.family()
    at = g.scatter(f, len(n["m"]))
    base = g.addr(f)
    return g.net_text(f, place(f, base, at, n["b"]) | 0, place(f, full(f), at, n["m"]))


def embed_top(g, n):
    """An IPv4 network whose first bits are given."""
    k = len(n["m"])
    low = g.r.choice([0, g.r.getrandbits(32 - k), (1 << 32 - k) - 1])
    at = list(range(k))
    return g.net_text(4, place(4, g.r.getrandbits(32), at, n["b"]), place(4, low, at, n["m"]))


def embed_nets(g, nets, hosts=True):
    """The same for several networks. hosts: other bits than the given ones may be host bits."""
    f = g.r.choice((4, 4, 6))
    w = BITS[f]
    k = len(nets[0]["m"])
    base = g.r.choice([g.addr(f), full(f), 0])
    if g.r.randrange(2):        # a window, network bits to its left, host bits to its right: contiguous masks stay so
        p = g.r.randrange(w - k + 1) if hosts and g.r.randrange(3) else w - k
        at = list(range(p, p + k))
        m0 = pmask(f, p + k)
    else:
        at = g.scatter(f, k)
        m0 = full(f) if g.r.randrange(2) or not hosts else g.lopsided(f)
    return f, [(place(f, base, at, n["b"]), place(f, m0, at, n["m"])) for n in nets]


def embed_range(g, b):
    f = g.r.choice((4, 4, 6))
    w, k = BITS[f], len(b["one"])
    p = g.r.choice([g.r.randrange(w - k + 1), w - k, 0, w // 2 - 2])
    base = g.r.choice([g.addr(f), full(f), 0])
    at = list(range(p, p + k))
    lo, hi = sorted((place(f, base, at, b["one"]), place(f, base, at, b["other"])))
    s = w - p - k
    lo, hi = lo >> s << s, hi | ((1 << s) - 1)
    return (f, lo, hi) if g.r.randrange(2) else (f, hi, lo)


def embed_resize(g, b, window=False):
    f = g.r.choice((4, 4, 6))
    w, k = BITS[f], len(b["mask"])
    at = g.scatter(f, k)
    base = g.r.choice([g.addr(f), full(f), 0])
    m0 = g.mask(f)
    if window:
        p = g.r.choice([g.r.randrange(w - k + 1), w - k, 0, w // 2 - 2])
        at, m0 = list(range(p, p + k)), pmask(f, p)
    for p in at:
        m0 |= 1 << (w - 1 - p)
    return ["-r", g.net_text(f, place(f, base, at, b["orig"]["b"]), place(f, m0, at, b["orig"]["m"])),
            txt(f, place(f, m0, at, b["mask"]))]


def embed_split(g, b):
    f = g.r.choice((4, 4, 6))
    w, k = BITS[f], len(b["net"]["m"])
    s = g.r.choice([0, 0, g.r.randrange(w - k + 1)])
    p = w - k - s
    base = g.r.choice([g.addr(f), full(f), 0])
    at = list(range(p, p + k))
    q = p + sum(b["net"]["m"])

    def scale(c):
        if c + 2 & c + 1 == 0:
            return 2 ** ((c + 2).bit_length() - 1 + s) - 2
        return 2 ** ((c + 1).bit_length() - 1 + s) - 1
    return ["-s", "%s/%d" % (txt(f, place(f, base, at, b["net"]["b"])), q)] + [str(scale(c)) for c in b["counts"]]


def embed_text(g, b):
    """A text of few groups as a full address: further groups are put where they do not matter."""
    raise NotImplementedError


def found_surroundings(L, requests):
    """Surroundings made for this program: what it asks for is varied, and it is run from elsewhere."""
    g = L.g
    r = g.r
    ask = common.asked_for(L.binary, [f(k) for k in (4, 6) for f in requests] + [[], ["--help"], ["1.2.3.4/5"]])
    more, who = [], []
    for name in sorted(set(ask["E"]) - {"CLICOLOR_FORCE", "LD_PRELOAD", "PATH"}):
        for value in ["1", "0", "", "true", "-m", "24", "10.0.0.0/8", "xterm-256color"] if not name.startswith("RUST_") else ["1", "full"]:
            more.append(({name: value}, None, b"", None))
            who.append(ask["E"][name])
    top = common.scratch()
    home = os.path.join(top, "home")
    names = sorted(f for f in ask["F"] if not f.startswith(("/proc", "/sys", "/etc", "/usr", "/lib", "/dev", "/var")))[:20]
    for i, text in enumerate(["", "-m\n", "24\n", "10.0.0.0/8\n", "1\n", "--help\n1.2.3.4/5\n", "a = 1\n[b]\nc = true\n"]) if names else ():
        d = os.path.join(top, "dir%d" % i)
        for f in names:
            path = os.path.normpath(os.path.join(d, os.path.relpath(f, home) if f.startswith(home) else f))
            if path.startswith(d + "/") and not os.path.exists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as o:
                    o.write(text)
        more.append(({"HOME": d}, None, b"", None, d))
        who.append([a for f in names for a in ask["F"][f]])
    so = common.probe()
    if so and ask["T"]:
        for k in range(g.n(60, 400)):
            add = r.choice([r.randrange(-3600, 3600), r.randrange(86400 * 7), r.randrange(86400 * 366), r.randrange(-10 ** 9, 3 * 10 ** 9)])
            who.append(ask["T"]["realtime"])
            more.append(({"LD_PRELOAD": so, "PROBE_CLOCK": str(add), "PROBE_NANO": str(r.choice([0, 999999999, r.randrange(10 ** 9), 1000 * r.randrange(10 ** 6)]))}, None, b"", None))
    if so and ask["P"]:
        for k in range(g.n(30, 200)):
            who.append(ask["P"]["pid"])
            more.append(({"LD_PRELOAD": so, "PROBE_PID": str(r.choice([1, 2, 1000, 32768, 1 << 22, r.randrange(1, 1 << 16)]))}, None, b"", None))
    for i, name in enumerate(("minimize", "ripcalc6", "enumerate/-e", "sipcalc", "x y")):
        path = os.path.join(top, "bin%d" % i, name)
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            shutil.copy(L.binary, path)
        more.append(({}, path, b"", None, None, path))
        who.append([])
    del common.SURROUNDINGS[common.FIRST_FOUND:]
    for m, args in zip(more, who):
        common.SURROUNDINGS.append(m)
        k = len(common.SURROUNDINGS) - 1
        # one of the invocations that asked, and some others
        few = r.sample(args, min(3, len(args))) + [f(g.r.choice((4, 4, 6))) for f in r.sample(requests, 2)]
        if m[5:]:           # nothing tells which invocations care for the executable
            few = [f(g.r.choice((4, 4, 6))) for f in requests] + [[g.cidr(4)], [g.cidr(6)], ["-m", g.cidr(4)], ["-m", g.cidr(6)]]
        for a in few:
            L.same("C20.same", [a] * 2, [0, 10 * k])
    L.asked = {k: sorted(v)[:40] for k, v in ask.items()}
    if os.environ.get("SHOW"): print(L.asked)


def c20(L):
    g = L.g
    r = g.r
    few = lambda f, n: [g.net(f) for _ in range(n)]
    requests = [
        lambda f: few(f, r.randrange(1, 4)), lambda f: ["-m"] + few(f, r.randrange(2, 14)), lambda f: ["-m"] + [g.cidr(f) for _ in range(r.randrange(2, 14))],
        lambda f: ["-m"] + ["%s/%d" % (txt(f, r.randrange(64) << 8), BITS[f] - 8) for _ in range(r.randrange(4, 24))],
        lambda f: ["-d", txt(f, g.addr(f)), txt(f, g.addr(f))], lambda f: resize_args(g, f, 3), lambda f: split_args(g, f),
        lambda f: ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 12)] + [str(r.choice([0, 1, 2, 5, 6, 14, 30, 100])) for _ in range(r.randrange(2, 12))],
        lambda f: ["-s", g.net_text(f, g.addr(f), g.lopsided(f)), str(r.randrange(9)), str(r.randrange(9))],      # left open, but the same each time
        lambda f: ["-s", "%s/%d" % (txt(f, g.addr(f)), BITS[f] - 4)] + [str(r.randrange(20)) for _ in range(r.randrange(1, 4))],
        lambda f: ["-e", enum_net(g, f, 3), enum_net(g, f, 3)], lambda f: [bad_net(g, f)], lambda f: ["-e", enum_net(g, f, 2), bad_net(g, f), enum_net(g, f, 2)],
        lambda f: ["-m", g.cidr(f), g.cidr(10 - f)], lambda f: ["-r", g.cidr(f)], lambda f: ["-d", g.net(f)], lambda f: ["-m", g.net(f)], lambda f: ["-e", enum_net(g, f, 2)],
        lambda f: r.choice([[], ["-m"], ["-d"], ["-e"], ["-s"], ["-r"]]) + r.choice([["-"], ["@x"], ["/dev/stdin"], ["-", "-"], [g.cidr(f), "-"], ["", ""]])]
    for i in range(g.n(210, 2400)):
        a = requests[i % len(requests)](g.r.choice((4, 4, 6)))
        if a[:1] and a[0] in ("--color-test",):
            continue
        # plainly, in other surroundings, and once more; some at a terminal
        L.same("C20.same", [a] * 4, [0] + [10 * k for k in r.sample(range(1, 9), 2)] + [0] if i % 4 else [0, 10 * r.randrange(1, 5) + 2, 10 * r.randrange(1, 5) + 3, 10 * r.randrange(1, 5) + 1])
    for a in ([], ["--help"], ["--color-test"], ["x"], [""], ["-m"], ["-e"], ["-s", "10.0.0.0/8"], ["1.2.3.4/33"], ["-h"]):
        L.same("C20.same", [a] * 9, [10 * k for k in range(9)])
    for f in requests:
        for k in (4, 6):
            L.same("C20.same", [f(k)] * 5, [0, 50, 60, 70, 80])
            if g.thorough:
                for j in range(1, 9):
                    L.same("C20.same", [f(k)] * 3, [0, 10 * j, 10 * j])
    found_surroundings(L, requests)
    # what is kept in some order of its own: many of them, many times
    for f in (4, 6):
        for _ in range(g.n(3, 12)):
            # lopsided ones, all at one address or mergeable in many ways
            w = BITS[f]
            base = r.getrandbits(w) & ~0xfff
            alike = [txt(f, base) + "/" + txt(f, full(f) ^ sum(1 << i for i in r.sample(range(12), r.randrange(2, 7)))) for _ in range(g.n(14, 30))]
            some = r.sample(range(12), 5)
            m = full(f) ^ sum(1 << i for i in r.sample([i for i in range(12) if i not in some], 3))
            near = [txt(f, base | sum((v >> k & 1) << i for k, i in enumerate(some))) + "/" + txt(f, m) for v in r.sample(range(32), 20)]
            for nets in (alike, near):
                L.same("C20.same", [["-m"] + nets] * 4, [0, 0, 10 * r.randrange(1, 5), 0])
            nets = ["%s/%d" % (txt(f, r.getrandbits(BITS[f])), r.randrange(BITS[f] // 2, BITS[f])) for _ in range(g.n(30, 90))]
            L.same("C20.same", [["-m"] + nets] * 5, [0, 0, 10 * r.randrange(1, 5), 20, 0])
            L.same("C20.same", [["-s", txt(f, r.getrandbits(BITS[f])) + "/%d" % (BITS[f] - 16)] + [str(r.randrange(200)) for _ in range(g.n(24, 60))]] * 4)


WORK = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 21)}
