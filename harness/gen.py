"""Material for invocations: addresses, masks, networks, spellings. Seeded; decides nothing."""
import random

BITS = {4: 32, 6: 128}
CIDR_BYTES = [0, 128, 192, 224, 240, 248, 252, 254, 255]


def full(f):
    return (1 << BITS[f]) - 1


def pmask(f, p):
    return full(f) ^ ((1 << (BITS[f] - p)) - 1)


def dotted(v):
    return ".".join(str((v >> s) & 255) for s in (24, 16, 8, 0))


def groups(v):
    return [(v >> s) & 0xffff for s in range(112, -1, -16)]


def colons(v):
    return ":".join("%x" % g for g in groups(v))


def txt(f, v):
    return dotted(v) if f == 4 else colons(v)


def is_prefix(f, m):
    w = full(f) ^ m
    return (w & (w + 1)) == 0


def ones(m):
    return bin(m).count("1")


# Addresses and blocks with a meaning of their own somewhere: RFC 6890 and relatives.
KNOWN = {4: ["0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "127.0.0.1/32", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24", "192.0.2.0/24",
             "192.88.99.0/24", "192.168.0.0/16", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "224.0.0.0/4", "239.0.0.0/8", "240.0.0.0/4",
             "255.255.255.255/32", "1.1.1.1/32", "8.8.8.8/32"],
         6: ["::/96", "::ffff:0:0/96", "::ffff:0:0:0/96", "64:ff9b::/96", "64:ff9b:1::/48", "100::/64", "2000::/3", "2001::/32", "2001::/23", "2001:2::/48", "2001:10::/28", "2001:20::/28",
             "2001:db8::/32", "2002::/16", "3fff::/20", "5f00::/16", "fc00::/7", "fd00::/8", "fe80::/10", "fe80::/64", "fec0::/10", "ff00::/8", "ff02::1/128", "ff02::1:ff00:0/104",
             "::1/128", "3ffe::/16", "2001:4860:4860::8888/128", "fe80::200:5efe:0:0/96", "0:0:0:0:200:5efe:0:0/96"]}


def known(f):
    import ipaddress
    return [(int(n.network_address), n.prefixlen) for n in map(ipaddress.ip_network, KNOWN[f])]


KNOWN = {f: known(f) for f in KNOWN}


class Gen:
    def __init__(self, seed, name, thorough):
        self.r = random.Random("%s/%s/%s" % (seed, name, thorough))
        self.thorough = thorough

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def family(self):
        return self.r.choice((4, 6))

    # ---- bit vectors -----------------------------------------------------
    def bits(self, w):
        """A vector of w bits of some shape."""
        r = self.r
        k = r.randrange(9)
        if k == 0:
            return r.getrandbits(w)
        if k == 1:      # runs
            v, b, left = 0, r.randrange(2), w
            while left:
                n = min(left, 1 + int(r.expovariate(1 / 5)))
                v = (v << n) | (((1 << n) - 1) if b else 0)
                b, left = 1 - b, left - n
            return v
        if k == 2:      # bytes that tend to carry or to be contiguous
            return self.fit(w, lambda: r.choice([0, 255, 1, 128, 127, 254, 192, 252, 240, r.randrange(256)]))
        if k == 3:
            return 1 << r.randrange(w)
        if k == 4:
            return ((1 << w) - 1) ^ (1 << r.randrange(w))
        if k == 5:      # prefix of ones / suffix of ones
            v = (1 << r.randrange(w + 1)) - 1
            return v if r.randrange(2) else v ^ ((1 << w) - 1)
        if k == 6:
            return r.choice([0, (1 << w) - 1, 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1,
                             (1 << (w // 2)) - 1, 1 << (w // 2)])
        if k == 7:      # next to a byte boundary
            return (r.getrandbits(w) >> 8 * r.randrange(max(1, w // 8)) << 8 * r.randrange(max(1, w // 8)) | r.choice([0, 1, 255])) & ((1 << w) - 1)
        return r.getrandbits(w) & r.getrandbits(w) & r.getrandbits(w)

    def fit(self, w, byte):
        v = 0
        for _ in range((w + 7) // 8):
            v = (v << 8) | byte()
        return v & ((1 << w) - 1)

    def addr(self, f):
        return self.bits(BITS[f]) if self.r.randrange(12) else self.known(f)

    def known(self, f, one=None):
        a, p = one or self.r.choice(KNOWN[f])
        return a | self.bits(BITS[f]) & (full(f) ^ pmask(f, p))

    def prefix(self, f):
        w = BITS[f]
        return self.r.choice([self.r.randrange(w + 1), self.r.randrange(w + 1), self.r.randrange(0, w + 1, 8),
                              self.r.choice([0, 1, w - 2, w - 1, w, w // 2, w // 2 - 1, w // 2 + 1])])

    def lopsided(self, f):
        while True:
            m = self.bits(BITS[f])
            if not is_prefix(f, m):
                return m

    def mask(self, f):
        return pmask(f, self.prefix(f)) if self.r.randrange(2) else self.lopsided(f)

    # ---- spellings ---------------------------------------------------------
    def spell(self, f, v):
        """Some accepted spelling of an address."""
        r = self.r
        if f == 4:
            return ".".join("0" * r.choice([0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 8, 21]) + str((v >> s) & 255) for s in (24, 16, 8, 0))
        g = groups(v)
        t = []
        for x in g:
            s = "%x" % x
            s = r.choice([s, s, s.rjust(4, "0"), s.rjust(r.randrange(1, 5), "0"), s.rjust(r.choice([3, 4, 4, 5, 9, 20]), "0")])
            t.append(r.choice([s, s, s.upper(), "".join(r.choice([c, c.upper()]) for c in s)]))
        runs = [(i, j) for i in range(8) for j in range(i + 1, 9) if not any(g[i:j])]
        if runs and r.randrange(4):
            i, j = r.choice(runs)
            return ":".join(t[:i]) + "::" + ":".join(t[j:])
        return ":".join(t)

    def notations(self, f, m):
        """The spellings of a mask: all those that denote it."""
        w = BITS[f]
        res = [txt(f, m), "-" + txt(f, full(f) ^ m)]
        if is_prefix(f, m):
            p = ones(m)
            res += [str(p), "-%d" % (w - p), "0%d" % p, "-0%d" % (w - p)]
        return res

    def mask_text(self, f, m):
        if is_prefix(f, m) and self.r.randrange(3):
            return str(ones(m))
        return self.r.choice(self.notations(f, m))

    def net_text(self, f, a, m):
        return txt(f, a) + "/" + (str(ones(m)) if is_prefix(f, m) else txt(f, m))

    def net(self, f):
        return self.net_text(f, self.addr(f), self.mask(f))

    def cidr(self, f, p=None):
        return "%s/%d" % (txt(f, self.addr(f)), self.prefix(f) if p is None else p)

    def batches(self, items, size):
        items = list(items)
        for i in range(0, len(items), size):
            yield items[i:i + size]

    def scatter(self, f, k):
        """k distinct bit positions (0 = most significant), ascending, of some pattern."""
        w, r = BITS[f], self.r
        c = r.randrange(4)
        if c == 0:
            p = r.randrange(w - k + 1)
            return list(range(p, p + k))
        if c == 1:      # around a byte or half boundary
            b = r.choice([w // 2, w // 2, 8 * r.randrange(1, w // 8)])
            p = max(0, min(w - k, b - r.randrange(k + 1)))
            return list(range(p, p + k))
        if c == 2:
            return sorted(r.sample(range(w), k))
        s = set([0, w - 1][:k])
        while len(s) < k:
            s.add(r.randrange(w))
        return sorted(s)


PRINTABLE = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\r", "\u00a0", "\u0661", "\uff11", "\u2236", "\u2044", "\u2212", "\u3002", "\u200b"]


# What other notations have in front of, behind or between numbers.
AFFIXES = ["\ufeff", "\u2060", "\u3000", "\u2028", "\u0085", "\x0b", "0x", "0X", "0b", "0o", "0d", "#", "$", ".0", ".", ".5", "e0", "e1", "E2", "k", "M", "h", "b", "u32", "L", "n", "%eth0", "%1",
           "//", "net:", "ip ", "hosts", "/", "\\", ", ", ";", "'", "()", "--", "~", "!", "&", "^", "*", "?", "1/", ":80", "::", "..", "\u202e1", "\uff0e", "\uff1a", "\u0660", "\U0001d7d9", "\u00b2", "\u2460"]


def affixed(g, s, a):
    """s with a in front of, behind or inside of it, next to a number."""
    at = [i for i in range(len(s) + 1) if (i == 0 or not s[i - 1].isalnum()) != (i == len(s) or not s[i].isalnum())] or [0]
    i = g.r.choice([0, len(s), g.r.choice(at), g.r.choice(at)])
    return s[:i] + a + s[i:]


def mutated(g, s):
    """A text with a character or two more, fewer or others."""
    r = g.r
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(s) + 1)
        c = r.choice(PRINTABLE)
        k = r.randrange(8)
        if k == 0: s = s[:i] + s[i + 1:]
        elif k == 1: s = s[:i] + s[i:i + 1] + s[i:]
        elif k == 2: s = s[:i] + c + s[i + 1:]
        elif k == 3: s = c + s
        elif k == 4: s = s + c
        elif k == 5: s = s[:i] + s[i:i + 2][::-1] + s[i + 2:]
        else: s = s[:i] + c + s[i:]
    return s


def place(f, base, at, vec):
    """base with the bits of vec put at the positions at."""
    w = BITS[f]
    for p, b in zip(at, vec):
        bit = 1 << (w - 1 - p)
        base = (base | bit) if b else (base & ~bit)
    return base
