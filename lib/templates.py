"""Symbolic input templates: per property, the input families the solver decides.

A template is a sequence of literal bytes and symbolic bytes (each ranging over a set); every value of the
symbolic bytes is decided by one exploration."""

import re

FULL = frozenset(range(256))
DIGIT = frozenset(b"0123456789")
ALPHA = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
PRINT = frozenset(range(32, 127))


def bs(x):
    return frozenset(x)


WS = bs(b" \t\r\n")
FOLD = bs(b" \t\r\na")
CF = bs(b" \r\n()\\\"a\t")  # what comments and folding are made of
CRLFS = bs(b"\r\na- ")


KQ = (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 75, 76, 77, 78, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 998, 999, 1000, 1001, 1024, 1025)
KS = tuple(range(3, 140)) + (199, 200, 201, 250, 254, 255, 256, 257, 299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 767, 768, 996, 997, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 2000, 2047, 2048, 2049)


class V:
    """A symbolic byte."""
    __slots__ = ("s", "i")

    def __init__(self, s=FULL, i=None):
        self.s = frozenset(s)
        self.i = i


def sym(n, s=FULL):
    return [V(s) for _ in range(n)]


class Rep:
    def __init__(self, n, b):
        self.n, self.b = n, b


def bitmap(s):
    b = bytearray(32)
    for c in s:
        b[c >> 3] |= 1 << (c & 7)
    return b.hex()


class Templates:
    def __init__(self, tier):
        self.tier = tier
        self.out = []
        self.seen = set()

    @property
    def deep(self):
        return self.tier == "thorough"

    def add(self, name, entry, *parts, steps=6000000, depth=600):
        segs, lit, n = [], bytearray(), 0
        ids = {}

        def flush():
            if lit:
                segs.append("x" + lit.hex())
                lit.clear()

        def put(p):
            nonlocal n
            if isinstance(p, (bytes, bytearray)):
                lit.extend(p)
            elif isinstance(p, V):
                flush()
                key = id(p)
                if key not in ids:
                    ids[key] = n
                    n += 1
                segs.append("v%d:%s" % (ids[key], bitmap(p.s)))
            elif isinstance(p, Rep):
                if p.n * len(p.b) < 4096:
                    lit.extend(p.b * p.n)
                else:
                    flush()
                    segs.append("r%d:%s" % (p.n, p.b.hex()))
            elif isinstance(p, (list, tuple)):
                for q in p:
                    put(q)
            else:
                raise TypeError(repr(p))

        put(parts)
        flush()
        if n > 64:
            raise ValueError("too many symbolic bytes in " + name)
        body = " ".join(segs)
        if (entry, body, steps, depth) in self.seen:
            return
        self.seen.add((entry, body, steps, depth))
        self.out.append("%s\t%s\t%d\t%d\t%s" % (name, entry, steps, depth, body))

    def over(self, name, entry, pre, target, post, width, s=FULL, step=1, lo=0, hi=None):
        """Every window of `width` bytes of target becomes symbolic."""
        hi = len(target) - width if hi is None else hi
        for i in range(lo, hi + 1, step):
            if i + width > len(target):
                break
            self.add("%s/o%d@%d" % (name, width, i), entry, pre, target[:i], sym(width, s), target[i + width:], post)

    def ins(self, name, entry, pre, target, post, width, s=FULL, step=1, lo=0, hi=None, fixed=None):
        """`width` symbolic bytes (or what fixed() makes) are inserted at every position of target."""
        hi = len(target) if hi is None else hi
        for i in range(lo, hi + 1, step):
            x = fixed() if fixed else sym(width, s)
            self.add("%s/i%d@%d" % (name, width, i), entry, pre, target[:i], x, target[i:], post)

    def dele(self, name, entry, pre, target, post, widths=(2, 3, 4), s=FULL, step=1):
        """Every span of the given widths is removed and one symbolic byte stands in its place."""
        for w in widths:
            for i in range(0, len(target) - w + 1, step):
                self.add("%s/d%d@%d" % (name, w, i), entry, pre, target[:i], V(s), target[i + w:], post)

    def runs(self, name, entry, pre, unit, post, top=300, s=FULL, mid=b"", ks=None, steps=80000000):
        """`unit` repeated k times, then a symbolic byte: counts and lengths around the usual limits."""
        for k in ks or (KS if self.deep else KQ):
            if k <= top:
                # long runs: only the characters that matter here, every value at small counts
                few = frozenset((unit[0], post[0] if post else 0x61, 0x20, 0x0D, 0x22, 0xFF)) & s
                self.add("%s*%d" % (name, k), entry, pre, Rep(k, unit), mid, V(s if k < 18 or self.deep else few), post, steps=steps)

    def cut(self, name, entry, pre, target, width, s=FULL, step=1):
        """Truncated at every position, followed by `width` symbolic bytes."""
        for i in range(0, len(target) + 1, step):
            self.add("%s/c%d@%d" % (name, width, i), entry, pre, target[:i], sym(width, s))


F = b"From:a@b\r\n"
D = b"Date:1 Jan 2000 00:00 +0000\r\n"
BP = F + D
E_ = b"\r\n"

# one well-formed header of every kind (name, value)
KINDS = [
    (b"Date", b"1 Jan 2000 00:00 +0000"), (b"From", b"a@b"), (b"Sender", b"s@t"), (b"Reply-To", b"r@t"), (b"To", b"t@u"),
    (b"Cc", b"c@u"), (b"Bcc", b"b@u"), (b"Message-ID", b"<m@i>"), (b"In-Reply-To", b"<n@i>"), (b"References", b"<o@i>"),
    (b"Subject", b"s"), (b"Comments", b"t"), (b"Keywords", b"k"), (b"MIME-Version", b"1.0"), (b"Content-Type", b"a/b"),
    (b"Content-Transfer-Encoding", b"7bit"), (b"Content-ID", b"<c@i>"), (b"Content-Description", b"d"),
    (b"Content-Disposition", b"inline"), (b"X", b"y"),
    (b"Return-Path", b"<p@q>"), (b"Received", b"w;1 Jan 2000 00:00 +0000"),
    (b"Resent-From", b"f@g"), (b"Resent-Date", b"2 Jan 2000 00:00 +0000"), (b"Resent-To", b"h@i"),
    (b"Resent-Cc", b"h@j"), (b"Resent-Bcc", b"h@k"), (b"Resent-Sender", b"h@l"), (b"Resent-Message-ID", b"<h@m>"),
    (b"Resent-Reply-To", b"h@n"),
]
HDR = {k: k + b":" + v + b"\r\n" for k, v in KINDS}

# rich values
DATE = b"Fri, 21 Nov 1997 09:55:06 -0630 (c)"
ADDRS = [
    (b"From", b" A b <c.d@e.f>, \"q,<x\\\"\" (c,)\r\n <g@[h]>", b"Sender:s@t\r\n" + D),
    (b"To", b"g h:a@b, C <c@d>;, e.f@g (x) ,k:;", BP),
    (b"Sender", b"\"a b\".c <\"d e\"@f.g>", BP),
    (b"Cc", b"(c)a.b(d)@(e)c.d(f)", BP),
    (b"Bcc", b"<a@b> , c", BP),
    (b"Reply-To", b"a b c <d@[1.2]> ", BP),
]
IDS = [(b"Message-ID", b" <a.b@[c d]> (x)"), (b"In-Reply-To", b"<a@b.c>\r\n <d@e>"), (b"References", b"(c)<a@b><c.d@e>"), (b"Content-ID", b"<a@b>")]
TRACE = b"Return-Path:<a@b>\r\nReceived:from x.y (z) by [w] for <c@d> e@f ;1 Jan 2000 00:00 +0000\r\nResent-Date:2 Jan 2000 00:00 +0000\r\nResent-To:a@b,c@d\r\n"
CTV = b" text/plain; charset=us-ascii; Name=\"a b\\\"c\" (x)"
CTC = b"x/y;b*1=c;a*0*=utf-8'en'%41;a*1=%42;b*0=\"d\";a*2*=z%2e"
DISP = b" attachment; filename=\"a b\"; size=3;creation-date=\"1 Jan 2000 00:00 +0000\" (x)"
ENCW = b"a =?utf-8?Q?b_=41?= =?ISO-8859-1*en?b?5Q==?= c"

MULTI_H = b"Content-Type:multipart/mixed;boundary=xy\r\n"
MULTI_B = b"pre\r\n--xy\r\n\r\nA\r\n--xy\r\nX:y\r\nContent-Type:text/plain;charset=utf-8\r\n\r\nB\r\n\r\n--xy--\r\nepi"

ALLMSGS = [
    ("date", F + b"Date: " + DATE + b"\r\n\r\n"),
    ("ids", BP + b"".join(n + b":" + v + b"\r\n" for n, v in IDS) + b"\r\n"),
    ("trace", TRACE + BP + b"\r\n"),
    ("text", BP + b"Subject:" + ENCW + b"\r\nComments: x (\r\n y\r\nKeywords:a \"b\",c\r\n\r\n"),
    ("ctype", BP + b"MIME-Version: 1.0\r\nContent-Type:" + CTV + b"\r\n\r\nabc"),
    ("ctypec", BP + b"Content-Type:" + CTC + b"\r\n\r\nabc"),
    ("disp", BP + b"Content-Disposition:" + DISP + b"\r\nContent-Description:d =?utf-8?Q?b?=\r\n\r\n"),
    ("cte", BP + b"Content-Transfer-Encoding: base64 \r\n\r\nQUJD\r\nREU="),
    ("cteq", BP + b"Content-Transfer-Encoding:quoted-printable\r\n\r\na=41=\r\n b=3D\r\n"),
    ("multi", BP + MULTI_H + b"\r\n" + MULTI_B),
] + [("addr" + n.decode(), (post + n + b":" + v + b"\r\n\r\n") if n != b"From" else (n + b":" + v + b"\r\n" + post + b"\r\n")) for n, v, post in ADDRS]


def each_header(msg):
    """(before, header block, after) for the slices of a message worth sliding over: its body and non-base headers."""
    yield b"", msg, b""


# ---------------------------------------------------------------- properties
def sweep(t, entry, over=2, ins=2, only=None, step=1, s=FULL, skip=len(BP)):
    for n, m in ALLMSGS:
        if only and n not in only:
            continue
        lo = skip if m.startswith(BP) else 0
        if over:
            t.over(n, entry, m[:lo], m[lo:], b"", over, s=s, step=step)
        if ins:
            t.ins(n, entry, m[:lo], m[lo:], b"", ins, s=s, step=step)


LEADS = (0x20, 0x7F, 0x80, 0xA0, 0xA1, 0xA9, 0xC1, 0xC8, 0xCF, 0xD7, 0xF7, 0xFE, 0xFF)


def c01(t):
    e = "e01"
    sweep(t, e, 2, 1)
    for n, m in ALLMSGS:
        lo = len(BP) if m.startswith(BP) else 0
        t.cut(n, e, m[:lo], m[lo:], 2 if not t.deep else 3)
    if t.deep:
        sweep(t, e, 3, 2)
    t.add("any3", e, sym(3))
    t.add("anybody", e, BP, b"\r\n", sym(4))
    for h in (b"", BP, MULTI_H + BP):
        t.add("tail", e, h, sym(4 if t.deep else 3))
    for n in range(0, 6):
        t.add("dec%d" % n, "e01d", sym(n))
    # numbers, sizes and limits
    for v in (b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999", b"0000000000000000000000001999"):
        t.over("year", e, F + b"Date:1 Jan ", v, b" 00:00 +0000\r\n\r\n", 2 if t.deep else 1, DIGIT)
    t.over("ver", e, BP + b"MIME-Version:", b"255.256", b"\r\n\r\n", 2)
    for i in (b"255", b"256", b"1000", b"99999999999999999999"):
        t.over("index", e, BP + b"Content-Type:a/b;n*0=x;n*", i, b"*=y\r\n\r\n", 2)
    cont = b"".join(b";n*%d=%c" % (i, 97 + i % 26) for i in range(256))
    t.add("cont256", e, BP, b"Content-Type:a/b", cont[:-1], V(), b"\r\n\r\n")
    t.add("cont256*", e, BP, b"Content-Type:a/b;n*0*=utf-8''", V(), cont[6:], b"\r\n\r\n")
    for w in (b"utf-8", b"iso-6937", b"gb2312", b"iso-8859-1", b"iso-8859-11"):
        if w in (b"gb2312", b"iso-6937"):
            # a table indexed by two symbolic bytes is too much for the solver: one byte of a pair at a time
            for x in LEADS:
                t.add("cs-q", e, BP, b"Subject:=?" + w + b"?Q?=%02X=" % x, sym(2), b"=41=4", sym(1), b"?=\r\n\r\n")
                t.add("cs-t", e, BP, b"Content-Type:text/x;charset=" + w + b"\r\n\r\n", bytes([x]), sym(1), b"a", sym(1))
            t.add("cs-f", e, BP, b"Content-Type:text/x;charset=" + w + b"\r\n\r\n", sym(1), b"\xa1", sym(1))
        else:
            t.add("cs-q", e, BP, b"Subject:=?" + w + b"?Q?=", sym(2), b"=", sym(2 if t.deep else 1), b"1" if not t.deep else [], b"?=\r\n\r\n")
            t.add("cs-t", e, BP, b"Content-Type:text/x;charset=" + w + b"\r\n\r\n", sym(3))
        for x in (b"A1", b"c8", b"Fe", b"80", b"g1") if w in (b"gb2312", b"iso-6937") else (V(b"089aAcCfFgG"),):
            t.add("cs-p", e, BP, b"Content-Type:a/b;n*0*=" + w + b"''%", [x] if isinstance(x, bytes) else [x, V(b"089aAcCfFgG")], b"%", sym(2, b"089aAcCfFgG"), b"\r\n\r\n")
    for n in (74, 75, 76, 77, 996, 997, 998, 999, 1000, 2000):
        t.add("long%d" % n, e, BP, b"X:", Rep(n, b"a"), sym(2), b"\r\n\r\n", Rep(n, b"b"), sym(2))
    for o, c in ((b"(", b")"), (b"<", b">"), (b"[", b"]"), (b"\"", b"\""), (b"g:", b";"), (b"\\", b"")):
        t.add("nest" + o.decode(), e, BP, b"To:", Rep(300, o), V(), Rep(300, c), b"a@b\r\n\r\n", depth=400)


def c02(t):
    e = "e02"
    sweep(t, e, 2, 0, step=1 if t.deep else 2)
    sweep(t, e, 0, 1)
    for h in (b"Subject:", b"X:", b"From:", b"Content-Type:", b"Keywords:", b"Received:", b"Content-Disposition:x;a=\""):
        t.add("start", e, BP if h != b"From:" else D, h, sym(3 if t.deep else 2), b"\r\n\r\n")
    def hx():
        return sym(2) if t.deep else [V(b"08cEeFg"), V(b"09aFg")]

    for cs in (b"utf-8", b"us-ascii", b"UTF-8", b"iso-8859-15", b"gb2312", b"x"):
        t.add("w" + cs.decode(), e, BP, b"Subject:=?" + cs + b"?Q?=", hx(), b"=", hx(), b"?=\r\n\r\n")
        t.add("p" + cs.decode(), e, BP, b"Content-Type:a/b;n*=" + cs + b"''%", hx(), b"%", hx(), b"\r\n\r\n")
        if cs not in (b"gb2312", b"x"):
            for pf in (b"Content-Type:a/b;n*=", b"Content-Type:a/b;n*0*=", b"Content-Disposition:a;filename*=", b"Content-Disposition:a;n*0*="):
                t.add("pz" + cs.decode(), e, BP, pf + cs + b"''a%", sym(1, b"08cefF"), sym(1, b"01aF"), b"b\r\n\r\n")
                t.add("pr" + cs.decode(), e, BP, pf + cs + b"''a", sym(2), b"b\r\n\r\n")
                if b"0*" in pf:
                    t.add("pc" + cs.decode(), e, BP, pf + cs + b"''%c3;n*1*=%", sym(1, b"0aAfF"), sym(1, b"09aF"), b";n*2*=x\r\n\r\n")
                    t.add("pd" + cs.decode(), e, BP, pf + cs + b"''a;n*1=\"", sym(2), b"\"\r\n\r\n")
            t.add("wr" + cs.decode(), e, BP, b"Subject:=?" + cs + b"?Q?a", sym(2), b"?=\r\nKeywords:=?" + cs + b"?Q?=", sym(1, b"8cCefF"), sym(1, b"0aF"), b"?=\r\n\r\n")
        ct = b"Content-Type:text/b;charset=" + cs + b"\r\n\r\n"
        if cs != b"gb2312":
            t.add("t" + cs.decode(), e, BP, ct, sym(4 if t.deep else 3))
        else:
            for x in LEADS:
                t.add("t" + cs.decode(), e, BP, ct, bytes([x]), sym(1), b"a", sym(1))
    # every UTF-8 sequence shape
    for n in range(1, 5):
        t.add("u%d" % n, e, BP, b"Content-Type:text/b;charset=utf-8\r\n\r\nx", sym(n), b"y")
        t.add("uq%d" % n, e, BP, b"Content-Type:text/b;charset=utf-8\r\nContent-Transfer-Encoding:quoted-printable\r\n\r\n", [[b"=", sym(1, b"8cCdDeEfF"), sym(1, b"0589aAbBfF4")] for _ in range(min(n, 3))])
    t.add("b64w", e, BP, b"Subject:=?utf-8?B?", sym(4, b"4oKs8J+YgQwv"), b"?=\r\n\r\n")
    if t.deep:
        sweep(t, e, 3, 2)


def c03(t):
    e = "e03"
    n = 6 if t.deep else 5
    for h in (b"X:", b"Subject:", b"Comments:"):
        t.add("fold", e, BP, h, sym(n, b" \r\nb"), b"\r\n\r\n")
        t.add("foldx", e, BP, h, b"a", sym(n, b"\t\r\nb"), b"\r\n\r\n")
        t.add("foldc", e, BP, h, b"a\r\n ", sym(n - 1, b" \r\n:b"), b"\r\n\r\n")
        t.add("full", e, BP, h, sym(3), b"\r\n\r\n")
        t.add("full2", e, BP, h, b"a", sym(3), b"b\r\nTo:a@b\r\n\r\n")
    v = b" a  b\r\n\t c\r\n d \r\n \r\n e\t "
    for h in (b"X-y:", b"Subject:", b"Comments:", b"Content-Description:"):
        t.over("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 2)
        t.ins("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 1)
        t.ins("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 3, WS, step=1 if t.deep else 2)
    for k in (70, 75, 76, 77, 78, 200, 996, 997, 998, 999, 1000):
        t.add("len%d" % k, e, BP, b"Subject:", Rep(k, b"x"), sym(2, b"\r\n x"), b"\r\n y\r\n\r\n")
        t.add("spaces%d" % k, e, BP, b"X:", Rep(k // 4, b" "), sym(2, b"\r\n x"), Rep(k // 4, b" "), b"\r\n\r\n")
    for k in (2, 5, 17, 40):
        t.add("lines%d" % k, e, BP, b"Comments:", Rep(k, b"\r\n\t z"), sym(3, b"\r\n x"), b"\r\n\r\n")
    t.add("byte", e, BP, b"Subject:a", sym(1), b"\r\nComments:", sym(1), b"\r\nX:", sym(1), b"\r\n\r\n")
    t.add("byte-d", e, BP, b"Content-Description:", sym(2), b"\r\nComments:", sym(1), b"\r\n\r\n")
    if t.deep:
        t.add("full4", e, BP, b"Subject:", sym(4), b"\r\n\r\n")
        for h in (b"X-y:", b"Subject:", b"Comments:", b"Content-Description:"):
            t.over("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 3)
            t.ins("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 2)
            t.ins("rich", e, BP + h, v, b"\r\nZ:\r\n\r\n", 4, WS)


def case_of(b):
    return [V(bs([c, c ^ 32])) if (65 <= (c & ~32) <= 90) else bytes([c]) for c in b]


def names_sweep(t, e, kinds, over=2):
    for k, v in kinds:
        pre = b"" if k in (b"From", b"Date") or k in (b"Return-Path", b"Received") else BP
        post = b":" + v + b"\r\n"
        if k == b"From":
            post += D
        elif k == b"Date":
            post += F
        elif pre == b"":
            post += BP
        if k.startswith(b"Resent"):
            pre = HDR[b"Received"]
            post += BP
        post += b"\r\n"
        t.over("name" + k.decode(), e, pre, k, post, min(over, len(k)))
        t.ins("name" + k.decode(), e, pre, k, post, 1)
        # all letter cases, a few letters at a time
        for i in range(0, len(k), 5):
            t.add("case%s@%d" % (k.decode(), i), e, pre, k[:i], case_of(k[i:i + 5]), k[i + 5:], post)
        t.add("swap" + k.decode(), e, pre, k.swapcase(), sym(1), post[1:])
        # prefixes and extensions of the name
        t.add("long" + k.decode(), e, pre, k, sym(2), post)
        t.add("short" + k.decode(), e, pre, k[:-1], sym(2), post[1:])


def c04(t):
    e = "e04"
    names_sweep(t, e, KINDS)
    # two headers: every ordered pair of kinds, one symbolic byte in each value
    import itertools
    step = 1 if t.deep else 3
    for i, (a, b) in enumerate(itertools.product(KINDS, KINDS)):
        if i % step:
            continue
        pre, post = pair_context(a[0], b[0])
        t.add("pair-%s-%s" % (a[0].decode(), b[0].decode()), e, pre, one(a), one(b), post, b"\r\n")
    # malformed values of every kind end up in the unknown list
    for k, v in KINDS:
        pre, post = pair_context(k, k)
        for i in range(len(v) + 1):
            t.add("bad%s@%d" % (k.decode(), i), e, pre, k + b":" + v[:i], sym(1), v[i + 1:], b"\r\nTo:t@u\r\n" if k != b"To" else b"\r\n", post, b"\r\n")
    t.add("lead", e, sym(3), BP, b"To:a@b\r\n\r\n")
    t.add("lead2", e, sym(4, b"\r\n\xef\xbb\xbf :"), BP, b"To:a@b\r\n\r\n")
    t.add("noname", e, BP, sym(3, b":\r\na \x7f!"), b"x:y\r\n\r\n")
    t.add("noname2", e, BP, b"X:y\r\n", sym(4, b":\r\na "), b"\r\nTo:a@b\r\n\r\n")
    t.add("nocolon", e, BP, b"Xy", sym(2), b"z\r\n\r\n")
    for k in (20, 60, 200):
        t.add("many%d" % k, e, BP, Rep(k, b"X:y\r\n"), b"Y", sym(1), b"z\r\nSubject:s\r\n\r\n", steps=60000000)


def one(h):
    k, v = h
    i = len(v) // 2
    return [k + b":" + v[:i], sym(1), v[i + 1:], b"\r\n"]


def pair_context(a, b):
    ks = (a, b)
    pre = b""
    if any(k.startswith(b"Resent") for k in ks) and b"Received" not in ks:
        pre = HDR[b"Received"]
    tracey = any(k.startswith((b"Re-", b"Received", b"Return", b"Resent")) for k in ks)
    rest = b"".join(x for k, x in ((b"From", F), (b"Date", D)) if k not in ks)
    if tracey:
        return pre, rest
    return rest, b""


ONCE = [k for k, _ in KINDS if k not in (b"Comments", b"Keywords", b"X", b"Return-Path", b"Received") and not k.startswith(b"Resent")]


ODD = {
    b"Bcc": (b"", b" ", b"(c)", b"g:;", b",", b"a@b,"), b"To": (b"g:;", b"g:;,h:a@b;", b"a@b,c@d"), b"Cc": (b"g:;", b"a@b,c@d"), b"Reply-To": (b"g:;", b"a@b,c@d"),
    b"From": (b"a@b,c@d", b"x <a@b>"), b"Sender": (b"x <a@b>", b"a@b"), b"Subject": (b"", b" ", b"=?utf-8?Q??="), b"Message-ID": (b"<a@[]>", b"(c)<a@b>"), b"In-Reply-To": (b"<a@b><c@d>",), b"References": (b"<a@b><c@d>",),
    b"Date": (b"Fri, 21 Nov 1997 09:55:06 -0630",), b"MIME-Version": (b"0.0", b"(c)1.0", b"2.0"), b"Content-Type": (b"text/plain", b"multipart/x;boundary=a", b"text/plain;charset=utf-8"),
    b"Content-Transfer-Encoding": (b"8bit", b"binary", b"base64", b"quoted-printable", b"x-y"), b"Content-ID": (b"<a@[]>",), b"Content-Description": (b"", b" "), b"Content-Disposition": (b"attachment", b"x;filename=a"),
    b"Comments": (b"",), b"Keywords": (b"a,b",), b"X": (b"",),
}


def c05(t):
    e = "e05"
    for k in ONCE + [b"Comments", b"Keywords", b"X"]:
        rest = b"".join(x for n, x in ((b"From", F), (b"Date", D)) if n != k)
        t.add("dup" + k.decode(), e, rest, HDR[k], b"Y", sym(1), b"z\r\n", HDR[k], b"\r\n")
        t.add("dup1" + k.decode(), e, HDR[k], sym(1), HDR[k][1:], rest, b"\r\n")
        t.add("dup2" + k.decode(), e, HDR[k], rest, one((k, dict(KINDS)[k])), b"\r\n")
        t.add("dupc" + k.decode(), e, rest, HDR[k], case_of(k[:3]), k[3:].lower(), HDR[k][len(k):], b"\r\n")
        # once well formed, once malformed
        t.add("dupm" + k.decode(), e, rest, HDR[k], k + b":", sym(2), b"\r\n\r\n")
        # duplicates of two different headers: the first one counts
        for j in (b"Subject", b"Date", b"From", b"Content-ID", b"Bcc"):
            if j != k:
                r = b"".join(x for n, x in ((b"From", F), (b"Date", D)) if n not in (k, j))
                t.add("dd%s%s" % (k.decode(), j.decode()), e, r, HDR[k], HDR[j], k, sym(1), HDR[k][len(k) + 1:], HDR[j], b"\r\n")
        # any other header between the two occurrences
        for j, w in KINDS:
            if j != k and j not in (b"Return-Path", b"Received") and not j.startswith(b"Resent"):
                r = b"".join(x for n, x in ((b"From", F), (b"Date", D)) if n not in (k, j))
                t.add("aba" + k.decode(), e, r, HDR[k], HDR[j], k, sym(1), HDR[k][len(k) + 1:], b"\r\n")
        # two occurrences, each with an unusual but accepted value
        for v in ODD.get(k, ()):
            for w in (v, dict(KINDS)[k]):
                t.add("dupo" + k.decode(), e, rest, k + b":" + v + b"\r\n", k[:-1], sym(1), b":" + w + b"\r\n\r\n")
                t.add("dupp" + k.decode(), e, k + b":" + w, sym(1), b"\r\n", rest, k + b":" + v + b"\r\n\r\n")
                t.add("dupq" + k.decode(), e, k + b":" + v, b"\r\n", rest, k + b":", sym(1), v + b"\r\n\r\n")
    # required headers
    t.add("miss", e, b"Fro", sym(1), b":a@b\r\nDat", sym(1), b":1 Jan 2000 00:00 +0000\r\n\r\n")
    t.add("missv", e, b"From:a@", sym(2), b"\r\nDate:1 Jan 2000 00:0", sym(2), b"+0000\r\n\r\n")
    t.add("nofrom", e, D, b"X:", sym(1), b"\r\n\r\n")
    t.add("nodate", e, F, b"X:", sym(1), b"\r\n\r\n")
    t.add("none", e, b"X:", sym(2), b"\r\n\r\n")
    t.add("empty", e, sym(2))
    # sender
    for f in (b"a@b", b"a@b,c@d", b"x <a@b>, y <c@d>, e@f", b"\"a,b\" <c@d>", b"(a@b,)c@d"):
        t.add("snd", e, D, b"From:" + f + sepless(), sym(1), b"\r\n\r\n")
        t.add("snd1", e, D, b"From:" + f, b"\r\nSende", sym(1), b":s@t\r\n\r\n")
        t.add("snd2", e, D, b"Sender:s@", sym(2), b"\r\nFrom:" + f, b"\r\n\r\n")
        t.add("snd3", e, D, b"From:" + f + b"\r\nSender:s@", sym(2), b"t\r\n\r\n")
        t.add("snd4", e, b"From:" + f, sym(2), b"c@d\r\n", D, b"\r\n")
    for n in (2, 3, 9, 33):
        t.add("rep%d" % n, e, BP, Rep(n, b"Comments:a\r\nKeywords:b\r\n"), b"Comments:", sym(1), b"\r\nX:1\r\nX:2\r\n\r\n")
        t.add("fromn%d" % n, e, D, b"From:", Rep(n, b"a@b,"), b"c@d", sym(1), b"\r\n\r\n")


def sepless():
    return b""


def c06(t):
    e = "e06"
    pre, post = F + b"Date:", b"\r\n\r\n"
    for d in (DATE, b" 1 jan 2000 23:59 +1400", b"\r\n 31 DEC 12345 00:00:60 -0000\r\n (a)\r\n "):
        t.over("date", e, pre, d, post, 2)
        t.ins("date", e, pre, d, post, 2 if t.deep else 1)
        t.ins("date", e, pre, d, post, 3, WS, step=1 if t.deep else 2)
        if t.deep:
            t.over("date", e, pre, d, post, 3)
    dg = lambda n: sym(n, DIGIT)
    for n in (1, 2, 3):
        t.add("day%d" % n, e, pre, dg(n), b" Feb 2000 00:00 +0000", post)
        t.add("dayh%d" % n, e, pre, b"Mon, ", dg(n), b" Feb 2000 ", dg(2), b":00 +0000", post)
    for n in range(1, 6):
        t.add("year%d" % n, e, pre, b"1 Feb ", dg(n), b" 00:00 +0000", post)
    t.add("year20", e, pre, b"1 Feb 184467440737095516", dg(2), b" 00:00 +0000", post)
    t.add("year20a", e, pre, b"1 Feb 0000000000000000", dg(4), b" 00:00 +0000", post)
    t.add("time", e, pre, b"1 Feb 2000 ", dg(2), b":", dg(2), b" +0000", post)
    t.add("timex", e, pre, b"1 Feb 2000 ", dg(2), b":", dg(2), b":", dg(2), b" +0000", post)
    t.add("timey", e, pre, b"1 Feb 2000 00:00", V(b": \t"), dg(2), sym(1), b"+0000", post)
    t.add("zone", e, pre, b"1 Feb 2000 00:00 ", V(b"+-"), dg(4), post)
    t.add("zone2", e, pre, b"1 Feb 2000 00:00 ", sym(1), dg(4), sym(1), post)
    t.add("zone3", e, pre, b"1 Feb 2000 00:00 +", dg(3), sym(1), post)
    low = b"abcdefghijlmnoprstuvy"
    for i in range(0, 36, 3):
        m = b"JanFebMarAprMayJunJulAugSepOctNovDec"[i:i + 3]
        t.add("mon" + m.decode(), e, pre, b"1 ", case_of(m), b" 2000 00:00 +0000", post)
        for k in range(3):
            t.add("mon%s%d" % (m.decode(), k), e, pre, b"1 ", m[:k], sym(1), m[k + 1:], b" 2000 00:00 +0000", post)
    t.add("month", e, pre, b"1 ", sym(3, low if t.deep else b"janfebmrpylug"), b" 2000 00:00 +0000", post)
    for i in range(0, 21, 3):
        m = b"MonTueWedThuFriSatSun"[i:i + 3]
        t.add("dow" + m.decode(), e, pre, case_of(m), b",1 Jan 2000 00:00 +0000", post)
        for k in range(3):
            t.add("dow%s%d" % (m.decode(), k), e, pre, m[:k], sym(1), m[k + 1:], sym(1), b"1 Jan 2000 00:00 +0000", post)
    t.add("dow", e, pre, sym(3, b"montuewdhfrisa"), b",1 Jan 2000 00:00 +0000", post)
    # every date of every month and day name at once
    places = ((pre, post), (b"Received:x;", b"\r\n" + BP + b"\r\n"), (HDR[b"Received"] + b"Resent-Date:", b"\r\n" + BP + b"\r\n"), (BP + b"Content-Disposition:a;read-date=\"", b"\"\r\n\r\n"))
    for i in range(0, 36, 3):
        m = b"JanFebMarAprMayJunJulAugSepOctNovDec"[i:i + 3]
        for j in range(-3, 21, 3):
            w = b"MonTueWedThuFriSatSun"[j:j + 3] + b", " if j >= 0 else b""
            p, q = places[(i // 3 + j // 3) % 4]
            for a, b in ((p, q), (pre, post)):
                t.add("all%s%d" % (m.decode(), j), e, a, w, dg(2), b" ", m, b" ", dg(4), b" ", dg(2), b":", dg(2), b":", dg(2), b" ", V(b"+-"), dg(4), b)
                t.add("alm%s%d" % (m.decode(), j), e, a, w, dg(1), b" ", m, b" ", dg(4), b" ", dg(2), b":", dg(2), b" ", V(b"+-"), dg(4), b)
        t.add("long" + m.decode(), e, pre, dg(2), b" ", m, b" ", dg(5), b" ", dg(2), b":", dg(2), b":", dg(2), b" ", V(b"+-"), dg(4), post)
    # the other places where dates stand
    d = b"Tue, 2 Mar 2001 01:02:03 -0405 "
    for p, q in ((b"Received:x;", b"\r\n" + BP + b"\r\n"), (HDR[b"Received"] + b"Resent-Date:", b"\r\n" + BP + b"\r\n"),
                 (BP + b"Content-Disposition:a;creation-date=\"", b"\"\r\n\r\n"), (BP + b"Content-Disposition:a;modification-date=\"", b"\";b=c\r\n\r\n"),
                 (BP + b"Content-Disposition:a;read-date=\"", b"\"\r\n\r\n")):
        t.over("at", e, p, d, q, 2, step=1 if t.deep else 2)
        t.ins("at", e, p, d, q, 1)
        t.add("atn", e, p, dg(2), b" Feb 2000 ", dg(2), b":00 +0000", q)
        t.add("atz", e, p, b"1 Feb 2000 00:00:", dg(2), b" -", dg(4), q)


def c07(t):
    e = "e07"
    for n, v, rest in ADDRS:
        t.over("a" + n.decode(), e, (rest if n != b"From" else D + b"Sender:s@t\r\n") + n + b":", v, b"\r\n\r\n", 2)
        t.ins("a" + n.decode(), e, (rest if n != b"From" else D + b"Sender:s@t\r\n") + n + b":", v, b"\r\n\r\n", 1)
        t.ins("s" + n.decode(), e, (rest if n != b"From" else D + b"Sender:s@t\r\n") + n + b":", v, b"\r\n\r\n", 2, b"@,:;<>\"()a .[\\", step=1 if t.deep else 2)
    al = b"a@,:;<>\" (."
    for h in (b"To:", b"Bcc:"):
        t.add("any" + h.decode(), e, BP, h, sym(4 if t.deep else 3, al), b"\r\n\r\n")
        t.add("any2" + h.decode(), e, BP, h, b"a@b", sym(3, al), b"c@d\r\n\r\n")
        t.add("any3" + h.decode(), e, BP, h, b"g:", sym(3, al), b"a@b", sym(1, al), b"\r\n\r\n")
        t.add("any4" + h.decode(), e, BP, h, b"x <", sym(3, al), b"b>\r\n\r\n")
        t.add("any5" + h.decode(), e, BP, h, b"\"", sym(3, b"a\"\\ ,@\r\n"), b"\" <a@b>\r\n\r\n")
        t.add("any6" + h.decode(), e, BP, h, b"a@", sym(3, b"a[].\\ \r\n("), b"\r\n\r\n")
        t.add("any7" + h.decode(), e, BP, h, b"a@[", sym(3), b"]\r\n\r\n")
        t.add("full" + h.decode(), e, BP, h, sym(2), b"a@b", sym(1), b"\r\n\r\n")
    for h in (b"Sender:", b"Reply-To:", b"Cc:"):
        t.add("any" + h.decode(), e, BP, h, sym(2, al), b"@b", sym(1, al), b"\r\n\r\n")
        t.add("list" + h.decode(), e, BP, h, b"a@b", sym(1), b"c@d", sym(1), b"e@f\r\n\r\n")
    t.add("from", e, D, b"From:", sym(2, al), b"@b", sym(1, al), b"\r\n\r\n")
    t.add("fromg", e, D, b"From:g:a@b", sym(1), b"\r\nSender:a@b\r\n\r\n")
    # every byte as a local-part, domain, literal or name character
    for a, b in ((b"", b"a@b"), (b"a", b"@b"), (b"a@", b"b"), (b"a@b", b""), (b"a@[b", b"]"), (b"\"", b"\" <a@b>"), (b"\"\\", b"\" <a@b>"), (b"(", b")a@b"), (b"(\\", b")a@b"), (b"x", b" <a@b>"), (b"g", b":;")):
        t.add("byte", e, BP, b"To:" + a, sym(1), b"x" + b, b"\r\nCc:" + a, sym(1), b, b"\r\n\r\n")
    for n in (1, 2, 7, 30, 64):
        t.add("many%d" % n, e, BP, b"To:", Rep(n, b"a <b@c>, "), b"d@e", sym(1), b"\r\n\r\n")
        t.add("group%d" % n, e, BP, b"Cc:g:", Rep(n, b"a@b,"), b"d@e", sym(1), b"\r\n\r\n")
        t.add("groups%d" % n, e, BP, b"Bcc:", Rep(n, b"g:a@b;,"), b"h:", sym(1), b"\r\n\r\n")
        t.add("words%d" % n, e, BP, b"Reply-To:", Rep(n, b"w \"x\" "), sym(1), b"<a@b>\r\n\r\n")
        t.add("dots%d" % n, e, BP, b"Sender:", Rep(n, b"a."), sym(1), b"@", Rep(n, b"b."), b"c\r\n\r\n")
    # resent headers use the same grammar
    for h in (b"Resent-From:", b"Resent-To:", b"Resent-Cc:", b"Resent-Bcc:", b"Resent-Sender:"):
        t.add("re" + h.decode(), e, HDR[b"Received"], h, b"a@b", sym(2, al), b"c@d\r\n", BP, b"\r\n")
    if t.deep:
        for n, v, rest in ADDRS:
            p = (rest if n != b"From" else D + b"Sender:s@t\r\n") + n + b":"
            t.over("a" + n.decode(), e, p, v, b"\r\n\r\n", 3)
            t.ins("a" + n.decode(), e, p, v, b"\r\n\r\n", 2)


STRUCT = [
    ("from", b"", b"From:A<b@c.d>,\"e\"<f@[g]>", b"\r\nSender:s@t\r\n" + D),
    ("to", BP, b"To:g:a@b,c<d@e>;,f@g", b"\r\n"),
    ("sender", BP, b"Sender:a b<c@d>", b"\r\n"),
    ("bcc", BP, b"Bcc:a@b", b"\r\n"),
    ("date", F, b"Date:Mon, 1 Jan 2000 00:00:00 +0000", b"\r\n"),
    ("mid", BP, b"Message-ID:<a.b@c>", b"\r\n"),
    ("refs", BP, b"References:<a@b><c@[d]>", b"\r\n"),
    ("irt", BP, b"In-Reply-To:<a@b>", b"\r\n"),
    ("kw", BP, b"Keywords:a,\"b\" c", b"\r\n"),
    ("recv", b"", b"Received:a b.c [d] <e@f>;1 Jan 2000 00:00 +0000", b"\r\n" + BP),
    ("rpath", b"", b"Return-Path:<a@b>", b"\r\n" + HDR[b"Received"] + BP),
    ("rpath0", b"", b"Return-Path:<>", b"\r\n" + HDR[b"Received"] + BP),
    ("resent", HDR[b"Received"], b"Resent-To:a@b,c@d", b"\r\n" + BP),
    ("mime", BP, b"MIME-Version:1.0", b"\r\n"),
    ("ct", BP, b"Content-Type:a/b;c=d;e=\"f\"", b"\r\n"),
    ("cte", BP, b"Content-Transfer-Encoding:8bit", b"\r\n"),
    ("disp", BP, b"Content-Disposition:inline;filename=a;b=c", b"\r\n"),
    ("cid", BP, b"Content-ID:<a@b>", b"\r\n"),
]


def c08(t):
    e = "e08"
    for n, pre, h, post in STRUCT:
        lo = h.index(b":") + 1
        p, v, q = pre + h[:lo], h[lo:], post + b"\r\n"
        t.ins(n, e, p, v, q, 2, CF)
        t.ins(n + "f", e, p, v, q, 0, fixed=lambda: [b"\r\n", sym(2, b" \t\r\n(")])
        t.ins(n + "c", e, p, v, q, 0, fixed=lambda: [b"(", sym(2, b"a\\()\" \r\n"), b")"])
        t.ins(n + "n", e, p, v, q, 0, fixed=lambda: [b" (a(", sym(1), b")\r\n ", sym(1, b"b\\("), b"))\r\n\t"], step=1 if t.deep else 2)
        t.ins(n + "2", e, p, v, q, 0, fixed=lambda: [b"(a)", sym(1, CF), b"(b)", sym(1, CF)], step=1 if t.deep else 2)
        if t.deep:
            t.ins(n, e, p, v, q, 3, CF)
            t.ins(n, e, p, v, q, 2)
    # quoted strings
    for pre, post in ((BP + b"To:", b" <a@b>\r\n\r\n"), (BP + b"Cc:", b"@b\r\n\r\n"), (BP + b"Keywords:", b"\r\n\r\n"), (BP + b"Content-Type:a/b;c=", b"\r\n\r\n"),
                      (BP + b"Content-Disposition:a;filename=", b"\r\n\r\n"), (b"Received:", b";1 Jan 2000 00:00 +0000\r\n" + BP + b"\r\n")):
        n = 4 if t.deep else 3
        t.add("q", e, pre, b"\"", sym(n, b"a\"\\ \r\n("), b"\"", post)
        t.add("qs", e, pre, b"\"a", sym(n, b" \t\r\n"), b"b\"", post)
        t.add("qb", e, pre, b"\"", sym(2), b"\"", post)
        t.add("qp", e, pre, b"\"\\", sym(2), b"\"", post)
        t.add("qe", e, pre, b"\"a\"", sym(2), post)
        t.add("q0", e, pre, sym(1), b"(a)\"b\\", sym(1), b"c\"(d)", sym(1), post)
        t.add("qf", e, pre, b"\"a \r\n ", sym(2, b" \r\nb\""), b" \r\n\tc \"", post)
        for k in (1, 2, 20, 80):
            t.add("ql%d" % k, e, pre, b"\"", Rep(k, b"a \\\" "), sym(1), b"\"", post)
    # comments: depth and balance
    for k in (1, 2, 3, 10, 50, 200):
        t.add("depth%d" % k, e, BP, b"To:", Rep(k, b"("), sym(2, b"a()\\ "), Rep(k, b")"), b"a@b\r\n\r\n")
        t.add("depthu%d" % k, e, BP, b"To:a@b", Rep(k, b"(x "), Rep(k - 1, b")"), sym(1), b"\r\n\r\n")
        t.add("seq%d" % k, e, BP, b"To:a@b", Rep(k, b"(x)"), sym(1), Rep(k, b" (y)"), b"\r\n\r\n")
    t.add("c", e, BP, b"To:(", sym(4 if t.deep else 3, b"a()\\ \r\n\""), b")a@b\r\n\r\n")
    t.add("cb", e, BP, b"To:(", sym(2), b")a@b\r\n\r\n")
    t.add("cq", e, BP, b"To:(\\", sym(2), b")a@b\r\n\r\n")


def c09(t):
    e = "e09"
    for n, v in IDS:
        t.over("id" + n.decode(), e, BP + n + b":", v, b"\r\n\r\n", 2)
        t.ins("id" + n.decode(), e, BP + n + b":", v, b"\r\n\r\n", 2 if t.deep else 1)
        if t.deep:
            t.over("id" + n.decode(), e, BP + n + b":", v, b"\r\n\r\n", 3)
        al = b"a.@<>[] (\"\\"
        t.add("any", e, BP, n + b":<", sym(3, al), b"@b>\r\n\r\n")
        t.add("anyr", e, BP, n + b":<a@", sym(3, al), b">\r\n\r\n")
        t.add("anyl", e, BP, n + b":<a@[", sym(3), b"]>\r\n\r\n")
        t.add("any2", e, BP, n + b":<a@b>", sym(2), b"<c@d>\r\n\r\n")
        t.add("any0", e, BP, n + b":", sym(2), b"<c@d>", sym(1), b"\r\n\r\n")
        t.add("dots", e, BP, n + b":<", sym(4, b"a."), b"@", sym(4, b"b."), b">\r\n\r\n")
        t.add("small", e, BP, n + b":", sym(5 if t.deep else 4, b"<a@b>"), b"\r\n\r\n")
        for k in (2, 9, 40):
            t.add("many%d" % k, e, BP, n + b":", Rep(k, b"<a@b> "), b"<c", sym(1), b"d>\r\n\r\n")
            t.add("long%d" % k, e, BP, n + b":<", Rep(k, b"a."), sym(1), b"@", Rep(k, b"b."), b"c>\r\n\r\n")
    t.over("re", e, HDR[b"Received"] + b"Resent-Message-ID:", b"<a@[b]>", b"\r\n" + BP + b"\r\n", 2)
    t.add("bytes", e, BP, b"Message-ID:<", sym(1), b"@", sym(1), b">\r\n\r\n")


def c10(t):
    e = "e10"
    post = BP + b"\r\n"
    for nm, tr in (("t", TRACE), ("u", b"Received:a;1 Jan 2000 00:00 +0000\r\nReturn-Path:<>\r\nReceived:x y@z \"q\";\r\n 1 Feb 2000 00:00 +0000 (c)\r\nResent-Message-ID:<a@b>\r\n")):
        t.over(nm, e, b"", tr, post, 2, step=1 if t.deep else 2)
        t.ins(nm, e, b"", tr, post, 1, step=1 if t.deep else 2)
    R = b"Received:"
    Dt = b";1 Jan 2000 00:00 +0000\r\n"
    al = b"a@.<>[] (;\""
    t.add("tok", e, R, sym(4 if t.deep else 3, al), Dt, post)
    for x in (b"a", b"<a@", b"a@", b"[", b"\"", b"a b.", b"(c)"):
        t.add("tok+", e, R + x, sym(3 if t.deep else 2, al), b"b", sym(1, al), Dt, post)
        t.add("tokf", e, R + x, sym(2), Dt, post)
    for x, y in ((b"from a by ", b" for c@d"), (b"a.b", b"c.d"), (b"<", b"@b>"), (b"a@", b""), (b"[", b"]"), (b"", b"@[x]")):
        t.add("byte", e, R + x, sym(2), y, Dt, post)
    t.add("nodate", e, R, b"x", sym(2), b"1 Jan 2000 00:00 +0000", sym(1), b"\r\n", post)
    P = b"Return-Path:"
    for x, y in ((b"<", b">"), (b"<a@b", b""), (b"", b"a@b>"), (b" (c) <", b"b>"), (b"<a@", b"> "), (b"<>", b"")):
        t.add("path", e, P + x, sym(3 if t.deep else 2, b"a@b<> ().[]"), y, b"\r\n", HDR[b"Received"], post)
        t.add("pathf", e, P + x, sym(2), y, b"\r\n", HDR[b"Received"], post)
    # sequences of trace headers
    ks = [b"Return-Path", b"Received", b"Resent-From", b"Resent-Date", b"Resent-Message-ID", b"X"]
    import itertools
    for i, c in enumerate(itertools.product(ks, repeat=3)):
        if not t.deep and i % 2:
            continue
        t.add("seq" + "-".join(k.decode() for k in c), e, HDR[c[0]], one((c[1], dict(KINDS)[c[1]])), HDR[c[2]], post)
    res = [k for k, _ in KINDS if k.startswith(b"Resent")]
    for a in res:
        for b in res:
            t.add("res%s%s" % (a.decode(), b.decode()), e, HDR[b"Received"], one((a, dict(KINDS)[a])), HDR[b], post)
    for n in (2, 5, 20):
        t.add("many%d" % n, e, Rep(n, HDR[b"Received"]), R + b"x", sym(1), Dt, post)
        t.add("blocks%d" % n, e, Rep(n, HDR[b"Return-Path"] + HDR[b"Received"] + HDR[b"Resent-To"]), R + b"x", sym(1), Dt, post)
        t.add("toks%d" % n, e, R, Rep(n, b"a <b@c> d.e "), sym(1), Dt, post)
    t.add("late", e, BP, b"X:y\r\nReceive", sym(1), b":x;1 Jan 2000 00:00 +0000\r\nReturn-Path:", sym(1), b"a@b>\r\n\r\n")
    t.over("rest", e, HDR[b"Received"] + b"Resent-", b"Date:2 Jan 2000 00:00 +0000\r\nResent-Sender:a@b", b"\r\n" + post, 2)


def c11(t):
    e = "e11"
    t.add("b4", e, BP, b"\r\n", sym(4))
    t.add("b3", e, BP, b"\r\nabc", sym(3), b"def")
    n = 5 if t.deep else 4
    for h in (BP, BP + b"X:y\r\n", BP + b"Subject:s\r\n", BP + b"Content-Transfer-Encoding:binary\r\n", BP + b"Content-Transfer-Encoding:8bit\r\n",
              BP + b"Content-Transfer-Encoding:7bit\r\n", BP + b"Content-Type:text/plain;charset=utf-8\r\n"):
        t.add("sep", e, h[:-2], sym(n, b"\r\nab"), b"body")
        t.add("sepf", e, h[:-2], sym(3), b"\r\nbody")
        t.add("sepg", e, h, sym(3), b"body\r\n")
        t.add("end", e, h[:-2], sym(3))
        t.add("end0", e, h, sym(2))
        t.add("bodyf", e, h, b"\r\n", sym(3), b"\r\n\r\n", sym(1))
        t.add("hb", e, h, b"\r\n", sym(2, b"\r\nX: "), b"X:y\r\n\r\n", sym(2, b"\r\nx"))
    for k in (1, 76, 77, 998, 999, 1000, 3000, 20000):
        t.add("long%d" % k, e, BP, b"\r\n", Rep(k, b"x"), sym(2), Rep(k, b"\xff"))
        t.add("lines%d" % k, e, BP, b"\r\n", Rep(min(k, 3000), b"\r\n"), sym(2), b"\0")


def c12(t):
    e = "e12"
    t.add("b4", e, BP, b"\r\n", sym(4))
    t.add("b5", e, BP, b"\r\n", sym(6 if t.deep else 5, b"\r\na\0\x80"))
    t.add("b3", e, BP, b"\r\nabc\r\n", sym(3), b"def")
    t.add("b3e", e, BP, b"\r\nabc", sym(3))
    for h in (BP, BP + b"X:y\r\n", BP + b"Content-Type:multipart/x\r\n"):
        t.add("sep", e, h[:-2], sym(5 if t.deep else 4, b"\r\nab"), b"body")
        t.add("sepf", e, h[:-2], sym(3), b"\r\nbody")
        t.add("sepg", e, h, sym(3), b"body\r\n")
        t.add("end", e, h[:-2], sym(3))
        t.add("end0", e, h, sym(3))
    ks = range(990, 1006) if t.deep else (996, 997, 998, 999, 1000)
    for k in ks:
        t.add("line%d" % k, e, BP, b"\r\n", Rep(k - 2, b"a"), sym(3))
        t.add("line%dn" % k, e, BP, b"\r\n", Rep(k - 2, b"a"), sym(3, b"\r\na"), b"\r\nb")
        t.add("line2%d" % k, e, BP, b"\r\nab\r\n", Rep(k - 2, b"a"), sym(3, b"\r\na"), b"\r\n")
        t.add("line3%d" % k, e, BP, b"\r\n", Rep(500, b"a"), sym(2, b"\r\na"), Rep(k - 502, b"a"), sym(3, b"\r\na"), Rep(20, b"c\r\n"))
        t.add("line4%d" % k, e, BP, b"\r\n", Rep(k, b"a"), b"\r\n", Rep(k, b"b"), sym(2, b"\r\na"))
        t.add("line5%d" % k, e, BP, b"\r\n", Rep(k - 10, b"a"), sym(2), Rep(8, b"b"), sym(2), b"\r\n\r\n")
    for k in (1097, 1098, 1099, 1100, 1500, 1996, 1997, 1998, 2500, 4000) + ((1024, 1025, 1250, 3000, 8192, 16384, 65536) if t.deep else ()):
        t.add("long%d" % k, e, BP, b"\r\n", Rep(k, b"a"), sym(2))
        t.add("long%dn" % k, e, BP, b"\r\nab\r\n", Rep(k, b"a"), sym(3, b"\r\na"), b"b")
        t.add("long%dh" % k, e, BP, b"\r\n", Rep(k // 2, b"a"), sym(2), Rep(k - k // 2 - 2, b"b"))
    t.add("len0", e, BP, b"\r\n", sym(1))
    for k in (1, 2, 3, 50, 300):
        t.add("nl%d" % k, e, BP, b"\r\n", Rep(k, b"x\r\n"), sym(3), Rep(k, b"\r\n"))


B64 = bs(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")


def c13(t):
    e = "e13"
    for n in range(0, 6 if not t.deep else 8):
        t.add("any%d" % n, e, sym(n))
    for n in range(4, 9 if t.deep else 8):
        t.add("alpha%d" % n, e, sym(n, B64))
    for n in (6, 7, 8, 9):
        t.add("pad%d" % n, e, sym(n, b"A=\n"))
        t.add("padz%d" % n, e, sym(n, b"z/=" if t.deep else b"z="))
    for p in (b"QUJD", b"QUI=", b"QQ==", b"QUJDRA==\r\n", b"Q\r\nU\r\nJ\r\nD"):
        t.add("after" + repr(p), e, p, sym(4))
        t.add("before" + repr(p), e, sym(3), p)
    t.over("mid", e, b"", b"QUJD\r\nREVG\r\nR0g=\r\n", b"", 3)
    t.ins("mid", e, b"", b"QUJD\r\nREVG\r\nR0g=\r\n", b"", 2)
    for k in (18, 19, 25, 57, 100):
        t.add("long%d" % k, e, Rep(k, b"QUJD"), sym(4), Rep(3, b"Zm9v"))
        t.add("longl%d" % k, e, Rep(k, b"QUJD" * 4 + b"\r\n"), sym(4))
    m = "e13m"
    H = BP + b"Content-Transfer-Encoding:base64\r\n"
    t.add("msg", m, H, b"\r\n", sym(4) if t.deep else [b"Q", sym(3)])
    t.add("msg5", m, H, b"\r\nQQ", sym(3), b"\r\n")
    t.add("msgcase", m, BP, b"Content-Transfer-Encoding:", case_of(b"base64"), b"\r\n\r\nQUJ", sym(1))
    t.add("part", m, BP, MULTI_H, b"\r\n--xy\r\nContent-Transfer-Encoding:base64\r\n\r\nQU", sym(2), b"\r\n--xy--")
    t.add("word", m, BP, b"Subject:=?utf-8?b?QU", sym(2), b"?=\r\n\r\n")
    t.add("word4", m, BP, b"Subject:=?iso-8859-1?B?", b"4", sym(1, bs(B64 | bs(b"=-"))), b"4", sym(1, bs(B64 | bs(b"=-"))), b"?=\r\n\r\n")
    if t.deep:
        t.over("mid", e, b"", b"QUJD\r\nREVG\r\nR0g=\r\n", b"", 4)
        t.add("pad12", e, sym(12, b"A="))


HEXD = bs(b"0123456789abcdefABCDEF")


def c14(t):
    e = "e14"
    for n in range(0, 5 if not t.deep else 6):
        t.add("any%d" % n, e, sym(n))
    for n in (4, 5, 6):
        t.add("eq%d" % n, e, sym(n, b"=4\r\na" if n < 6 or t.deep else b"=4\r\n"))
    t.add("esc", e, b"=", sym(2), b"=", sym(2))
    t.add("esc2", e, b"a=", sym(2, HEXD), sym(1), b"b")
    t.add("escend", e, b"abc", sym(3, bs(HEXD | bs(b"=\r\n g"))))
    t.add("soft", e, b"a=", sym(3), b"b")
    t.add("softw", e, b"a=", sym(4, b" \t\r\n="), b"b")
    t.add("nl", e, b"a", sym(4, b"\r\n= "), b"b")
    for i in range(0, 128, 32):
        pass
    t.add("raw", e, b"a", sym(3), b"b")
    v = b"a=3D=\r\nb \r\n=E2=82=ac\tc\r\n=\r\n"
    t.over("mid", e, b"", v, b"", 3 if not t.deep else 4)
    t.ins("mid", e, b"", v, b"", 2 if not t.deep else 3)
    for k in (70, 74, 75, 76, 77, 998, 3000):
        t.add("long%d" % k, e, Rep(k, b"x"), sym(3), Rep(k, b"y"))
        t.add("longe%d" % k, e, Rep(k, b"=41"), sym(3), Rep(5, b"=\r\n"))
    m = "e14m"
    H = BP + b"Content-Transfer-Encoding:quoted-printable\r\n"
    t.add("msg", m, H, b"\r\n", sym(3))
    t.add("msge", m, H, b"\r\na=", sym(2), b"\r\n")
    t.add("msgcase", m, BP, b"Content-Transfer-Encoding:", case_of(b"quoted"), b"-PRINTABLE\r\n\r\n=4", sym(1))
    t.add("part", m, BP, MULTI_H, b"\r\n--xy\r\nContent-Transfer-Encoding:quoted-printable\r\n\r\n=", sym(2), b"=\r\nz\r\n--xy--")
    t.add("word", m, BP, b"Subject:=?iso-8859-1?q?a=", sym(2), b"_?=\r\n\r\n")


def c15(t):
    e = "e15"
    for h, post in ((b"Subject:", b"\r\n\r\n"), (b"Keywords:", b",k\r\n\r\n"), (b"To:", b" <a@b>\r\n\r\n")):
        v = b"=?utf-8?Q?b_=41?= =?ISO-8859-1*en?b?5Q==?="
        if h == b"Subject:":
            v = b"a " + v + b" c"
        t.over(h.decode(), e, BP + h, v, post, 2)
        t.ins(h.decode(), e, BP + h, v, post, 1)
        t.ins(h.decode() + "s", e, BP + h, v, post, 2, b"=? \r\n_a", step=1 if t.deep else 2)
        if t.deep:
            t.over(h.decode(), e, BP + h, v, post, 3)
            t.ins(h.decode(), e, BP + h, v, post, 2)
        t.add("q2", e, BP, h, b"=?utf-8?Q?", sym(2), b"?=", post)
        t.add("q3", e, BP, h, b"=?utf-8?q?", sym(3, b"=_4f?a c\xc3"), b"?=", post)
        t.add("qx", e, BP, h, b"=?iso-8859-1?Q?=", sym(2), b"?=", post)
        t.add("b4", e, BP, h, b"=?us-ascii?B?", [] if t.deep else b"S", sym(4 if t.deep else 3, bs(B64 | bs(b"=?"))), b"?=", post)
        t.add("sep", e, BP, h, b"=?utf-8?Q?a?=", sym(3, b" \t\r\nb"), b"=?utf-8?Q?c?=", post)
        t.add("sep1", e, BP, h, b"x", sym(2, b" \t\r\n(y"), b"=?utf-8?Q?c?=", sym(2, b" \t\r\n(y"), post)
        t.add("sep3", e, BP, h, b"=?utf-8?Q?a?= =?utf-8?Q?b?=", sym(2), b"=?utf-8?Q?c?= d", post)
        t.add("cmt", e, BP, h, b"(x)", sym(1), b"=?utf-8?Q?a?=", sym(1), b"(y)", post)
        t.add("lang", e, BP, h, b"=?utf-8*", sym(2), b"?Q?a?=", post)
        t.add("langq", e, BP, h, b"=?utf-8", sym(3, b"*?eQ"), b"Q?a?=", post)
        t.add("enc", e, BP, h, b"=?utf-8?", sym(1), b"?YWI=?=", post)
        t.add("enc2", e, BP, h, b"=?utf-8?", sym(2), b"?YWI=?=", post)
        t.add("cs", e, BP, h, b"=?", case_of(b"utf-8"), b"?", V(b"qQbB"), b"?YWI=?=", post)
        t.add("csi", e, BP, h, b"=?iso-8859-", sym(2), b"?Q?=E9?=", post)
        t.add("csx", e, BP, h, b"=?", sym(2), b"?Q?a?=", post)
        t.add("end", e, BP, h, b"=?utf-8?Q?a", sym(3, b"?= a"), post)
        t.add("nest", e, BP, h, b"=?utf-8?Q?=3D=3Futf", sym(1), b"8?= =?utf-8?Q?=?=", post)
        for k in (2, 3, 10, 40):
            t.add("many%d" % k, e, BP, h, Rep(k, b"=?utf-8?Q?a?= "), b"=?utf-8?Q?b?", sym(1), post)
        for k in (60, 75, 76, 200):
            t.add("long%d" % k, e, BP, h, b"=?utf-8?Q?", Rep(k, b"a"), sym(1), b"?=", post)
    t.add("first", e, BP, b"Subject:", sym(1), b"=?utf-8?Q?a?=\r\nComments:=?utf-8?Q?b?=", sym(1), b"\r\n\r\n")
    t.add("utf", e, BP, b"Subject:=?utf-8?Q?=", sym(2, HEXD), b"=", sym(2, b"89abAB0"), b"?=\r\n\r\n")
    for h in (b"Comments:", b"Content-Description:"):
        t.add("in" + h.decode(), e, BP, h, b"=?utf-8?Q?", sym(2), b"?= b\r\n\r\n")
        t.add("in2" + h.decode(), e, BP, h, b"=?utf-8?Q?a?=", sym(2), b"=?utf-8?Q?b?=\r\n\r\n")
    # not decoded where encoded words may not stand
    for x, y in ((b"To:\"=?utf-8?Q?a", b"=\" <a@b>"), (b"To:=?utf-8?Q?a", b"=@b"), (b"X:=?utf-8?Q?a", b"="), (b"Message-ID:<=?utf-8?Q?a", b"=@b>"), (b"To:x (=?utf-8?Q?a", b"=) <a@b>"), (b"To:=?utf-8?Q?g", b"=:a@b;")):
        t.add("not", e, BP, x, sym(1), y, b"\r\n\r\n")
    t.add("res", e, HDR[b"Received"], b"Resent-To:=?utf-8?Q?a", sym(1), b"= <a@b>\r\n", BP, b"\r\n")


CHARSETS = [b"utf-8", b"us-ascii"] + [b"iso-8859-%d" % i for i in list(range(1, 12)) + [13, 14, 15, 16]] + [b"iso-6937", b"gb2312"]


def c16(t):
    from known import bad6937, bad2312
    e = "e16"

    def text(cs, *body):
        t.add("t" + cs.decode(), e, BP, b"Content-Type:text/plain;charset=" + cs + b"\r\n\r\n", *body)

    one6937 = bs(c for c in range(256) if not 0xC1 <= c <= 0xCF)
    one2312 = bs(c for c in range(256) if c < 0x80)
    for cs in CHARSETS:
        s = FULL
        if cs == b"iso-6937":
            s = one6937
        if cs == b"gb2312":
            s = one2312
        n = 1 if cs.startswith(b"iso") else 2
        text(cs, sym(n, s))
        text(cs, b"a", sym(1, s), b"b", sym(1, s), b"c")
        if t.deep:
            text(cs, sym(2, s))
        text(cs.upper(), sym(1, s))
        # letter case, encoded words, parameters, transfer encodings, parts
        t.add("case" + cs.decode(), e, BP, b"Content-Type:text/plain;charset=\"", case_of(cs), b"\"\r\n\r\n", b"\xa4\xe9" if cs not in (b"utf-8", b"us-ascii") else b"\xc3\xa9", b"\xa4\xe9" if cs == b"gb2312" else b"z")
        hx = [b"=", V(b"23456789ABCDEF" if cs != b"gb2312" else b"234567"), V(HEXD)]
        if cs == b"iso-6937":
            hx = [b"=", V(b"23456789ABDEF"), V(HEXD)]
        t.add("w" + cs.decode(), e, BP, b"Subject:=?" + cs + b"?Q?a", hx, b"?=\r\n\r\n")
        t.add("wc" + cs.decode(), e, BP, b"Subject:=?", case_of(cs[:5]), cs[5:].upper(), b"?Q?a=E9?=\r\n\r\n")
        t.add("p" + cs.decode(), e, BP, b"Content-Type:a/b;c*=" + cs + b"''a%", hx[1:], b"\r\n\r\n")
        t.add("pc" + cs.decode(), e, BP, b"Content-Type:a/b;c*0*=", case_of(cs[:5]), cs[5:].upper(), b"''a%", hx[1:], b";c*1*=b\r\n\r\n")
        t.add("d" + cs.decode(), e, BP, b"Content-Disposition:a;c*=" + cs + b"''a%E9\r\n\r\n")
        t.add("m" + cs.decode(), e, BP, MULTI_H, b"\r\n--xy\r\nContent-Type:text/x;charset=" + cs + b"\r\n\r\na", sym(1, s), b"\r\n--xy--")
        t.add("cte" + cs.decode(), e, BP, b"Content-Type:text/x;charset=" + cs + b"\r\nContent-Transfer-Encoding:quoted-printable\r\n\r\na", hx)
        for i in range(len(cs)):
            t.add("nm%s%d" % (cs.decode(), i), e, BP, b"Content-Type:text/x;charset=" + cs[:i], sym(1), cs[i + 1:], b"\r\n\r\na\xb5")
        t.add("nml" + cs.decode(), e, BP, b"Content-Type:text/x;charset=" + cs, sym(1), b"\r\n\r\na\xb5")
        t.add("nmw" + cs.decode(), e, BP, b"Subject:=?" + cs[:-1], sym(2), b"?Q?a=B5?=\r\n\r\n")
        t.add("nmp" + cs.decode(), e, BP, b"Content-Type:a/b;c*=" + cs[:-1], sym(2), b"''a%B5\r\n\r\n")
        q = b"Content-Type:text/x;charset=\""
        t.add("nq" + cs.decode(), e, BP, q, sym(1), cs, sym(1), b"\"\r\n\r\na\xb5")
        t.add("nz" + cs.decode(), e, BP, q, sym(2), cs, b"\"\r\n\r\na\xb5")
        t.add("ny" + cs.decode(), e, BP, q, cs, sym(2), b"\"\r\n\r\na\xb5")
        t.ins("ni" + cs.decode(), e, BP + b"Content-Type:text/x;charset=", cs, b"\r\n\r\na\xb5", 1, step=1 if t.deep else 2)
        t.add("nwq" + cs.decode(), e, BP, b"Subject:=?", sym(1), cs, sym(1), b"?Q?a=B5?=\r\n\r\n")
        t.add("npq" + cs.decode(), e, BP, b"Content-Type:a/b;c*=", sym(1), cs, sym(1), b"''a%B5\r\n\r\n")
        t.add("npr" + cs.decode(), e, BP, b"Content-Type:a/b;c*=\"", sym(1), cs, sym(1), b"''a%B5\"\r\n\r\n")
        t.add("ty" + cs.decode(), e, BP, b"Content-Type:", sym(1), b"ext/x;charset=" + cs + b"\r\n\r\na\xb5")
    # utf-8: all sequences up to four bytes
    for n in (1, 2, 3, 4):
        text(b"utf-8", sym(n))
        text(b"utf-8", b"a", sym(n), b"b")
    text(b"us-ascii", sym(3))
    # iso-6937 pairs and gb2312 pairs
    for lead in range(0xC1, 0xD0):
        ok = bs(c for c in range(256) if (lead, c) not in bad6937)
        text(b"iso-6937", bytes([lead]), V(ok))
        text(b"iso-6937", b"a", bytes([lead]), V(ok), b"b")
    text(b"iso-6937", V(one6937), V(one6937))
    for lead in range(0x80, 0x100):
        ok = bs(c for c in range(256) if (lead, c) not in bad2312)
        text(b"gb2312", bytes([lead]), V(ok))
        if t.deep or lead % 4 == 0:
            text(b"gb2312", b"a", bytes([lead]), V(ok), b"b")
    text(b"gb2312", b"a", V(one2312), V(one2312))
    t.add("none", e, BP, b"Content-Type:text/plain;chars", sym(2), b"t=utf-8\r\n\r\na\xb5")
    t.add("none2", e, BP, b"Content-Type:text/plain;charset=utf-8;charset=x", sym(1), b"\r\n\r\na\xb5")
    t.add("deflt", e, BP, b"\r\na", sym(2))


def c17(t):
    e = "e17"
    pre, post = BP + b"Content-Type:", b"\r\n\r\nx"
    for n, v in (("v", CTV), ("a", b"a/b;c=d"), ("m", b" Multipart/Mixed ;\r\n boundary=\"x y\" ; A=b")):
        t.over(n, e, pre, v, post, 2)
        t.ins(n, e, pre, v, post, 2 if t.deep or len(v) < 30 else 1)
        t.ins(n + "s", e, pre, v, post, 2, b";=/\"( a*\r\n", step=1)
        if t.deep:
            t.over(n, e, pre, v, post, 3)
    for ty in (b"text", b"image", b"audio", b"video", b"application", b"message", b"multipart"):
        t.add("ty" + ty.decode(), e, pre, case_of(ty[:6]), ty[6:], b"/x", post)
        t.add("tz" + ty.decode(), e, pre, ty[:-5], case_of(ty[-5:]), b"/x", post)
        t.add("tx" + ty.decode(), e, pre, ty, sym(2), b"x", post)
        t.add("tp" + ty.decode(), e, pre, ty[:-1], sym(2), b"/x", post)
        t.add("tq" + ty.decode(), e, pre, sym(1), ty, b"/x", post)
        for i in range(len(ty)):
            t.add("ti%s%d" % (ty.decode(), i), e, pre, ty[:i], sym(1), ty[i + 1:], b"/x", post)
    t.add("sub", e, pre, b"a/", sym(3, b"aB/;=\" ("), post)
    t.add("subf", e, pre, b"a/", sym(2), post)
    t.add("any", e, pre, sym(3), post)
    t.add("any4", e, pre, sym(4, b"a/; ="), post)
    t.add("name", e, pre, b"a/b;", sym(3, b"aB=;\"* ("), b"=c", post)
    t.add("val", e, pre, b"a/b;c=", sym(3, b"aB=;\"\\ (\r\n"), post)
    t.add("valf", e, pre, b"a/b;c=", sym(2), post)
    t.add("valq", e, pre, b"a/b;c=\"", sym(3, b"aB=;\"\\ (\r\n"), b"\"", post)
    t.add("valqf", e, pre, b"a/b;c=\"", sym(2), b"\";d=e", post)
    t.add("two", e, pre, b"a/b;", sym(1), b"=d;", sym(1), b"=e", post)
    t.add("tail", e, pre, b"a/b;c=d", sym(3, b" ;(\r\n)"), post)
    t.add("cfws", e, pre, b"a/b", sym(2, CF), b";", sym(2, CF), b"c=d", post)
    t.add("cmt", e, pre, b"(x)a/b(", sym(2, CF), b");(z)c=d(", sym(1, CF), b")", post)
    t.add("cmt2", e, pre, b"a/b (x)", sym(2, CF), b"(y) ;c=d (", sym(1, CF), b")(z)", post)
    for k in (2, 10, 40):
        t.add("many%d" % k, e, pre, b"a/b", b"".join(b";p%d=v%d" % (i, i) for i in range(k)), b";q=", sym(1), post)
        t.add("long%d" % k, e, pre, b"a/b;", Rep(k, b"n"), sym(1), b"=", Rep(k, b"v"), post)
        t.add("lsub%d" % k, e, pre, Rep(k, b"a"), sym(1), b"/", Rep(k, b"B"), post)
    t.add("dflt", e, BP, b"Content-Typ", sym(1), b":a/b\r\n\r\nx")
    t.add("bytes", e, pre, b"a", sym(1), b"/b", sym(1), b";c", sym(1), b"=d", sym(1), post)


def c18(t):
    e = "e18"
    pre, post = BP + b"Content-Type:a/b", b"\r\n\r\n"
    for n, v in (("c", b";b*1=c;a*0*=utf-8'en'%41;a*1=%42;b*0=\"d\";a*2*=z%2e"), ("d", b";n*=iso-8859-1''%E9x;m=1;n*1=z"), ("e", b";A*0=x;a*2=z;a*1=\"y \";a=p")):
        t.over(n, e, pre, v, post, 2)
        t.ins(n, e, pre, v, post, 1)
        t.ins(n + "s", e, pre, v, post, 2, b"*=';%0a1\"", step=1 if t.deep else 2)
        if t.deep:
            t.over(n, e, pre, v, post, 3)
    for p in (b";a*=", b";a*0*="):
        t.add("ext", e, pre, p, b"utf-8''", sym(4, b"%'2eE3C"), post)
        t.add("ext5", e, pre, p, b"utf-8''%", sym(2, HEXD), b"%", sym(2, b"89abAB2"), post)
        t.add("extl", e, pre, p, b"utf-8'", sym(3, b"en'%"), b"x", post)
        t.add("extc", e, pre, p, sym(2), b"''%41", post)
        t.add("extq", e, pre, p, b"\"utf-8''a%", sym(2), b" b\"", post)
        t.add("extf", e, pre, p, b"us-ascii''", sym(2), b"%41", post)
        t.add("double", e, pre, p, b"utf-8''%", sym(1, HEXD if t.deep else b"2357"), b"%", sym(2, HEXD if t.deep else b"2359cC"), b"5%32%3", sym(1), post)
        t.add("trunc", e, pre, p, b"utf-8''a", sym(3, b"%4g"), post)
        t.add("case", e, pre, p, case_of(b"utf"), b"-8'EN'%c3%A9", post)
        t.add("unk", e, pre, p, b"koi8-", sym(1), b"''%41", post)
    t.add("idx", e, pre, b";a*0=x;a*", sym(2, b"0123*="), b"=y;a*2=z", post)
    t.add("idx2", e, pre, b";a*", V(b"0123"), b"=x;a*", V(b"0123"), b"=y;a*", V(b"0123"), b"=z", post)
    t.add("idx3", e, pre, b";a*", V(b"012"), V(b"*="), b"=x;a*", V(b"012"), V(b"*="), b"=y", post)
    t.add("idx4", e, pre, b";a*", V(b"01"), b"*=utf-8''%41;a*", V(b"012"), b"*=%42;a*", V(b"012"), b"=%43", post)
    t.add("idx5", e, pre, b";a*0", sym(1), b"=x;a*01=y;a*1", sym(1), b"=z", post)
    t.add("idxd", e, pre, b";a*0=w;a*", sym(3, DIGIT), b"=x", post)
    t.add("names", e, pre, b";", V(b"abA"), b"*0=x;", V(b"abA"), b"*1=y;", V(b"abA"), b"=z", post)
    t.add("names2", e, pre, b";ab*0=x;", V(b"aA"), V(b"bB"), b"*1=y;ab*2", V(b"=*"), b"=z", post)
    t.add("plain", e, pre, b";a=", sym(1), b";a*0=x;a*1=", sym(1), post)
    t.add("lit", e, pre, b";a*0=", sym(2, b"%4'"), b"1;a*1*=%41;a*2=%42", post)
    t.add("mix", e, pre, b";a*0*=utf-8''%41;a*1", V(b"*="), b"=%", sym(2, HEXD), b";a*2*=%43", post)
    t.add("star", e, pre, b";", sym(3, b"a*0="), b"=x;a*1=y", post)
    t.add("star2", e, pre, b";a", sym(3, b"*01="), b"=utf-8''%41", post)
    for k in (9, 10, 11, 12, 30, 99, 101, 128, 255, 256, 257):
        ps = [b";n*%d=%c" % (i, 97 + i % 26) for i in range(k)]
        t.add("many%d" % k, e, pre, b"".join(ps)[:-1], sym(1), post)
        t.add("rev%d" % k, e, pre, b"".join(reversed(ps)), b";m=", sym(1), post)
        if k <= 30:
            t.add("gap%d" % k, e, pre, b"".join(p for i, p in enumerate(ps) if i != k - 3), b";m=", sym(1), post)
            t.add("pct%d" % k, e, pre, b";n*0*=utf-8''", b"".join(b"%%%02x" % (65 + i) for i in range(k)), b";n*1*=%4", sym(1), post)
            t.add("fam%d" % k, e, pre, b"".join(b";p%d*1=b;p%d*0=a" % (i, i) for i in range(k)), b";m=", sym(1), post)
    dp = BP + b"Content-Disposition:a"
    t.add("disp", e, dp, b";f*0*=utf-8''%41;f*1=", sym(2), post)
    t.add("disp2", e, dp, b";filename*=utf-8''%", sym(2), b";filename*0=x", post)
    t.add("disp3", e, dp, b";f*1=b;f*", V(b"012"), b"=a;f*2*=%41", post)
    t.add("utf", e, pre, b";a*0*=utf-8''%e2%82;a*1*=%", sym(2, HEXD), post)
    for cs in (b"iso-8859-1", b"iso-8859-15", b"gb2312", b"us-ascii"):
        t.add("cs" + cs.decode(), e, pre, b";a*0*=" + cs + b"''%", sym(2, b"0123456789aAbBgG" if cs == b"gb2312" else FULL), b"%A1;a*1*=%A4" if cs == b"gb2312" else b"x;a*1*=%A4" + (b"%E9" if cs == b"gb2312" else b""), post)


def c19(t):
    e = "e19"
    pre, post = BP + b"Content-Disposition:", b"\r\n\r\n"
    for n, v in (("v", DISP), ("a", b"inline;a=b"), ("w", b"x;modification-date=\"1 Jan 2000 00:00 +0000\";FileName=a;read-date=\"2 Jan 2000 00:00 +0000\"")):
        t.over(n, e, pre, v, post, 2, step=1 if t.deep or len(v) < 90 else 2)
        t.ins(n, e, pre, v, post, 1)
        t.ins(n + "s", e, pre, v, post, 2, b";=\"( a*\r\n", step=1 if t.deep else 2)
        if t.deep:
            t.over(n, e, pre, v, post, 3)
    for ty in (b"inline", b"attachment"):
        t.add("ty" + ty.decode(), e, pre, case_of(ty[:6]), ty[6:], post)
        t.add("tz" + ty.decode(), e, pre, ty[:-5], case_of(ty[-5:]), b";a=b", post)
        t.add("tx" + ty.decode(), e, pre, ty, sym(2), post)
        t.add("tp" + ty.decode(), e, pre, ty[:-1], sym(2), post)
        t.add("tq" + ty.decode(), e, pre, sym(1), ty, post)
    t.add("any", e, pre, sym(3), post)
    names = (b"filename", b"creation-date", b"modification-date", b"read-date")
    for nm in names:
        val = b"\"3 Mar 2003 03:03 +0303\"" if nm != b"filename" else b"\"a b\""
        for i in range(0, len(nm), 5):
            t.add("case%s%d" % (nm.decode(), i), e, pre, b"x;", nm[:i], case_of(nm[i:i + 5]), nm[i + 5:], b"=", val, post)
        for i in range(len(nm) + 1):
            t.add("nm%s%d" % (nm.decode(), i), e, pre, b"x;", nm[:i], sym(1), nm[i + 1:], b"=", val, post)
        t.add("nl" + nm.decode(), e, pre, b"x;", nm, sym(2), b"=", val, post)
        t.add("eq" + nm.decode(), e, pre, b"x;", nm, b"=", sym(2), val[2:], post)
        t.add("end" + nm.decode(), e, pre, b"x;", nm, b"=", val[:-1], sym(2), post)
        t.add("sp" + nm.decode(), e, pre, b"x", sym(1, CF), b";", sym(1, CF), nm, sym(1, b" =\t"), b"=", val, post)
        for o in names:
            v2 = b"\"4 Apr 2004 04:04 +0404\"" if o != b"filename" else b"c"
            t.add("two%s%s" % (nm.decode(), o.decode()), e, pre, b"x;", nm, b"=", val, b";y=", sym(1), b";", o, b"=", v2, post)
        t.add("date" + nm.decode(), e, pre, b"x;", nm, b"=\"", sym(2, b"0123 "), b" Jan 2000 00:00 +0000\"", post)
        t.add("datq" + nm.decode(), e, pre, b"x;", nm, b"=", sym(1), b"1 Jan 2000 00:00 +0000", sym(1), b";a=b", post)
        t.add("datt" + nm.decode(), e, pre, b"x;", nm, b"=tok", sym(1), b"en;a=b", post)
    t.add("fn", e, pre, b"x;filename=", sym(3, b"aB=;\"\\ (\r\n."), post)
    t.add("fnf", e, pre, b"x;filename=", sym(2), post)
    t.add("fnq", e, pre, b"x;filename=\"", sym(3, b"aB=;\"\\ (\r\n."), b"\"", post)
    t.add("fnqf", e, pre, b"x;filename=\"", sym(2), b"\";d=e", post)
    t.add("tail", e, pre, b"inline;c=d", sym(3, b" ;(\r\n)"), post)
    t.add("cmt", e, pre, b"(x)inline(", sym(2, CF), b");(z)filename=d(", sym(1, CF), b")", post)
    for k in (2, 10, 40):
        t.add("many%d" % k, e, pre, b"x", b"".join(b";p%d=v%d" % (i, i) for i in range(k)), b";filename=", sym(1), post)
        t.add("long%d" % k, e, pre, b"x;filename=\"", Rep(k, b"n "), sym(1), b"\";size=", Rep(k, b"1"), post)


def c20(t):
    e = "e20"
    pre = BP + b"Content-Transfer-Encoding:"
    body = b"\r\n\r\nQUJD=41\r\n=\r\nx"
    encs = (b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable")
    for c in encs:
        bd = b"\r\n\r\nQUJD\r\nREVG\r\n" if c == b"base64" else body
        t.over(c.decode(), e, pre, c, bd, 2)
        t.ins(c.decode(), e, pre, c, bd, 2)
        for i in range(0, len(c), 5):
            t.add("case%s%d" % (c.decode(), i), e, pre, c[:i], case_of(c[i:i + 5]), c[i + 5:], bd)
        t.add("body" + c.decode(), e, pre, c, b"\r\n\r\n", sym(3))
        t.add("bodyq" + c.decode(), e, pre, c, b"\r\n\r\nQ", sym(4, b"=4U\r\n"))
        t.add("cmt" + c.decode(), e, pre, sym(2, CF), c, sym(2, CF), bd)
        t.add("cmt2" + c.decode(), e, pre, b"(a)", c, b"(", sym(2, CF), b")", bd)
        t.add("name" + c.decode(), e, BP, b"Content-Transfer-Encodin", sym(2), c, bd)
        P = BP + MULTI_H + b"\r\n--xy\r\n"
        t.add("part" + c.decode(), e, P, b"Content-Transfer-Encoding:", c, sym(1), b"\r\n\r\nQUJD\r\n--xy--")
        t.add("part2" + c.decode(), e, P, b"Content-Transfer-Encoding:", c[:-1], sym(1), b"\r\n\r\nQUJD\r\n--xy\r\n\r\nQ=41\r\n--xy--")
        t.add("part3" + c.decode(), e, P, b"\r\nQ=41\r\n--xy\r\nContent-Transfer-Encoding:", case_of(c[:4]), c[4:], b"\r\n\r\nQUJ", sym(1), b"\r\n--xy--")
        t.add("partb" + c.decode(), e, P, b"Content-Transfer-Encoding:", c, b"\r\n\r\n", sym(2), b"==\r\n--xy--")
        for d in encs:
            t.add("two%s%s" % (c.decode(), d.decode()), e, BP, b"Content-Transfer-Encoding:" + c + b"\r\n", MULTI_H, b"\r\n--xy\r\nContent-Transfer-Encoding:" + d + b"\r\n\r\nQ", sym(1), b"JD\r\n--xy--")
            if c != d:
                t.add("sib%s%s" % (c.decode(), d.decode()), e, P, b"Content-Transfer-Encoding:" + c + b"\r\n\r\nQUJD\r\n--xy\r\nContent-Transfer-Encoding:" + d + b"\r\n\r\nQ", sym(1), b"JD\r\n--xy--")
    t.add("any", e, pre, sym(3), body)
    t.add("tok", e, pre, sym(3, b"7bi8t-"), body)
    t.add("none", e, BP, b"\r\nQ=4", sym(2))
    t.add("empty", e, pre, sym(1), b"\r\n\r\nabc")
    # a transfer-encoded multipart
    import base64
    mb = b"--xy\r\nContent-Transfer-Encoding:quoted-printable\r\n\r\na=41\r\n--xy--"
    t.add("b64multi", e, BP, MULTI_H, b"Content-Transfer-Encoding:base64\r\n\r\n", base64.b64encode(mb), sym(1))
    t.add("qpmulti", e, BP, MULTI_H, b"Content-Transfer-Encoding:quoted-printable\r\n\r\n", mb.replace(b"=", b"=3D"), sym(1))
    if t.deep:
        for c in encs:
            t.over(c.decode(), e, pre, c, body, 3)


def c21(t):
    e = "e21"
    pre = BP + MULTI_H + b"\r\n"
    for n, b in (("m", MULTI_B), ("s", b"--xy\r\n\r\nA\r\n--xy--"), ("z", b"a\r\n\r\n--xy\r\n\r\n--xy\r\n\r\n\r\n--xy\r\n\r\nC\r\n--xy--\r\n--xy\r\n\r\nD\r\n--xy--\r\n")):
        t.over(n, e, pre, b, b"", 2, step=1)
        t.ins(n, e, pre, b, b"", 1)
        t.ins(n + "s", e, pre, b, b"", 3, b"-\r\nxy", step=1 if t.deep else 3)
        t.cut(n, e, pre, b, 2, b"-\r\nxy")
        if t.deep:
            t.over(n, e, pre, b, b"", 3)
            t.ins(n, e, pre, b, b"", 2)
    al = b"-\r\nxy"
    k = 5 if t.deep else 4
    t.add("start", e, pre, sym(k, al), b"\r\n\r\nA\r\n--xy--\r\n")
    t.add("mid", e, pre, b"--xy\r\n\r\nA", sym(k, al), b"xy\r\n\r\nB\r\n--xy--\r\n")
    t.add("mid2", e, pre, b"--xy\r\n\r\nA\r\n--xy", sym(k, al), b"\r\nB\r\n--xy--\r\n")
    t.add("end", e, pre, b"--xy\r\n\r\nA\r\n--xy", sym(k, al))
    t.add("endc", e, pre, b"--xy\r\n\r\nA\r\n--xy--", sym(k, al))
    t.add("epi", e, pre, b"--xy\r\n\r\nA\r\n--xy--\r\n--x", sym(k, al), b"\r\n--xy--\r\n")
    t.add("pre", e, pre, b"\r\n--x", sym(k, al), b"--xy\r\n\r\nA\r\n--xy--\r\n")
    t.add("blank", e, pre, b"--xy\r\n", sym(k, b"\r\n-a"), b"\r\n--xy--")
    t.add("dd", e, pre, b"--xy\r\n", sym(2, al), b"--xy", sym(2, al), b"\r\n--xy--\r\n")
    t.add("like", e, pre, b"--xy\r\n\r\n--x", sym(2), b"\r\n--xyz\r\n--xy-\r\n-xy\r\n --xy\r\n--xy \r\nA\r\n--xy--\r\n")
    for bd in (b"a", b"a-", b"--", b"xyxy", b"\"a b\"", b"\"a:b\"", b"\"\"", b"a'b+_,./:=?"[:6], b"-a-", b"\"a--\"", b"0123456789012345678901234567890123456789012345678901234567890123456789"):
        raw = bd.strip(b"\"")
        h = BP + b"Content-Type:multipart/x;boundary=" + bd + b"\r\n\r\n"
        t.add("b1" + bd.decode(), e, h, b"--" + raw + b"\r\n\r\nA\r\n--" + raw, sym(3, al), b"\r\nB\r\n--" + raw + b"--\r\n")
        t.add("b2" + bd.decode(), e, h, b"p\r\n--" + raw + b"\r\n\r\nA\r\n-", sym(2), raw + b"--\r\n")
        t.add("b3" + bd.decode(), e, h, b"--" + raw + b"\r\n\r\nA\r\n--" + raw[:-1], sym(2), b"\r\n\r\nB\r\n--" + raw + b"--\r\n")
        t.add("b4" + bd.decode(), e, h, b"--", raw, sym(1), b"\n\r\nA\r\n--", raw, b"--", sym(2))
    # every character in a boundary, standing at every place of it, alike in the parameter and in the lines
    for n in (1, 2, 4, 9, 32, 69, 70, 71):
        for k in sorted({0, n // 2, n - 1}):
            for q in (b"\"", b""):
                a, x, y = V(FULL), b"u" * k, b"v" * (n - k - 1)
                h = [BP, b"Content-Type:multipart/x;boundary=", q, x, a, y, q, E2]
                t.add("bsym%d@%d" % (n, k), e, *h, b"--", x, a, y, b"\r\n\r\nA\r\n--", x, a, y, b"--\r\nB")
                t.add("bend%d@%d" % (n, k), e, *h, b"--", x, a, y, b"\r\n\r\nA\r\n--", x, a, y, sym(2, b" \t\r-"), b"\r\nB\r\n--", x, a, y, b"--")
    for q in (b"\"", b""):
        a, b = V(FULL), V(FULL)
        t.add("bsym2", e, BP, b"Content-Type:multipart/x;boundary=", q, a, b, q, E2, b"p\r\n--", a, b, b"\r\n\r\nA\r\n--", a, b, b"--\r\nB")
        t.add("bsym3", e, BP, b"Content-Type:multipart/x;boundary=", q, b"x", a, b"y", b, q, E2, b"p\r\n--x", a, b"y", b, b"\r\n\r\nA\r\n--x", a, b"y", b, b"--\r\nB")
    # boundary parameter
    for x in (b"boundary=", b"Boundary=\"", b"BOUNDARY="):
        t.add("par", e, BP, b"Content-Type:multipart/x;" + x, sym(2, b"xyXY;\""), b"\"" if x[-1:] == b"\"" else b"", b"\r\n\r\n--xy\r\n\r\nA\r\n--xy--\r\n--x\r\n--x--")
    t.add("nopar", e, BP, b"Content-Type:multipart/x;bound", sym(2), b"y=xy\r\n\r\n--xy\r\n\r\nA\r\n--xy--")
    t.add("parq", e, BP, b"Content-Type:multipart/x;boundary=\"x", sym(1), b"\"\r\n\r\n--x", sym(1), b"\r\n\r\nA\r\n--x-")
    t.add("ty", e, BP, b"Content-Type:multipar", sym(1), b"/x;boundary=xy\r\n\r\n--xy\r\n\r\nA\r\n--xy--")
    t.add("pars", e, BP, b"Content-Type:multipart/x;boundary*0=x;boundary*1=", sym(1), b"\r\n\r\n--xy\r\n\r\nA\r\n--xy--")
    for n in (1, 2, 3, 5, 12, 40):
        t.add("many%d" % n, e, pre, Rep(n, b"--xy\r\n\r\nA\r\n"), b"--xy", sym(2, al), b"\r\n\r\n--xy--")
        t.add("empties%d" % n, e, pre, Rep(n, b"--xy\r\n"), b"--xy--", sym(1))
    for n in (100, 1000, 3000):
        t.add("long%d" % n, e, pre, b"--xy\r\n\r\n", Rep(n, b"A"), sym(3, al), b"-xy--\r\n")
    # nested
    inner = b"Content-Type:multipart/y;boundary=zz\r\n\r\n--zz\r\n\r\nI\r\n--zz--\r\n"
    t.over("nest", e, pre, b"--xy\r\n" + inner + b"--xy--\r\n", b"", 2, step=1 if t.deep else 2)
    inner2 = b"Content-Type:multipart/y;boundary=xyz\r\n\r\n--xyz\r\n\r\nI\r\n--xyz--"
    t.add("nest2", e, pre, b"--xy\r\n" + inner2, sym(2, al), b"\r\n--xy--\r\n")
    t.add("nest3", e, pre, b"--xy\r\nContent-Type:multipart/y;boundary=xy-\r\n\r\n--xy-", sym(2, al), b"\r\nI\r\n--xy---\r\n--xy--\r\n")
    t.add("any", e, pre, sym(7 if t.deep else 6, b"-\r\nx") , b"y--")
    t.add("bytes", e, pre, b"--xy\r\n\r\n", sym(3), b"\r\n--xy--")


PARTH = [(k, v) for k, v in KINDS if k.startswith(b"Content") or k in (b"X", b"From", b"Subject", b"MIME-Version", b"Received")]


def c22(t):
    e = "e22"
    pre = BP + MULTI_H + b"\r\n--xy\r\n"
    post = b"\r\n--xy--"
    H = b"Content-Type: image/png; name=a\r\nContent-ID:<a@b>\r\nContent-Description:d\r\nContent-Disposition:inline;filename=f\r\nX-a: b\r\n\r\nbody"
    t.over("h", e, pre, H, post, 2, step=1 if t.deep else 2)
    t.ins("h", e, pre, H, post, 1, step=1 if t.deep else 2)
    t.over("h2", e, pre + b"\r\nfirst\r\n--xy\r\n", b"X:y\r\nContent-type:text/html\r\n\r\nb", post, 2)
    t.cut("h", e, pre, H, 2, b"\r\n:a", step=1 if t.deep else 4)
    for k, v in PARTH:
        t.over("name" + k.decode(), e, pre, k, b":" + v + b"\r\n\r\nb" + post, 1)
        for i in range(0, len(k), 5):
            t.add("case%s%d" % (k.decode(), i), e, pre, k[:i], case_of(k[i:i + 5]), k[i + 5:], b":" + v + b"\r\n\r\nb", post)
        t.over("val" + k.decode(), e, pre + k + b":", v, b"\r\n\r\nb" + post, 1)
        t.add("end" + k.decode(), e, pre, k + b":" + v, sym(3, b"\r\na "), post)
        for j, w in PARTH:
            t.add("two%s%s" % (k.decode(), j.decode()), e, pre, one((k, v)), HDR[j], b"\r\nb", post)
        # siblings do not share headers
        t.add("sib" + k.decode(), e, pre, one((k, v)), b"\r\nb\r\n--xy\r\n", b"Y", sym(1), b"z\r\n\r\nc", post)
        t.add("enc" + k.decode(), e, BP, k + b":" + v + b"\r\n" if k not in (b"From", b"Content-Type", b"Received") else b"", MULTI_H, b"\r\n--xy\r\nX", sym(1), b"y\r\n\r\nb", post)
    t.add("nohdr", e, pre, sym(4, b"\r\na:"), b"b", post)
    t.add("nohdrf", e, pre, sym(3), b"b", post)
    t.add("blank", e, pre, b"\r\n", sym(3), post)
    t.add("sep", e, pre, b"X:y", sym(5 if t.deep else 4, b"\r\na:"), b"b", post)
    t.add("fold", e, pre, b"X:y", sym(4, b"\r\n z"), b"\r\n\r\nb", post)
    t.add("unk", e, pre, b"X-", sym(2), b":", sym(2), b"\r\n\r\nb", post)
    t.add("bad", e, pre, b"Content-Type:a", sym(1), b"b\r\nContent-ID:<a", sym(1), b"b>\r\n\r\nb", post)
    t.add("dup", e, pre, b"X:1\r\nX:2\r\nContent-Type:a/b\r\nContent-Type:c/", sym(1), b"\r\n\r\nb", post)
    t.add("3rd", e, pre, b"\r\na\r\n--xy\r\nContent-Type:a/b\r\n\r\nb\r\n--xy\r\n", sym(2), b"Y:z\r\n\r\nc", post)
    t.add("dflt", e, pre, b"Content-Disposition:inline", sym(1), b"\r\n\r\nb", post)
    for n in (2, 8, 30):
        t.add("many%d" % n, e, pre, Rep(n, b"X:y\r\n"), b"Z", sym(1), b"z\r\n\r\nb", post)
        t.add("parts%d" % n, e, pre, Rep(n, b"Content-ID:<a@b>\r\n\r\nb\r\n--xy\r\n"), b"Y:", sym(1), b"\r\n\r\nc", post)
    # the same for a transfer-encoded (copied) multipart body
    import base64
    for x in (b"Content-Type:a/b;c=d\r\nContent-ID:<i@j>\r\nX:y\r\n\r\nbo", b"\r\nbody", b"Content-Description:=?utf-8?Q?a?=\r\nContent-Disposition:attachment;filename=f;a=b\r\n\r\nb"):
        body = b"--xy\r\n" + x + b"\r\n--xy--"
        t.add("b64", e, BP, MULTI_H, b"Content-Transfer-Encoding:base64\r\n\r\n", base64.b64encode(body), sym(1))
        q = body.replace(b"=", b"=3D")
        t.over("qp", e, BP + MULTI_H + b"Content-Transfer-Encoding:quoted-printable\r\n\r\n", q, b"", 1)
    t.add("nest", e, pre, b"Content-Type:multipart/x;boundary=zz\r\n\r\n--zz\r\nContent-ID:<a@", sym(1), b">\r\n\r\nb\r\n--zz--", post)
    # each header with each kind of body start: nothing but the separating empty line goes
    TYV = [b"text/html", b"text/plain", b"text/plain;charset=utf-8", b"image/png", b"application/octet-stream", b"message/rfc822", b"audio/x", b"video/y", b"multipart/z;boundary=zz", b"x/y;name=a", b"Text/HTML"]
    HV = [b"Content-Type:" + v for v in TYV] + [b"Content-Transfer-Encoding:" + v for v in (b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable")] + [k + b":" + v for k, v in PARTH if k not in (b"Content-Type", b"Content-Transfer-Encoding")] + \
         [b"Content-Disposition:attachment;filename=a", b"Content-Disposition:form-data;name=a", b"Content-Description:", b"X:", b"Content-Description: a\r\n b"]
    for i, h in enumerate(HV):
        t.add("head%d" % i, e, pre, h, sym(5 if t.deep else 4, b"\r\na "), b"\r\nb", post)
        t.add("heads%d" % i, e, pre, h, b"\r\n\r\n", sym(2), b"b", post)
        t.add("tail%d" % i, e, pre, h, b"\r\n\r\nb", sym(3 if t.deep else 2), b"\r\n--xy--")
        for j, g in enumerate(HV[i % 3::1 if t.deep else 3]):
            t.add("with%d.%d" % (i, j), e, pre, h, b"\r\n", g, b"\r\n\r\n", sym(1), b"\r\nb", post)
    # siblings that agree in everything but one header
    ALLH = [(b"Content-Type", b"image/png;a=b"), (b"Content-ID", b"<a@b>"), (b"Content-Description", b"d"), (b"Content-Disposition", b"inline;filename=f"), (b"X", b"y"), (b"Content-Transfer-Encoding", b"8bit")]
    for i in range(len(ALLH)):
        full = b"".join(b"%s:%s\r\n" % h for h in ALLH)
        for parts in ([ALLH[:i] + ALLH[i + 1:]], [[ALLH[i]]], [[h for h in ALLH if h != ALLH[i] and h != ALLH[(i + 1) % 6]]]):
            for w in parts:
                less = b"".join(b"%s:%s\r\n" % h for h in w)
                for n, (x, y) in (("fl", (full, less)), ("lf", (less, full))):
                    t.add("agree%d%s" % (i, n), e, pre, x, b"\r\nb\r\n--xy\r\n", y, b"\r\n", sym(1), post)
                    t.add("agree3%d%s" % (i, n), e, pre, x, b"\r\nb\r\n--xy\r\n\r\nc\r\n--xy\r\n", y, b"X:", sym(1), b"\r\n\r\nb", post)


def c23(t):
    """Every build against the build with everything: default features, none, and MIME alone."""
    import itertools
    rich = [x for q in ("C03", "C05", "C06", "C07", "C08", "C09", "C10", "C15") for x in SPANS[q]()]
    rich += [(BP, b"Subject: a b\r\n c \r\nComments: x (\r\n y\r\nKeywords:a \"b\",c.d\r\n (e)\r\nX-1: \r\n \r\n", b"\r\nbody"), (BP + b"Keywords:", b" a (b) \"c\\\"d\",\r\n e f ,g ", E2)]
    mrich = [x for q in ("C17", "C18", "C19", "C20", "C21", "C22") for x in SPANS[q]()]
    for z, e in enumerate(entries("C23")):
        main = z == 0
        sweep(t, e, 2, 0, step=1 if t.deep else 2 if main else 4)
        sweep(t, e, 0, 1, step=1 if t.deep else 2 if main else 3)
        names_sweep(t, e, [k for k in KINDS if main or not k[0].startswith((b"Resent", b"In-"))], over=1 if t.deep or main else 2)
        for i, (a, b) in enumerate(itertools.product(KINDS, KINDS)):
            if not t.deep and i % 4 != z % 4:
                continue
            pre, post = pair_context(a[0], b[0])
            t.add("pair-%s-%s" % (a[0].decode(), b[0].decode()), e, pre, one(a), one(b), post, b"\r\nbody")
        for k, v in KINDS:
            pre, post = pair_context(k, k)
            t.add("v" + k.decode(), e, pre, k + b":", sym(1), v, sym(1), b"\r\n", post, b"\r\nb")
            t.add("c" + k.decode(), e, pre, case_of(k[:4]), k[4:], b":", v, b"\r\n", post, b"\r\nb")
        for i, (pre, v, post) in enumerate(rich + (mrich if e != "e23" else [])):
            t.over("rich%d" % i, e, pre, v, post, 1)
            t.ins("rich%d" % i, e, pre, v, post, 1, step=1 if t.deep else 2)
        t.add("body", e, BP, b"\r\n", sym(4))
        t.add("sep", e, BP, sym(4, b"\r\na:"), b"b")
        t.add("lead", e, sym(2), BP, b"\r\nb")
        t.add("none", e, sym(4, b"\r\n a:"))
        for k in (997, 998, 999):
            t.add("line%d" % k, e, BP, b"\r\n", Rep(k, b"a"), sym(2))


def c24(t):
    e = "e24"
    sweep(t, e, 1, 1)
    sweep(t, e, 2, 0, step=1 if t.deep else 3)
    for k, v in KINDS:
        pre, post = pair_context(k, k)
        t.add("w" + k.decode(), e, pre, k + b":", sym(1, b" \ta("), v, sym(1, b" \ta"), b"\r\n", post, b"\r\nb")
        t.add("c" + k.decode(), e, pre, k[:1], case_of(k[1:4]), k[4:], b":", v, b"\r\n", post, b"\r\nb")
    for pre, post in ((BP + b"To:", b" <a@b>\r\n\r\n"), (BP + b"Cc:", b"@b\r\n\r\n"), (BP + b"Keywords:", b"\r\n\r\n"), (BP + b"Content-Type:a/b;c=", b"\r\n\r\n")):
        t.add("q", e, pre, b"\"", sym(3, b"a\\ \r\n"), b"\"", post)
        t.add("q1", e, pre, b"\"ab", sym(1), b"cd\"", post)
    t.add("uns", e, BP, b"Subject:", sym(4, b"a \r\n"), b"\r\nX:", sym(2), b"\r\n\r\n")
    t.add("ct", e, BP, b"Content-Type:", sym(1, ALPHA), b"b/", sym(1, ALPHA), b"d;", sym(1, ALPHA), b"=f\r\n\r\n")
    t.add("disp", e, BP, b"Content-Disposition:", sym(1, ALPHA), b"b;", sym(1, ALPHA), b"=f;filename=", sym(2), b"\r\n\r\n")
    t.add("dots", e, BP, b"To:", sym(3, b"a.@"), b"@b.c\r\nMessage-ID:<a.", sym(2, b"b.@"), b"c.d>\r\n\r\n")
    t.add("lit", e, BP, b"To:a@[", sym(3, b"b \r\n"), b"]\r\nMessage-ID:<a@[", sym(1), b"]>\r\n\r\n")
    t.add("body", e, BP, b"\r\n", sym(3))
    t.add("enc", e, BP, b"Content-Transfer-Encoding:", sym(1, b"78"), b"bit\r\n\r\n", sym(2))
    if t.deep:
        sweep(t, e, 2, 2)


NEST = [("cmt", b"To:", b"(", b"a", b")", b"a@b"), ("cmtq", b"To:", b"(\\(", b"a", b")", b"a@b"), ("cmts", b"To:", b"( ", b"a", b" )", b"a@b"), ("cmtf", b"Cc:a@b", b"(\r\n ", b"a", b"\r\n )", b""),
        ("angle", b"To:", b"<", b"a@b", b">", b""), ("group", b"To:", b"g:", b"a@b", b";", b""), ("brack", b"To:a@", b"[", b"a", b"]", b""),
        ("quote", b"To:", b"\"", b"a", b"\"", b"<a@b>"), ("back", b"To:\"", b"\\\\", b"a", b"", b"\"@b"), ("open", b"To:", b"(", b"", b"", b"a@b"),
        ("dots", b"To:", b"a.", b"a", b"", b"@b"), ("words", b"To:", b"a ", b"b", b"", b"<a@b>"), ("list", b"To:", b"a@b,", b"c@d", b"", b""),
        ("fold", b"Subject:", b"\r\n a", b"b", b"", b""), ("enc", b"Subject:", b"=?utf-8?Q?a?= ", b"b", b"", b""), ("ids", b"References:", b"<a@b>", b"<c@d>", b"", b""),
        ("kw", b"Keywords:", b"a,", b"b", b"", b""), ("params", b"Content-Type:a/b", b";c=d", b"", b"", b""), ("pct", b"Content-Type:a/b;c*=utf-8''", b"%41", b"", b"", b""),
        ("dcmt", b"Date:1 Jan 2000 00:00 +0000 ", b"(", b"", b")", b""), ("midc", b"Message-ID:", b"(", b"", b")", b"<a@b>"), ("ctc", b"Content-Type:a/b", b"(", b"", b")", b";c=d"),
        ("dispc", b"Content-Disposition:a", b"(", b"", b")", b";c=d"), ("ctec", b"Content-Transfer-Encoding:", b"(", b"", b")", b"7bit"), ("kwc", b"Keywords:a", b"(", b"", b")", b",b"),
        ("dparams", b"Content-Disposition:a", b";c=d", b"", b"", b""), ("mimec", b"MIME-Version:", b"(", b"", b")", b"1.0")]


def c25(t):
    e = "e01"
    n = 4000 if t.deep else 1500
    D0 = 90
    for nm, h, o, m, c, tail in NEST:
        base = F if h.startswith(b"Date") else BP
        for k in (60, 120, n):
            t.add("%s%d" % (nm, k), e, base, h, Rep(k, o), m, Rep(k, c), tail, b"\r\n\r\nx", depth=D0, steps=60000000)
        t.add("%sv" % nm, e, base, h, Rep(100, o), V(), Rep(100, c), tail, b"\r\n\r\nx", depth=D0, steps=60000000)
        t.add("%sw" % nm, e, base, h, Rep(100, o), V(), Rep(1, c), V(b"()<>[]:;\"\\ a"), Rep(100, c), tail, b"\r\n\r\nx", depth=D0, steps=60000000)
    for nm, h, o, tl in (("recv", b"", b"Received:", b";1 Jan 2000 00:00 +0000\r\n"), ):
        for k in (60, n):
            t.add("recvc%d" % k, e, b"Received:", Rep(k, b"("), Rep(k, b")"), tl, BP, b"\r\n", depth=D0, steps=60000000)
            t.add("recvt%d" % k, e, b"Received:", Rep(k, b"a <b@c> "), tl, BP, b"\r\n", depth=D0, steps=60000000)
            t.add("rpathc%d" % k, e, b"Return-Path:", Rep(k, b"("), Rep(k, b")"), b"<>\r\n", HDR[b"Received"], BP, b"\r\n", depth=D0, steps=60000000)
            t.add("blocks%d" % k, e, Rep(k // 4, HDR[b"Received"]), BP, b"\r\n", depth=D0, steps=60000000)
            t.add("hdrs%d" % k, e, BP, Rep(k // 4, b"X:y\r\n"), b"\r\n", depth=D0, steps=60000000)
            t.add("resc%d" % k, e, HDR[b"Received"], b"Resent-To:", Rep(k, b"("), Rep(k, b")"), b"a@b\r\n", BP, b"\r\n", depth=D0, steps=60000000)
            t.add("body%d" % k, e, BP, b"\r\n", Rep(k, b"\r\n"), depth=D0, steps=60000000)
            t.add("parts%d" % k, e, BP, MULTI_H, b"\r\n", Rep(k // 8, b"--xy\r\n\r\n"), b"--xy--", depth=D0, steps=60000000)
            t.add("b64%d" % k, e, BP, b"Content-Transfer-Encoding:base64\r\n\r\n", Rep(k, b"QUJD"), depth=D0, steps=60000000)
            t.add("qp%d" % k, e, BP, b"Content-Transfer-Encoding:quoted-printable\r\n\r\n", Rep(k, b"=41"), depth=D0, steps=60000000)
            t.add("partc%d" % k, e, BP, MULTI_H, b"\r\n--xy\r\nContent-ID:", Rep(k, b"("), Rep(k, b")"), b"<a@b>\r\n\r\nz\r\n--xy--", depth=D0, steps=60000000)
    c25_all(t)


def c25_all(t):
    """Every repetition that C29 measures, with the call-depth limit."""
    def add(name, entry, *parts, steps=0, depth=0):
        base, k = name.rsplit("@", 1)
        if int(k) >= 120 and base not in seen:
            seen.add(base)
            t.add(base.replace("cost:", "all:"), "e01", *parts, depth=90, steps=60000000)

    seen = set()
    x = Templates("quick")
    x.add = add
    c29(x)


def c26(t):
    b, q = "e26b", "e26q"
    for n in range(0, 3 if not t.deep else 4):
        t.add("b%d" % n, b, sym(n))
    fill = (b"x", b"\x00", b"\xff", b"\xc3\x28", b"\r\n")
    # one symbolic byte at every position, with every remainder modulo three on both sides
    for n in range(2, 9 if not t.deep else 14):
        for k in range(n):
            for j, f in enumerate(fill):
                if t.deep or (n + k + j) % 2 == 0:
                    g = f * n
                    t.add("b%d@%d.%d" % (n, k, j), b, g[:k], sym(1), g[k + 1:n])
    edge = bs((0, 3, 15, 16, 63, 64, 0xFB, 0xFF))
    for n in (3, 4, 5):
        t.add("be%d" % n, b, sym(n if t.deep else 3, edge if t.deep else bs((0, 63, 0xFB, 0xFF))), b"x" * (0 if t.deep else n - 3))
    for n in (53, 54, 55, 56, 57, 58, 59, 60, 111, 112, 113, 114, 115, 116, 171, 172):
        t.add("bl%d" % n, b, Rep(n - 1, b"x"), sym(1))
        t.add("bm%d" % n, b, Rep(n - 4, b"x"), sym(1), b"\xff\x00y")
        t.add("bs%d" % n, b, sym(1), Rep(n - 1, b"\xff"))
        if t.deep:
            t.add("bL%d" % n, b, Rep(n - 2, b"x"), sym(2))
    for n in range(0, 4 if not t.deep else 5):
        t.add("q%d" % n, q, sym(n))
    for n in (4, 5, 6) if not t.deep else (4, 5, 6, 7, 8):
        t.add("qn%d" % n, q, sym(n, b"\r\n =" if n > 5 else b"\r\n =\ta"))
    for n in range(66, 84) if not t.deep else list(range(60, 100)) + list(range(140, 160)):
        t.add("ql%d" % n, q, Rep(n, b"x"), sym(2))
        t.add("qw%d" % n, q, Rep(n, b"x"), sym(3, b"\r\n =a"))
        t.add("qe%d" % n, q, Rep(n - 24 if n >= 30 else n, b"x"), Rep(8, b"\xe9"), sym(2, b"\r\n =a\t"))
        t.add("qm%d" % n, q, Rep(n, b"x"), sym(2, b"\r\n a\xff"), Rep(4, b"z"))
        t.add("qs%d" % n, q, Rep(n, b" "), sym(2, b"\r\n a\xff"))
    for k in range(20, 30):
        t.add("qq%d" % k, q, Rep(k, b"\xff"), sym(2))
    t.add("qlines", q, b"a\r\n", sym(3, b"\r\n \t=a"), b"\r\nb", sym(1))
    t.add("qend", q, b"abc", sym(3, b" \t\r\na"))


def c27(t):
    e = "e27"
    ctx = [(b"", b""), (b"\r\n", b"\r\n"), (b"From:z@z\r\n", b" x\r\n"), (b"\"(<", b")>\"\r\n\r\n"), (b"=?utf-8?Q?", b"?=")]
    for i, (n, m) in enumerate(ALLMSGS):
        lo = len(BP) if m.startswith(BP) else 0
        step = 2 if t.deep else 7
        for k in range(lo, len(m), step):
            p, q = ctx[(i + k) % len(ctx)]
            t.add("%s@%d" % (n, k), e, bytes([len(p), len(q)]) + p, m[:k], sym(1), m[k + 1:], q)
        # symbolic surroundings: the result must not depend on them
        t.add("sur%s" % n, e, bytes([2, 2]), sym(2), m, sym(2))
        for k in range(lo, len(m), 3 if t.deep else 9):
            t.add("cut%s@%d" % (n, k), e, bytes([1, 3]), sym(1), m[:k], sym(3))
    # where the buffer lies: every alignment, for messages with many of each construct
    lists = [("phrase", BP + b"To:aa bb ccc d eeee f gg hh i <a@b>" + E2), ("kw", BP + b"Keywords:a b,c d e f g,h,ii jj kk ll,m" + E2), ("ids", BP + b"References:<a@b><c@d> <ee@ff><g.h@i><j@[k]>" + E2),
             ("addrs", BP + b"Cc:a@b,cc@dd, e <f@g>,hhh:i@j,k@l;,\"m n\"@o.p.q" + E2), ("text", BP + b"Subject:a bb ccc dddd\r\n eeeee ffffff (g) \"h\" i" + E2), ("word", BP + b"Subject:=?utf-8?Q?abcdefgh=41ij?= =?utf-8?B?QUJDREVG?= k" + E2),
             ("par", BP + CT_ + b"text/plain;a=b;cc=dd;charset=utf-8;eee=\"f g\";h*0=i;h*1=jj;k*=utf-8''%41%42c" + E2 + b"abcdefghijklmnopqrst\xc3\xa9"), ("rcv", TRACE + BP + b"X:yyyyy\r\nXx:zzzz\r\nXxx:w" + E2),
             ("b64", BP + CT_ + b"text/plain;charset=utf-8\r\nContent-Transfer-Encoding:base64" + E2 + b"QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVo="), ("qp", BP + CT_ + b"text/plain;charset=iso-8859-1\r\nContent-Transfer-Encoding:quoted-printable" + E2 + b"abc=41=E9=\r\ndef ghi=20\r\n"),
             ("multi", BP + MULTI_H + b"\r\n" + MULTI_B), ("com", BP + b"To:(a (b) \\c d)e(f)@(g)h.i.j(k l m n)" + E2)]
    for n, m in lists + ALLMSGS:
        own = (n, m) in lists
        for k in range(1, 16):
            # one free byte: of the message, or of what stands before it
            p = len(BP) + 3 + (7 * k) % max(1, len(m) - len(BP) - 3)
            if m.startswith(BP) and p < len(m):
                t.add("align%s+%d" % (n, k), e, bytes([k, 0]), b"." * k, m[:p], sym(1), m[p + 1:])
            else:
                t.add("align%s+%d" % (n, k), e, bytes([k, 0]), b"." * (k - 1), sym(1), m)
            if own and t.deep:
                for p in range(len(BP) if m.startswith(BP) else 0, len(m), 3):
                    t.add("align%s+%d@%d" % (n, k, p), e, bytes([k, 0]), b"." * k, m[:p], sym(1), m[p + 1:])
    # what stands before the first header belongs to the message too
    for m in (BP + b"To:a@b\r\n\r\nbody", HDR[b"Received"] + BP + b"\r\n", F + D + b"\r\n"):
        t.add("lead", e, b"\0\0", sym(2), m)
        t.add("lead3", e, b"\0\1", sym(3, b"\r\n \xef\xbb\xbf\0"), m + b"x")
        t.add("trail", e, b"\0\0", m, sym(3))
    for h in (b"X:a", b"Subject:a", b"To:a@b", b"Content-Type:a/b", b"To:\"a", b"To:(a", b"Date:1", b"Message-ID:<a@b>", b"", b"To:a@[b", b"Content-Transfer-Encoding:base64\r\n\r\nQQ", b"\r\nabc", b"\r\nabc\r", b"Subject:=?utf-8?Q?a"):
        t.add("end", e, bytes([1, 4]), sym(1), BP + h, sym(4))
        t.add("endm", e, bytes([1, 2]), sym(1), BP + h, sym(2, b"\r\n ")[:2], sym(2))
    # the order in which hash maps iterate: names of different lengths, continuations in every order
    H = BP + CT_ + b"a/b"
    for ps in ([b"a=1", b"bb=2", b"ccc=3"], [b"a=1", b"a=2"], [b"n*0=x", b"n*1=y"], [b"n*1=y", b"n*0=x"], [b"n*2=z", b"n*0=x", b"n*1=y"], [b"n*0*=utf-8''%41", b"n*1=y", b"n*2*=%42"],
               [b"n*0=x", b"n*1=y", b"m*=utf-8''z"], [b"n*0=x", b"m*0=y", b"m*1=z", b"nn*1=b", b"nn*0=a"], [b"n=a", b"n*0=x"], [b"n*0=x", b"n=a"], [b"n*=utf-8''x", b"n=a"], [b"n=a", b"n*=utf-8''x"], [b"n*=utf-8''x", b"n*0=a"],
               [b"n*0=x", b"n*=utf-8''y"], [b"n*0=x", b"n*0*=utf-8''y"], [b"n*0*=utf-8''y", b"n*0=x"], [b"charset=utf-8", b"a=b"], [b"a=b", b"charset*=utf-8''iso-8859-1"], [b"charset*0=ut", b"a=x", b"charset*1=f-8"],
               [b"n*%d=%c" % (i, 97 + i) for i in range(12)], [b"n*%d=%c" % (i, 97 + i) for i in range(9, -1, -1)], [b"p" * i + b"=v%d" % i for i in range(1, 9)]):
        v = b";" + b";".join(ps)
        names = [(m.start(), m.end()) for m in re.finditer(rb"[a-z]+(\*\d*\*?)?=", v)]
        free = [k for k in range(len(v)) if not any(a <= k < b for a, b in names)]
        for h in (CT_ + b"a/b", b"Content-Disposition:x", CT_ + b"text/plain"):
            t.add("order", "e27h", BP + h, v, E2 + b"x")
            for k in free if t.deep else free[::3]:
                t.add("order@%d" % k, "e27h", BP + h, v[:k], sym(1), v[k + 1:], E2 + b"x")
    for n, m in ALLMSGS:
        t.add("order" + n, "e27h", m)
    # earlier parses: one message after another, alike and different
    L2 = lambda n: bytes([n >> 8, n & 255])
    # a history that exercises everything: every charset in both encodings and as body, every header, every kind of failure
    words = b"".join(b"\r\n =?" + c + b"?" + x + b"?=" for c in CHARSETS + [b"iso-2022-jp", b"windows-1252", b"nope"] for x in (b"B?QUJD", b"Q?=C3=A9_", b"q?a"))
    rich = [BP + b"Subject:" + words + E2, BP + b"To:" + words[:800] + b" <a@b>" + E2]
    rich += [TRACE + TRACE + BP + b"".join(HDR[h] for h in (b"Sender", b"To", b"Cc", b"Bcc", b"Reply-To", b"Subject", b"Comments", b"Keywords", b"Message-ID", b"References", b"In-Reply-To")) + b"X:y\r\nX:y\r\n:"]
    rich += [BP + CT_ + b"text/plain;charset=" + c + b"\r\nContent-Transfer-Encoding:" + x + E2 + b"QUJD=C3=A9" for c, x in zip(CHARSETS * 2, [b"base64", b"quoted-printable", b"8bit"] * 20)]
    rich += [BP + MULTI_H + b"\r\n" + MULTI_B * 6, BP + CT_ + b"multipart/mixed" + E2, BP + CT_ + CTC + b"\r\n" + E2, b"", b"\r\n", BP + BP, F, D + b"To:" + b"(" * 60, BP + b"Content-Transfer-Encoding:x" + E2]
    light = [BP + b"Subject:" + ENCW + E2, BP + b"Subject:=?utf-8?B?QUJD?=" + E2, BP + MULTI_H + b"\r\n" + MULTI_B, BP + CT_ + CTC + b"\r\n\r\nabc", TRACE + BP + b"\r\n"]
    for i, a in enumerate(rich):
        for j, b in enumerate(light):
            t.add("rich%d.%d" % (i, j), "e27s", L2(len(a)), a, b)
            if t.deep:
                for k in range(len(BP), len(b), 5):
                    t.add("rich%d.%d@%d" % (i, j, k), "e27s", L2(len(a)), a, b[:k], sym(1), b[k + 1:])
    ms = [m for _, m in ALLMSGS]
    sub = list(range(0, len(ms), 1 if t.deep else 2))
    for i in range(len(ms)):
        lo = len(BP) if ms[i].startswith(BP) else 0
        for k in range(lo, len(ms[i]), 3 if t.deep else 11):
            cut = ms[i][:k], ms[i][k + 1:]
            # the same message but for one byte, before and after
            t.add("again%d@%d" % (i, k), "e27s", L2(len(ms[i])), cut[0], sym(1), cut[1], ms[i])
            t.add("twice%d@%d" % (i, k), "e27s", L2(len(ms[i])), ms[i], cut[0], sym(1), cut[1])
            t.add("short%d@%d" % (i, k), "e27s", L2(k), ms[i][:k], ms[i])
        for j in sub:
            if i != j:
                t.add("after%d.%d" % (j, i), "e27s", L2(len(ms[j])), ms[j], ms[i][:-1], sym(1))
    for w, x in ((b"utf-8", b"\xc3\xa9"), (b"iso-8859-1", b"\xe9"), (b"us-ascii", b"a"), (b"iso-8859-15", b"\xa4"), (b"nope", b"a")):
        for w2, x2 in ((b"utf-8", b"\xc3\xa9"), (b"iso-8859-1", b"\xe9"), (b"iso-8859-5", b"\xe9")):
            a = BP + CT_ + b"text/plain;charset=" + w + E2 + x
            t.add("charset", "e27s", L2(len(a)), a, BP + CT_ + b"text/plain;charset=" + w2 + E2, sym(1, LEADS), x2[1:])
            a = BP + b"Subject:=?" + w + b"?Q?" + x.hex("=").upper().join(("=", "")).encode() + b"?=" + E2
            t.add("encword", "e27s", L2(len(a)), a, BP + b"Subject:=?" + w2 + b"?Q?", sym(2), b"?=" + E2)

    # longer histories: many messages, each compared with its result in a fresh process
    size = lambda m: sum(size(x) for x in m) if isinstance(m, (list, tuple)) else len(m) if isinstance(m, bytes) else m.n * len(m.b) if isinstance(m, Rep) else 1

    def batch(name, early, late, steps=400000000):
        t.add(name, "e27b", bytes([len(early), len(late)]), b"".join(L2(size(m)) for m in early + late), early, late, steps=steps, depth=4000)

    def free(m, k):
        return [m[:k], sym(1), m[k + 1:]]
    bad = [BP + (b"%s\r\n" % u) * n + b"\r\n" for u, n in ((b"To:(a", 130), (b"Sender:a@b (c", 130), (b"To:\"a", 130), (b"Subject:=?utf-8?Q?a", 130), (b"Date:1", 130), (b"Content-Type:a", 130), (b"Content-Type:a/b;c", 130), (b"Content-Type:a/b;c*=x''%c3", 130), (b"Message-ID:<a", 130), (b"To:g:a@b", 130),
                                                             (b"X:y", 300), (b"Keywords:,", 130), (b"Content-Disposition:x;y", 130), (b"MIME-Version:1", 130), (b"References:<a@[", 130), (b"Comments:=?utf-8?B?QUJD?= b", 130), (b"Comments:=?iso-8859-15?Q?=A4?=", 130), (b"Subject:=?utf-8?Q?=ff?=", 130))]
    bad += [BP + b"To:" + b"(a)" * 130 + b"a@b," * 130 + b"a@b" + E2, BP + b"To:" + b"(" * 130 + b"a" + E2, BP + MULTI_H + b"\r\n" + b"--xy\r\n\r\nA\r\n" * 130 + b"--xy--", BP + MULTI_H + b"\r\n" + b"--xy\r\nX\r\n\r\nA\r\n" * 130 + b"--xy--", BP + CT_ + b"a/b" + b"".join(b";p%d*=utf-8''%%41" % i for i in range(130)) + E2]
    bad += [BP + MULTI_H + b"\r\n" + b"--xy\r\nContent-Type:text/plain;charset=iso-8859-15\r\nContent-Transfer-Encoding:%s\r\n\r\nQUJD\r\n" % x * 100 + b"--xy--" for x in (b"base64", b"quoted-printable", b"x")]
    words1 = [BP + b"Subject:=?" + c + b"?" + x + b"?=" + E2 for c in CHARSETS for x in (b"B?w6k=", b"Q?=C3=A9")]
    words2 = [BP + CT_ + b"a/b;c*=" + c + b"''%C3%A9" + E2 for c in CHARSETS] + [BP + CT_ + b"text/plain;charset=" + c + E2 + b"\xc3\xa9" for c in CHARSETS]
    every = [m for _, m in ALLMSGS]
    chunk = 6
    for i in range(0, len(every), chunk):
        late = every[i:i + chunk]
        for j, early in enumerate((rich[:12], rich[12:24], rich[24:], bad[:9], bad[9:18], bad[18:])):
            batch("hist%d.%d" % (j, i), early, late)
            k = (i // chunk + j) % len(late)
            lo = len(BP) if late[k].startswith(BP) else 0
            for p in range(lo + j, len(late[k]), 6 if t.deep else 60):
                batch("hist%d.%d@%d" % (j, i, p), early, late[:k] + [free(late[k], p)] + late[k + 1:])
    for n, ms2 in (("w", words1), ("p", words2)):
        for i in range(0, len(ms2), 38):
            part = ms2[i:i + 38]
            batch("mix." + n, [], part)
            batch("mixr." + n, [], part[::-1])
            batch("mixs." + n, part, part)
        # the same text in two character sets, whatever it is
        for i in range(len(ms2) if t.deep else 6):
            for m in (0, 7, 19):
                a, b = ms2[i], ms2[(i + 2 * m + (2 if n == "w" else 1)) % len(ms2)]
                for k in (-6, -5) if n == "w" else (-2, -1) if E2 + b"\xc3" in a else (-5, -6):
                    if a[k - 2:] == b[k - 2:]:
                        v = V(b"ABZaz019+/=_%?\xc3\xa9\xff~ ")
                        batch("same." + n, [], [[a[:k], v, a[k + 1:] if k < -1 else b""], [b[:k], v, b[k + 1:] if k < -1 else b""]])
    # two messages that differ at one place, in any two values
    shout = [BP + CT_ + b"XXXXXXXX-YYYY/ZZZZZZZZZZ;NNNNNNNNNN=VVVVVVVVVV" + E2, BP + b"Content-Disposition:XXXXXXXX-YY;NNNNNNNNNNNN=VVV" + E2, BP + b"Content-Transfer-Encoding:X-UUENCODE" + E2, BP + b"Subject:=?ISO-8859-15*EN?Q?=A4?=" + E2, BP + CT_ + b"a/b;c*=ISO-8859-15'EN'%A4" + E2,
             BP + b"Message-ID:<LEFT@[RIGHT]>" + E2, BP + b"XXXXXXXX-YYYY:Z" + E2, BP + b"To:\"A B\" <C@D.E>" + E2, BP + b"Keywords:A,B" + E2, F + b"Date:MON, 1 JAN 2000 00:00 +0000" + E2, HDR[b"Received"] + BP + b"\r\n", BP + CT_ + b"TEXT/X;CHARSET=ISO-8859-1" + E2 + b"\xe9",
             BP + MULTI_H + b"\r\n--xy\r\n\r\nA\r\n--xy--\r\n--xy\r\n\r\nB\r\n--xy--", BP + MULTI_H + b"\r\n--xy\r\n\r\nA\r\n--xy\r\n\r\nB\r\n--xy--\r\n--xy--\r\n", BP + b"Content-Transfer-Encoding:quoted-printable" + E2 + b"=41=\r\n=E9 \r\n", BP + b"Content-Transfer-Encoding:base64" + E2 + b"QUJDREU="]
    some = frozenset(b"\0AaZz09^~-_*/;:= \r\n\"(%?\xc3\xff")
    for i, m in enumerate(shout):
        for k in range(len(BP) if m.startswith(BP) else 0, len(m), 1 if t.deep or b"--\r\n--xy" in m and k > len(BP) + 50 else 3):
            batch("two%d@%d" % (i, k), [[m[:k], V() if t.deep else V(some), m[k + 1:]]], [free(m, k)])
    # two messages with the same letters in another order: what was computed for one is not used for the other
    two = lambda: [V(b"ab"), V(b"ab")]
    for c in CHARSETS:
        for pre, post in ((BP + b"Subject:=?" + c + b"?Q?", b"?=" + E2), (BP + b"Subject:=?" + c + b"?Q?=e9", b"?=" + E2), (BP + b"To:=?" + c + b"?B?Y", b"J?= <a@b>" + E2), (BP + CT_ + b"a/b;c*=" + c + b"''", E2), (BP + CT_ + b"text/plain;charset=" + c + E2, b"c"), (BP + CT_ + b"text/plain;charset=" + c + E2 + b"\xa1", b"")):
            batch("twin." + c.decode(), [[pre, two(), post]], [[pre, two(), post]])
    for i, m in enumerate(shout + every):
        for k in range(len(BP) if m.startswith(BP) else 0, len(m) - 1, 1 if t.deep else 2):
            batch("twin%d@%d" % (i, k), [[m[:k], two(), m[k + 2:]]], [[m[:k], two(), m[k + 2:]]])
            if t.deep:
                batch("twin1.%d@%d" % (i, k), [[m[:k], V(b"1A;"), V(b"1a="), m[k + 2:]]], [[m[:k], V(b"1A;"), V(b"1a="), m[k + 2:]]])
    for i, m in enumerate(every):
        for k in range(len(BP) if m.startswith(BP) else 0, len(m), 3 if t.deep else 16):
            batch("two.%d@%d" % (i, k), [[m[:k], V() if t.deep else V(some), m[k + 1:]]], [free(m, k)])


# ---------------------------------------------------------------- counts and lengths, spans removed, generated messages
CT_ = b"Content-Type:"
def c28(t):
    e = "e28"
    E2 = b"\r\n\r\n"
    for n, pre, v, post in (("ct", BP + CT_, CTV, E2 + b"abc"), ("ctc", BP + CT_, CTC, E2), ("disp", BP + b"Content-Disposition:", DISP, E2), ("cte", BP + b"Content-Transfer-Encoding:", b" Base64 (c)", E2 + b"QUJD"),
                            ("dd", BP + b"Content-Disposition:", b"x;modification-date=\"1 Jan 2000 00:00 +0000\";FileName=a;read-date=\"2 Jan 2000 00:00 +0000\"", E2), ("cid", BP + b"Content-ID:", b"<a.b@[c]>", E2), ("desc", BP + b"Content-Description:", ENCW, E2)):
        t.over(n, e, pre, v, post, 1)
        t.ins(n, e, pre, v, post, 1)
        t.over(n, e, pre, v, post, 2, step=1 if t.deep else 2)
        if t.deep:
            t.ins(n, e, pre, v, post, 2)
            t.over(n, e, pre, v, post, 3, b";=\"( a*\r\n/", step=2)
    for ty in (b"text", b"image", b"audio", b"video", b"application", b"message", b"multipart", b"x-none"):
        t.add("ty" + ty.decode(), e, BP, CT_, case_of(ty[:6]), ty[6:], b"/b;c=d", E2, b"x")
        t.add("tx" + ty.decode(), e, BP, CT_, ty, sym(2), b"/b;c=d", E2, b"x")
        t.add("tp" + ty.decode(), e, BP, CT_, ty[:-1], sym(2), b";c=d", E2, b"x")
        t.add("tm" + ty.decode(), e, BP, MULTI_H, b"\r\n--xy\r\n", CT_, ty, sym(1), b"/b;c=d", E2, b"x\r\n--xy--")
    for ty in (b"inline", b"attachment", b"other"):
        for par in (b"", b";filename=", b";filename=\"", b";size=", b";a=", b";creation-date=\"1 Jan 2000 00:00 +0000\";x="):
            t.add("d%s%s" % (ty.decode(), par[1:5].decode()), e, BP, b"Content-Disposition:", ty, par, sym(2), E2)
            t.add("p%s%s" % (ty.decode(), par[1:5].decode()), e, BP, MULTI_H, b"\r\n--xy\r\nContent-Disposition:", ty, par, sym(1 if not t.deep else 2), E2, b"x\r\n--xy--")
    for par in (b"a*300=b", b"a*=b", b"**=b", b"a*1=b", b"a*0=b", b"*=b", b"a.b=c", b"-a-=c", b"A_B%=c", b"x-y!#$=&", b"a=\"\"", b"a=\"*\"", b"a*0*=utf-8''b;a*1=c", b"size=12", b"size=012", b"Name=X", b"a=b;a=c", b"filename*=utf-8''%41", b"filename*0=a;filename*1=b", b"FILENAME=x", b"filename=.x", b"filename=\"a/b\\\\c\""):
        for h in (b"Content-Disposition:x;", b"Content-Disposition:inline ;", CT_ + b"x/y;", CT_ + b"text/y; "):
            t.add("par", e, BP + h + par + b";z=", sym(1), E2 + b"x")
            t.over("par", e, BP + h, par, E2 + b"x", 1, step=1 if t.deep else 3)
    for x in (b"x-uuencode", b"X-UUENCODE", b"uuencode", b"x-uue", b"x-yenc", b"yenc", b"x-gzip64", b"mac-binhex40", b"X-Foo", b"ietf-token", b"UTF-8", b"none", b"7-bit", b"8-bit", b"base-64", b"quoted_printable"):
        t.add("u" + x.decode(), e, BP, b"Content-Transfer-Encoding:", x, sym(1), E2, b"QUJD")
        t.over("u" + x.decode(), e, BP + b"Content-Transfer-Encoding:", x, E2 + b"QUJD", 1, step=1 if t.deep else 3)
    for x in (b"x-foo/bar", b"X-Foo/Bar", b"x-/a", b"x/y", b"font/woff", b"model/a.b", b"chemical/x-y", b"example/a", b"TEXT/PLAIN", b"Message/rfc822", b"message/partial", b"multiparty/x", b"messages/y", b"text-x/z", b"multipart/x-mixed-replace", b"image/svg+xml", b"application/vnd.a.b+c;v=1"):
        t.add("m" + x.decode(), e, BP + CT_, x, sym(1), E2 + b"QUJD")
        t.over("m" + x.decode(), e, BP + CT_, x, E2 + b"QUJD", 1, step=1 if t.deep else 3)
        t.add("n" + x.decode(), e, BP + MULTI_H + b"\r\n--xy\r\n" + CT_, x, sym(1), E2 + b"x\r\n--xy--")
    for x in (b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable", b"x-uue"):
        t.add("e" + x.decode(), e, BP, b"Content-Transfer-Encoding:", case_of(x[:6]), x[6:], E2, b"QUJD")
        t.add("f" + x.decode(), e, BP, b"Content-Transfer-Encoding:", x[:-1], sym(2), E2, b"QUJD")
    for n, m in ALLMSGS:
        lo = len(BP) if m.startswith(BP) else 0
        t.over("all" + n, e, m[:lo], m[lo:], b"", 1, step=1 if t.deep else 2)
    cs = b"Content-Type:text/plain;charset="
    for c in (b"utf-8", b"us-ascii", b"iso-8859-1", b"iso-8859-5"):
        t.add("txt" + c.decode(), e, BP, cs, c, E2, sym(2), b"z")
    t.add("multi", e, BP, MULTI_H, E_, MULTI_B[:-12], sym(2), MULTI_B[-12:])
    for n in (BP + b"To:A (b) <c@d>,g:e@f,h@i;\r\nCc:\"q\\\"\"@r\r\nSubject:", D + b"Sender:s@t\r\nFrom:a@b,c@d\r\nKeywords:a,b\r\nComments:x\r\nX:", BP + b"Message-ID:<a@b>\r\nIn-Reply-To:<c@d>\r\nReferences:<e@f><g@[h]>\r\nReply-To:"):
        t.add("head%d" % len(n), e, n, sym(2), b"@b", E2)


def c29(t):
    """Cost: every template comes at two sizes; check.py compares the largest number of instructions over all paths."""
    e = "e29"
    E2 = b"\r\n\r\n"

    def pair(name, f, k, steps=2000000000 if t.deep else 200000000):
        for x in (k, 2 * k):
            t.add("cost:%s@%d" % (name, x), e, *f(x), steps=steps, depth=4000)

    # one repeated construct, long
    for nm, h, o, m, c, tail in NEST:
        base = F if h.startswith(b"Date") else BP
        pair("nest." + nm, lambda k: [base, h, Rep(k, o), m, Rep(k, c), tail, E2, b"x"], 1000 if not t.deep else 4000)
        pair("open." + nm, lambda k: [base, h, Rep(k, o), m, tail, E2, b"x"], 1000 if not t.deep else 4000)
    seen = set()
    for q in sorted(RUNS):
        for i, (pre, unit, post) in enumerate(RUNS[q]):
            if (pre, unit, post) in seen or q in ("C13", "C14", "C26"):
                continue
            seen.add((pre, unit, post))
            k = max(150, (8000 if t.deep else 2000) // len(unit)) if len(unit) > 1 else 8000 if t.deep else 2000
            pair("run.%s.%d" % (q, i), lambda k: [pre, Rep(k, unit), post], k)
    # one repeated byte (or pair), of every value, in every place
    slots = [("name", BP, b":y" + E2), ("unk", BP + b"X:", E2), ("subj", BP + b"Subject:", E2), ("subjw", BP + b"Subject:=?utf-8?Q?", b"?=" + E2), ("subjb", BP + b"Subject:=?utf-8?B?", b"?=" + E2), ("subje", BP + b"Subject:=?", b"?Q?a?=" + E2),
             ("from", D + b"From:", b"a@b" + E2), ("to", BP + b"To:", b"a@b" + E2), ("to2", BP + b"To:a@", b"b" + E2), ("toq", BP + b"To:\"", b"\"@b" + E2), ("toc", BP + b"To:(", b")a@b" + E2), ("tol", BP + b"To:a@[", b"]" + E2),
             ("tog", BP + b"To:g:", b";" + E2), ("toa", BP + b"To:a <", b"@b>" + E2), ("bcc", BP + b"Bcc:", E2), ("sender", BP + b"Sender:", b"a@b" + E2), ("mid", BP + b"Message-ID:<", b"@b>" + E2), ("mid2", BP + b"Message-ID:<a@", b">" + E2),
             ("refs", BP + b"References:<a@b>", b"<c@d>" + E2), ("kw", BP + b"Keywords:a,", b"b" + E2), ("date", F + b"Date:", b"1 Jan 2000 00:00 +0000" + E2), ("date2", F + b"Date:1 Jan ", b"2000 00:00 +0000" + E2), ("date3", F + b"Date:1 Jan 2000 00:00 +0000", E2),
             ("mime", BP + b"MIME-Version:", b"1.0" + E2), ("mime2", BP + b"MIME-Version:1.0", E2), ("cte", BP + b"Content-Transfer-Encoding:", b"7bit" + E2), ("ct", BP + CT_, b"a/b" + E2), ("ct2", BP + CT_ + b"a/b;", b"c=d" + E2), ("ct3", BP + CT_ + b"a/b;c=", E2),
             ("ct4", BP + CT_ + b"a/b;c=\"", b"\"" + E2), ("ct5", BP + CT_ + b"a/b;c*=utf-8''", E2), ("ct6", BP + CT_ + b"a/b;c*0*=utf-8''", b";c*1=x" + E2), ("disp", BP + b"Content-Disposition:", b"x" + E2), ("disp2", BP + b"Content-Disposition:x;filename=", E2),
             ("recv", b"Received:", b";1 Jan 2000 00:00 +0000\r\n" + BP + E_), ("recv2", b"Received:a;", b"1 Jan 2000 00:00 +0000\r\n" + BP + E_), ("rp", b"Return-Path:", b"<>\r\n" + HDR[b"Received"] + BP + E_), ("res", HDR[b"Received"] + b"Resent-To:", b"a@b\r\n" + BP + E_),
             ("b64", BP + b"Content-Transfer-Encoding:base64" + E2, b""), ("qp", BP + b"Content-Transfer-Encoding:quoted-printable" + E2, b""), ("txt", BP + CT_ + b"text/plain;charset=utf-8" + E2, b""), ("txt1", BP + CT_ + b"text/plain;charset=iso-8859-1" + E2, b""),
             ("body", BP + E_, b""), ("pre", BP + MULTI_H + E_, MULTI_B), ("part", BP + MULTI_H + b"\r\n--xy\r\n\r\n", b"\r\n--xy--"), ("parth", BP + MULTI_H + b"\r\n--xy\r\nX:", b"\r\n\r\nb\r\n--xy--"), ("epi", BP + MULTI_H + b"\r\n--xy\r\n\r\nA\r\n--xy--", b""), ("nl", BP + MULTI_H + b"\r\n--xy\r\n\r\n", b"")]
    for nm, pre, post in slots:
        a = V()
        pair("byte." + nm, lambda k: [pre, Rep(1, b"")] + [a] * k + [post], 300 if not t.deep else 1500)
        b, c = V(), V(b" (\"\\<:;=?-\r")
        pair("two." + nm, lambda k: [pre] + [b, c] * k + [post], 60 if not t.deep else 400)
        if t.deep:
            x, y, z = V(b" \r\n\t(a"), V(b" \r\n\t)a"), V(b" \r\n\t:=a")
            pair("three." + nm, lambda k: [pre] + [x, y, z] * k + [post], 200)
    # many headers of one kind, many parts, many parameters
    for n, v in KINDS:
        h = n + b":" + v + b"\r\n"
        if not n.startswith((b"Received", b"Return", b"Resent")):
            pair("hdr." + n.decode(), lambda k: [BP, Rep(k, n + b":" + v[:-1] + b"\x01\r\n"), E_], 600 if not t.deep else 4000)
            pair("bad." + n.decode(), lambda k: [BP, Rep(k, n + b":" + b"," + v + b"\r\n"), E_, V()], 600 if not t.deep else 4000)
        else:
            pair("late." + n.decode(), lambda k: [BP, Rep(k, h), E_, V()], 600 if not t.deep else 4000)
            pair("lead." + n.decode(), lambda k: [HDR[b"Received"], Rep(k, h), BP, E_, V()], 600 if not t.deep else 4000)
    for nm, unit in (("p0", b"--xy\r\n\r\n\r\n"), ("p1", b"--xy\r\nX:y\r\n\r\nb\r\n"), ("p2", b"--xy\r\nContent-Type:a/b;c=d\r\n\r\nb\r\n"), ("p3", b"--x\r\n"), ("p4", b"-"), ("p5", b"--xyz\r\n"), ("p6", b" --xy\r\n"), ("p7", b"\r\n"), ("p8", b"--xy \r\n"), ("p9", b"--xy\r\n"), ("pa", b"--xy\r\nX:y"), ("pb", b"--xy--"), ("pc", b"\r\n--xy--x"), ("pd", b"--xy\r\n\r\n"), ("pe", b"\r"), ("pf", b"\r\n-"), ("pg", b"\r\n--xy-\r\n")):
        pair("parts." + nm, lambda k: [BP, MULTI_H, E_, Rep(k, unit), b"--xy", V(), b"-"], 1500 if not t.deep else 6000)
        pair("partsq." + nm, lambda k: [BP, MULTI_H, E_, b"--xy\r\n\r\n", Rep(k, unit), V(), b"\r\n--xy--"], 1500 if not t.deep else 6000)

    for n, unit in (("u0", b";c*0*=utf-8''x"), ("u1", b";c*=utf-8''x"), ("u2", b";c*0*=x;c*1=y"), ("u3", b";c=\"d\""), ("u4", b";c*1=d"), ("u5", b";c*300=d"), ("u6", b";filename=a"), ("u7", b";creation-date=\"1 Jan 2000 00:00 +0000\""), ("u8", b" (c)"), ("u9", b"; c = d"), ("ua", b";c*0*=%41"), ("ub", b";boundary=xy"), ("uc", b";"), ("ud", b";c")):
        for h in (CT_ + b"a/b", CT_ + b"text/plain;charset=utf-8", b"Content-Disposition:x", CT_ + b"multipart/x;boundary=xy"):
            pair("par.%s.%d" % (n, len(h)), lambda k: [BP, h, Rep(k, unit), V(b";\r\"a= "), E2, b"x"], 300 if not t.deep else 1500)
            pair("partp.%s.%d" % (n, len(h)), lambda k: [BP, MULTI_H, b"\r\n--xy\r\n", h, Rep(k, unit), E2, b"x\r\n--xy--"], 150 if not t.deep else 1000)
    for n, unit in (("n0", b"X:y\r\n"), ("n1", b"X:\r\n y\r\n"), ("n2", b"Content-ID:<a@b>\r\n"), ("n3", b"Content-Type:a/b\r\n"), ("n4", b"Content-Type:a\r\n"), ("n5", b"Content-Description:=?utf-8?Q?a?=\r\n"), ("n6", b"Content-Disposition:a;b=c\r\n"), ("n7", b"Content-Transfer-Encoding:7bit\r\n")):
        pair("parth.%s" % n, lambda k: [BP, MULTI_H, b"\r\n--xy\r\n", Rep(k, unit), V(), b":z", E2, b"x\r\n--xy--"], 600 if not t.deep else 4000)
        pair("head.%s" % n, lambda k: [BP, Rep(k, unit.replace(b"Content", b"Kontent")), V(), b":z", E2, b"x"], 600 if not t.deep else 4000)

    # repeated constructs that differ from each other (a search among the earlier ones never succeeds)
    for nm, pre, f, post, n in (
            ("name", BP, lambda i: b"X%d:y\r\n" % i, b"\r\n", 2000), ("val", BP, lambda i: b"X:%d\r\n" % i, b"\r\n", 2000), ("comm", BP, lambda i: b"Comments:%d\r\n" % i, b"\r\n", 2000), ("kwh", BP, lambda i: b"Keywords:%d\r\n" % i, b"\r\n", 1000),
            ("kw", BP + b"Keywords:", lambda i: b"%d," % i, b"x" + E2, 2000), ("to", BP + b"To:", lambda i: b"a%d@b," % i, b"x@b" + E2, 1000), ("dom", BP + b"Cc:", lambda i: b"a@b%d," % i, b"x@b" + E2, 1000), ("disp", BP + b"Reply-To:", lambda i: b"n%d <a@b>," % i, b"x@b" + E2, 1000),
            ("from", D + b"Sender:s@t\r\nFrom:", lambda i: b"a%d@b," % i, b"x@b" + E2, 1000), ("bcc", BP + b"Bcc:", lambda i: b"a%d@b," % i, b"x@b" + E2, 1000), ("grp", BP + b"To:g:", lambda i: b"a%d@b," % i, b"x@b;" + E2, 1000), ("grps", BP + b"To:", lambda i: b"g%d:a@b;," % i, b"x@b" + E2, 1000),
            ("words", BP + b"To:", lambda i: b"w%d " % i, b"<a@b>" + E2, 2000), ("refs", BP + b"References:", lambda i: b"<a%d@b>" % i, b"<x@b>" + E2, 1000), ("irt", BP + b"In-Reply-To:", lambda i: b"<a@b%d>" % i, b"<x@b>" + E2, 1000), ("cmt", BP + b"Sender:", lambda i: b"(%d)" % i, b"a@b" + E2, 2000),
            ("sub", BP + b"Subject:", lambda i: b"w%d " % i, E2, 2000), ("enc", BP + b"Subject:", lambda i: b"=?utf-8?Q?%d?= " % i, E2, 1000), ("rcv", b"", lambda i: b"Received:by x%d;1 Jan 2000 00:00 +0000\r\n" % i, BP + E_, 600), ("tok", b"Received:", lambda i: b"w%d " % i, b";1 Jan 2000 00:00 +0000\r\n" + BP + E_, 2000),
            ("rto", HDR[b"Received"], lambda i: b"Resent-To:a%d@b\r\n" % i, BP + E_, 600), ("rid", HDR[b"Received"], lambda i: b"Resent-Message-ID:<a%d@b>\r\n" % i, BP + E_, 600), ("part", BP + MULTI_H + E_, lambda i: b"--xy\r\n\r\n%d\r\n" % i, b"--xy--", 1000),
            ("parth", BP + MULTI_H + E_, lambda i: b"--xy\r\nX%d:y\r\n\r\nz\r\n" % i, b"--xy--", 600), ("phs", BP + MULTI_H + b"\r\n--xy\r\n", lambda i: b"X%d:y\r\n" % i, b"\r\nz\r\n--xy--", 1000), ("line", BP + E_, lambda i: b"%d\r\n" % i, b"", 2000),
            ("qp", BP + b"Content-Transfer-Encoding:quoted-printable" + E2, lambda i: b"=%02X%d" % (i % 256, i), b"", 2000), ("txt", BP + CT_ + b"text/plain;charset=iso-8859-15" + E2, lambda i: b"%d\xa4" % i, b"", 2000), ("b64", BP + b"Content-Transfer-Encoding:base64" + E2, lambda i: b"QU%dD\r\n" % (i % 10), b"", 2000),
            ("ct", BP + CT_ + b"a/b;c=\"", lambda i: b"%d " % i, b"\"" + E2, 2000), ("pct", BP + CT_ + b"a/b;c*=utf-8''", lambda i: b"%%%02x" % (i % 96 + 32), E2, 2000)):
        v = V(b"125")

        def body(k):
            b = b"".join(f(10000 + i) for i in range(k))
            i = b.find(b"1") if b"1" in b[:40] else b.find(b"0")
            return [pre, b[:i], v, b[i + 1:], post] if i > 0 else [pre, v, b[1:], post]
        pair("diff." + nm, body, n if not t.deep else 3 * n)


RUNS = {
    "C01": [(BP + b"To:", b"(", b")a@b\r\n\r\n"), (BP + b"X:", b"\xff", b"\r\n\r\n"), (BP + CT_ + b"a/b;c*=utf-8''", b"%", b"\r\n\r\n"), (BP + b"Subject:=?utf-8?Q?", b"=", b"?=\r\n\r\n"), (BP + b"\r\n", b"=", b""),
            (BP + b"Content-Transfer-Encoding:quoted-printable\r\n\r\n", b"=", b""), (BP + b"Content-Transfer-Encoding:base64\r\n\r\n", b"=", b"A"), (F + b"Date:1 Jan ", b"0", b" 00:00 +0000\r\n\r\n"),
            (BP + b"MIME-Version:", b"0", b".1\r\n\r\n"), (BP + CT_ + b"a/b;n*", b"0", b"=x\r\n\r\n"), (BP + b"Message-ID:<a@[", b"[", b"]>\r\n\r\n"), (BP + MULTI_H + b"\r\n", b"-", b"xy--")],
    "C03": [(BP + h, u, p) for h in (b"X:", b"Subject:") for u, p in ((b" ", b"b\r\n\r\n"), (b"a", b"\r\n\r\n"), (b"a ", b"\r\n\r\n"), (b"\r\n a", b"\r\n\r\n"), (b"\t", b"\r\n b\r\n\r\n"), (b"\r\n ", b"a\r\n\r\n"))] +
           [(BP + b"Comments:a\r\n", b" ", b"b\r\n\r\n"), (BP + b"Content-Description:a", b" \t", b"b\r\n\r\n"), (BP + b"Comments:", b"abcd efgh ", b"\r\n x\r\n\r\n")],
    "C04": [(BP, b"X", b":y\r\n\r\n"), (BP + b"X:", b"y", b"\r\n\r\n"), (BP, b"X:y\r\n", b":z\r\nTo:a@b\r\n\r\n"), (BP, b"Comments:y\r\n", b":z\r\nTo:a@b\r\n\r\n"), (BP, b"Keywords:a,b\r\n", b":z\r\nKeywords:c\r\n\r\n"), (b"", b"A:b\r\n", b":c\r\n" + BP + b"\r\n"), (BP + b"Keywords:", b"a,", b"b\r\n\r\n")],
    "C05": [(BP, b"X:y\r\n", b":z\r\nDate:1 Jan 2000 00:00 +0000\r\n\r\n"), (BP, b"Comments:y\r\n", b":z\r\nTo:a@b\r\nTo:c@d\r\n\r\n"), (D + b"From:", b"a@b,", b"@b\r\n\r\n"), (D + b"From:", b"(,)", b"@b\r\n\r\n"), (D + b"Sender:s@t\r\nFrom:", b"a@b,", b"@b\r\n\r\n")],
    "C06": [(F + b"Date:", b" ", b"1 Jan 2000 00:00 +0000\r\n\r\n"), (F + b"Date:1", b" ", b"Jan 2000 00:00 +0000\r\n\r\n"), (F + b"Date:1 Jan", b" ", b"2000 00:00 +0000\r\n\r\n"), (F + b"Date:1 Jan 2000", b"\t", b"00:00 +0000\r\n\r\n"),
            (F + b"Date:1 Jan 2000 00:00", b" ", b"+0000\r\n\r\n"), (F + b"Date:1 Jan 2000 00:00 +0000", b" (c)", b"\r\n\r\n"), (F + b"Date:1 Jan ", b"0", b"2000 00:00 +0000\r\n\r\n"), (F + b"Date:Mon,", b" ", b"1 Jan 2000 00:00 +0000\r\n\r\n")],
    "C07": [(BP + h, u, p + b"\r\n\r\n") for h in (b"To:", b"Bcc:", b"Reply-To:") for u, p in ((b"w ", b"<a@b>"), (b"a@b,", b"c@d"), (b"g:a@b;,", b"c@d"), (b"a.", b"@b"), (b"a", b"@b"))] +
           [(BP + b"Cc:" + p, u, q + b"\r\n\r\n") for p, u, q in ((b"a@", b"b.", b""), (b"a@", b"b", b""), (b"\"", b"a", b"\" <a@b>"), (b"\"", b"a b ", b"\"@c"), (b"a@[", b"1", b"]"), (b"a@[", b"1 ", b"]"), (b"g:", b"a@b,", b"c@d;"), (b"g:", b" ", b";"), (b"", b" ", b"@b"), (b"\"", b"\\a", b"\"@b"), (b"w", b" ", b"<a@b>"), (b"w<a@b>", b" ", b",c@d"))] +
           [(D + b"Sender:s@t\r\nFrom:", b"n <a@b>, ", b"@d\r\n\r\n"), (BP + b"Sender:", b"w \"x\" ", b"<a@b>\r\n\r\n")],
    "C08": [(BP + b"To:" + p, u, q + b"\r\n\r\n") for p, u, q in ((b"", b"(", b")a@b"), (b"(", b"a", b")a@b"), (b"", b"(a)", b"a@b"), (b"(", b"\\)", b")a@b"), (b"(", b"a ", b")a@b"), (b"(", b"(a)", b")a@b"), (b"", b" (a)", b"a@b"), (b"", b"(a)\r\n ", b"a@b"), (b"\"", b"a ", b"\"<a@b>"), (b"\"", b"\\\"", b"\"<a@b>"), (b"\"", b" ", b"\"<a@b>"), (b"\"a", b"\r\n ", b"\"<a@b>"), (b"\"", b"\r\n a", b"\"<a@b>"), (b"a@b", b" ", b"(c)"), (b"((", b"x", b"))a@b"))] +
           [(BP + b"Keywords:", b"(a)", b",b\r\n\r\n"), (BP + b"Message-ID:", b"( a )", b"<a@b>\r\n\r\n"), (F + b"Date:1 Jan 2000 00:00 +0000", b"(a)", b"\r\n\r\n"), (BP + CT_ + b"a/b;", b"(a)", b"c=d\r\n\r\n"), (BP + CT_ + b"a/b;c=\"", b"\\\"", b"\"\r\n\r\n"), (BP + b"MIME-Version:", b"(a)", b"1.0\r\n\r\n")],
    "C09": [(BP + h + p, u, q + b"\r\n\r\n") for h in (b"Message-ID:", b"References:") for p, u, q in ((b"", b"<a@b>", b"<c@d>"), (b"<", b"a.", b"@b>"), (b"<", b"a", b"@b>"), (b"<a@", b"b.", b">"), (b"<a@", b"b", b">"), (b"<a@[", b"b", b"]>"), (b"<a@b>", b" ", b"<c@d>"), (b"<a@b>", b"(c)", b"<c@d>"), (b"", b"<a@b>\r\n ", b"<c@d>"))],
    "C10": [(b"", u, p + BP + b"\r\n") for u, p in ((HDR[b"Received"], b"eceived:x;1 Jan 2000 00:00 +0000\r\n"), (HDR[b"Return-Path"] + HDR[b"Received"], b"eceived:x;1 Jan 2000 00:00 +0000\r\n"))] +
           [(HDR[b"Received"], u, p + BP + b"\r\n") for u, p in ((HDR[b"Resent-To"], b"esent-To:a@b\r\n"), (HDR[b"Resent-Message-ID"], b"esent-Date:2 Jan 2000 00:00 +0000\r\n"))] +
           [(b"Received:" + p, u, q + b";1 Jan 2000 00:00 +0000\r\n" + BP + b"\r\n") for p, u, q in ((b"", b"a ", b"b"), (b"", b"<a@b>", b""), (b"", b"a", b""), (b"", b"a.b ", b""), (b"", b"a@b ", b""), (b"a", b" ", b"b"), (b"a", b"(c)", b"b"))],
    "C11": [(BP + b"\r\n", u, p) for u, p in ((b"a", b"b"), (b"\r\n", b"a"), (b"\n", b"a"), (b"\r", b"a"), (b"\0", b"a"), (b"\xff", b"a"), (b"ab\r\n", b"c"), (b" ", b"\r\n"))],
    "C12": [(BP + b"\r\n", u, p) for u, p in ((b"a", b"\r\nb"), (b"\r\n", b"a"), (b"ab\r\n", b"c"), (b" ", b"\r\n"), (b"a\r\n\r\n", b""))],
    "C13": [(b"", b"QUJD", b""), (b"", b"\r\n", b"UJD"), (b"QU", b" ", b"JD"), (b"QUI=", b"\r\n", b"QUJD"), (b"Q", b"-", b"UJD"), (b"", b"Q", b""), (b"", b"Q", b"=="), (b"", b"QUJD\r\n", b"UI="), (b"QQ", b"=", b"A"), (b"", b"/+", b"")],
    "C14": [(b"", b"a", b"b"), (b"", b"=41", b"b"), (b"", b"=\r\n", b"b"), (b"", b"=", b"41"), (b"a", b" ", b"\r\nb"), (b"a", b"\t ", b""), (b"", b"\r\n", b"=41"), (b"", b"=4", b"1"), (b"", b"a=\r\n", b"b"), (b"a=", b" ", b"\r\nb"), (b"", b"\xff", b"a")],
    "C15": [(BP + h + p, u, q + post) for h, post in ((b"Subject:", b"\r\n\r\n"), (b"To:", b" <a@b>\r\n\r\n")) for p, u, q in ((b"", b"=?utf-8?Q?a?= ", b"b"), (b"=?utf-8?Q?", b"a", b"?="), (b"=?utf-8?Q?", b"=41", b"?="), (b"=?utf-8?Q?", b"_", b"a?="), (b"=?utf-8?B?", b"QUJD", b"?="), (b"=?utf-8?Q?a?=", b" ", b"=?utf-8?Q?b?="),
            (b"=?utf-8?Q?a?=\r\n", b" ", b"=?utf-8?Q?b?="), (b"=?utf-8*", b"a", b"?Q?a?="), (b"=?", b"a", b"?Q?a?="), (b"", b"a ", b"=?utf-8?Q?b?="), (b"a", b" ", b"=?utf-8?Q?b?="), (b"", b"=?utf-8?Q?=C3=A9?= =?iso-8859-1?B?6Q==?= ", b"c"))],
    "C16": [(BP + CT_ + b"text/plain;charset=" + c + b"\r\n\r\n", u, b"a") for c, u in ((b"utf-8", b"\xc3\xa9"), (b"utf-8", b"\xf0\x9f\x98\x80"), (b"us-ascii", b"a"), (b"iso-8859-1", b"\xe9"), (b"iso-8859-5", b"\xd0"), (b"iso-8859-15", b"a\xa4"), (b"utf-8", b"\xff"))],
    "C17": [(BP + CT_ + p, u, q + b"\r\n\r\nx") for p, u, q in ((b"", b"a", b"/b"), (b"a/", b"B", b""), (b"a/b;", b"c", b"=d"), (b"a/b;c=", b"D", b""), (b"a/b;c=\"", b"d ", b"\""), (b"a/b;c=\"", b"\\d", b"\""), (b"a/b", b";c=d", b""), (b"a/b", b" ", b";c=d"), (b"a/b;", b" ", b"c=d"), (b"a/b", b"(x)", b";c=d"), (b"a/b;c=d", b" ", b""), (b"a/b", b"; C=\"d\"", b""), (b"", b" ", b"a/b"))],
    "C18": [(BP + CT_ + p, u, q + b"\r\n\r\nx") for p, u, q in ((b"a/b;c*=utf-8''", b"%41", b""), (b"a/b;c*=utf-8''", b"a", b""), (b"a/b;c*=utf-8'", b"e", b"'x"), (b"a/b;c*=", b"u", b"''x"), (b"a/b;c*0*=utf-8''", b"%c3%a9", b";c*1=b"), (b"a/b;c*0=x;c*1*=", b"%41", b""), (b"a/b;", b"c", b"*0=x"), (b"a/b;c*0=", b"x", b";c*1=y"), (b"a/b", b";c*0=x", b";c*1=y"), (b"a/b", b";d=e", b";c*1=y;c*0=x"))],
    "C19": [(BP + b"Content-Disposition:" + p, u, q + b"\r\n\r\nx") for p, u, q in ((b"", b"a", b""), (b"inline;filename=", b"f", b""), (b"x;filename=\"", b"f ", b"\""), (b"x;filename=\"", b"\\f", b"\""), (b"x", b";a=b", b";filename=c"), (b"x;size=", b"1", b""), (b"attachment", b" ", b";filename=a"), (b"x;", b" ", b"filename=a"), (b"x;creation-date=\"", b" ", b"1 Jan 2000 00:00 +0000\""), (b"x;", b"a", b"=b;filename=c"))],
    "C20": [(BP + b"Content-Transfer-Encoding:" + p, u, q) for p, u, q in ((b"base64\r\n\r\n", b"QUJD", b""), (b"quoted-printable\r\n\r\n", b"=41", b""), (b"7bit\r\n\r\n", b"=41", b""), (b"8bit\r\n\r\n", b"\xff", b""), (b"binary\r\n\r\n", b"\0", b""), (b"7bit", b" ", b"\r\n\r\nQQ=="), (b"7bit", b"(a)", b"\r\n\r\nQQ=="), (b"", b" ", b"base64\r\n\r\nQQ=="), (b"", b"x", b"\r\n\r\nQQ=="))],
    "C21": [(BP + MULTI_H + b"\r\n" + p, u, q) for p, u, q in ((b"", b"a\r\n", b"--xy\r\n\r\nA\r\n--xy--"), (b"--xy\r\n\r\n", b"A", b"\r\n--xy--"), (b"--xy\r\n\r\n", b"A\r\n", b"\r\n--xy--"), (b"", b"--xy\r\n\r\nA\r\n", b"--xy--"), (b"", b"-", b"--xy\r\n\r\nA\r\n--xy--"), (b"--xy\r\n\r\n", b"-", b"\r\n--xy--"), (b"--xy\r\n\r\n", b"\r\n", b"--xy--"), (b"--xy\r\n\r\n", b"--x", b"y--\r\n--xy--"), (b"--xy\r\n\r\n", b"\r\n--x", b"y--\r\n--xy--"), (b"--xy\r\n\r\nA\r\n--xy--", b"\r\n--xy--", b""))],
    "C22": [(BP + MULTI_H + b"\r\n--xy\r\n" + p, u, q) for p, u, q in ((b"", b"X:y\r\n", b":z\r\n\r\nb\r\n--xy--"), (b"", b"X", b":z\r\n\r\nb\r\n--xy--"), (b"X:", b"y", b"\r\nContent-ID:<a@b>\r\n\r\nb\r\n--xy--"), (b"X:", b"\r\n y", b"\r\nContent-ID:<a@b>\r\n\r\nb\r\n--xy--"), (b"Content-Description:", b"a ", b"\r\n\r\nb\r\n--xy--"), (b"X:y\r\n\r\n", b"b", b"\r\n--xy--"), (b"", b"Content-ID:<a@b>\r\n\r\nb\r\n--xy\r\n", b":z\r\n\r\nb\r\n--xy--"), (b"Content-ID:", b" (c)", b"<a@b>\r\n\r\nb\r\n--xy--"))],
}
for _p in ("C23", "C24", "C27", "C02"):
    RUNS[_p] = [x for q in ("C03", "C04", "C07", "C08", "C09") for x in RUNS[q][::2 if _p == "C23" else 3]] + ([x for q in ("C15", "C17", "C18", "C19", "C21") for x in RUNS[q][::3]] if _p != "C23" else [])
RUNS["C24"] = [x for x in RUNS["C24"] if b"*" not in x[0] + x[1]]


E2 = b"\r\n\r\n"
SPANS = {
    "C03": lambda: [(BP + h, b" a  b\r\n\t c\r\n d \r\n e\t ", b"\r\nZ:" + E2) for h in (b"X-y:", b"Subject:", b"Comments:", b"Content-Description:")],
    "C05": lambda: [(BP, HDR[b"To"] + b"Bcc:\r\nSubject:\r\n", b"Bcc:\r\nSubject:\r\n\r\n"), (b"", HDR[b"From"] + HDR[b"Sender"] + HDR[b"Date"], b"\r\n"), (D, b"From:a@b,c@d\r\nSender:a@b\r\n", b"\r\n")],
    "C06": lambda: [(F + b"Date:", d, E2) for d in (DATE, b" 1 jan 2000 23:59 +1400", b"\r\n 31 DEC 12345 00:00:60 -0000\r\n (a)\r\n ")],
    "C07": lambda: [((r if n != b"From" else D + b"Sender:s@t\r\n") + n + b":", v, E2) for n, v, r in ADDRS],
    "C08": lambda: [(pre, h + b" (a(b)\\)c)\r\n (d)", post + b"\r\n") for _, pre, h, post in STRUCT],
    "C09": lambda: [(BP + n + b":", v, E2) for n, v in IDS],
    "C10": lambda: [(b"", TRACE, BP + b"\r\n")],
    "C15": lambda: [(BP + b"Subject:", ENCW + b" =?utf-8?Q??= =?utf-8?B??=d", E2), (BP + b"To:", ENCW[2:-2], b" <a@b>" + E2), (BP + b"Keywords:", ENCW, b",k" + E2)],
    "C17": lambda: [(BP + CT_, v, E2 + b"x") for v in (CTV, b" Multipart/Mixed ;\r\n boundary=\"x y\" ; A=b")],
    "C18": lambda: [(BP + CT_, CTC, E2), (BP + CT_ + b"a/b", b";n*=iso-8859-1'fr'%E9x;m=1;n*1=z;A*0=x;a*2=z;a*1=\"y \";a=p", E2)],
    "C19": lambda: [(BP + b"Content-Disposition:", v, E2) for v in (DISP, b"x;modification-date=\"1 Jan 2000 00:00 +0000\";FileName=a;read-date=\"2 Jan 2000 00:00 +0000\"")],
    "C20": lambda: [(BP, b"Content-Transfer-Encoding: (a) quoted-printable (b)\r\n", b"\r\n=41"), (BP + MULTI_H + b"\r\n--xy\r\n", b"Content-Transfer-Encoding:base64\r\n\r\nQUJD\r\n--xy", b"--")],
    "C21": lambda: [(BP + MULTI_H + b"\r\n", MULTI_B, b""), (BP, b"Content-Type: multipart/mixed ; boundary=\"xy\"; a=b", b"\r\n\r\n" + MULTI_B)],
    "C22": lambda: [(BP + MULTI_H + b"\r\n--xy\r\n", b"Content-Type: image/png; name=a\r\nContent-ID:<a@b>\r\nContent-Description:d\r\nContent-Disposition:inline;filename=f\r\nX-a: b\r\n\r\nbody", b"\r\n--xy--")],
}
# Sequences of repeated things: every sequence of `n` of the items, followed by one symbolic byte and `post`.
DT = b"1 Jan 2000 00:00 +0000"
SEQ_PARAM = [b";c=d", b";C=\"e f\"", b";b=g", b"; charset=utf-8 (x)", b";c*=utf-8''%41", b";c*1=i", b";c*0=h", b";c=(y)j"]
SEQ_CONT = [b";a*0=b", b";a*1=\"c%41\"", b";A*1*=%44", b";a*2=e", b";a*0*=utf-8''%46", b";a=g", b";h*0=i", b";a*=us-ascii''%4a"]
SEQ_DISP = [b";filename=a", b";FileName=\"b c\"", b";creation-date=\"" + DT + b"\"", b";read-date=\"2" + DT[1:] + b"\"", b";modification-date=\"3" + DT[1:] + b"\"", b";size=4", b";x=y", b";filename*=utf-8''%41"]
SEQ_ADDR = [b",a@b", b",x <c@d>", b",\"q,\" y.<e@[f]>", b",g:;", b",h:i@j,k <l@m>;", b",", b",(c)n.o@p(d)", b",<q@r>"]
SEQ_ID = [b"<a@b>", b" <c.d@[e]>", b"\r\n <f@g> ", b"(x)<h@i>", b"<j>", b"<k@l.m>(y)"]
SEQ_TOK = [b" a", b"<a@b>", b" c@d", b" e.f", b"\"g\"", b"[h]", b"(i)", b" <@j:k@l>", b" m@[n] "]
SEQ_WORD = [b" a", b" =?utf-8?Q?b_?=", b" =?utf-8?B?Yw==?=", b" =?utf-8?Q??=", b" =?utf-8?x?d?=", b" =?iso-8859-1*en?q?=E9?=", b"=?us-ascii?q?f?=", b"\r\n =?utf-8?Q?g?= ", b" =?koi8-r?Q?h?="]
SEQ_PART = [b"--xy\r\n", b"\r\n", b"A", b"--xy--", b"\r\n--xy\r\n", b"\r\n--xy--", b"--x"]
SEQ_PARTS = [b"--xy\r\n" + x + b"\r\n" for x in (b"\r\nb", b"X:y\r\n\r\nc", b"Content-Type:a/b;c=d\r\n\r\ne", b"Content-ID:<f@g>\r\n\r\n", b"Content-Disposition:inline;h=i\r\nContent-Description:j\r\n\r\nk", b"Content-Transfer-Encoding:base64\r\n\r\nYQ==", b"Content-Transfer-Encoding:quoted-printable\r\n\r\n=41", b"\r\n\r\n")]
SEQ_LINE = [b"a", b" ", b"\r\n ", b"\t", b"\xc3\xa9", b"\r\n\t"]
SEQ_CFWS = [b" ", b"\r\n ", b"(c)", b"((d) e)", b"(\\))", b"\t", b"()"]
SEQ_TRACE = [HDR[k] for k in (b"Return-Path", b"Received", b"Resent-From", b"Resent-Date", b"Resent-Message-ID", b"Resent-To", b"Resent-Sender", b"X")]
SEQ_B64 = [b"YWJj", b"\r\n", b"YQ==", b"YWI=", b" ", b"-"]
SEQ_QP = [b"a", b"=41", b"=\r\n", b"\r\n", b" ", b"=", b"\t", b"=3"]
SEQS = {
    "C03": [(BP + b"Subject:", SEQ_LINE, b"\r\n\r\n", 3), (BP + b"X:", SEQ_LINE, b"b\r\n\r\n", 3), (BP + b"Content-Description:", SEQ_LINE, b"\r\n\r\n", 3)],
    "C07": [(BP + b"Bcc:z@z", SEQ_ADDR, b"\r\n\r\n", 3), (D + b"Sender:s@t\r\nFrom:z@z", SEQ_ADDR, b"\r\n\r\n", 2), (BP + b"To:z@z", SEQ_ADDR, b"\r\n\r\n", 2)],
    "C08": [(BP + b"To:a", SEQ_CFWS, b"<b@c>\r\n\r\n", 3), (BP + b"To:a@b", SEQ_CFWS, b",c@d\r\n\r\n", 3), (BP + b"Message-ID:", SEQ_CFWS, b"<a@b>\r\n\r\n", 3), (F + b"Date:1 Jan 2000 00:00 +0000", SEQ_CFWS, b"\r\n\r\n", 3), (BP + b"Content-Type:a/b", SEQ_CFWS, b";c=d\r\n\r\n", 3)],
    "C09": [(BP + b"References:", SEQ_ID, b"\r\n\r\n", 3), (BP + b"In-Reply-To:", SEQ_ID, b"\r\n\r\n", 3)],
    "C10": [(b"Received:", SEQ_TOK, b";" + DT + b"\r\n" + BP + E_, 3), (b"", SEQ_TRACE, BP + E_, 3)],
    "C13": [(None, SEQ_B64, b"", 4)],
    "C14": [(None, SEQ_QP, b"", 4)],
    "C15": [(BP + b"Subject:", SEQ_WORD, b"\r\n\r\n", 3), (BP + b"To:z", SEQ_WORD, b" <a@b>\r\n\r\n", 3)],
    "C17": [(BP + b"Content-Type:a/b", SEQ_PARAM, b"\r\n\r\n", 3)],
    "C18": [(BP + b"Content-Type:a/b", SEQ_CONT, b"\r\n\r\n", 3), (BP + b"Content-Disposition:a", SEQ_CONT, b"\r\n\r\n", 2)],
    "C19": [(BP + b"Content-Disposition:a", SEQ_DISP, b"\r\n\r\n", 3)],
    "C21": [(BP + MULTI_H + b"\r\n", SEQ_PART, b"", 4)],
    "C22": [(BP + MULTI_H + b"\r\n", SEQ_PARTS, b"--xy--", 3)],
}
SEQS["C01"] = [s[:3] + (2,) for p in ("C07", "C08", "C09", "C10", "C15", "C17", "C18", "C19", "C21", "C22") for s in SEQS[p]]


def sequences(t, prop, e):
    import itertools
    for i, (pre, items, post, n) in enumerate(SEQS.get(prop, ())):
        for j, c in enumerate(itertools.product(range(len(items)), repeat=n + 1 if t.deep else n)):
            if pre is None:
                t.add("sq%d" % i, e, b"".join(items[k] for k in c), sym(1))
            else:
                t.add("sq%d" % i, e, pre, b"".join(items[k] for k in c), sym(1), post)


# Words that programs treat in a special way somewhere: they must not be special here (or exactly as special as the
# reference says). The last byte of each is symbolic.
MAGIC = [b"\xef\xbb\xbf", b"../", b"..", b"..\\", b">From ", b"From ", b"\r\n.", b"\r\n..\r\n", b"\r\n>From ", b"%0D%0A", b"%41", b"%%", b"&amp;", b"&#65;", b"\\n", b"\\\\", b"\\x41", b"\\u0041", b"\x1b[", b"''", b"\"\"", b"<>", b"()", b"[]", b"=?", b"?=", b"=?=",
         b"=3D", b"=20", b"=\r\n", b"=09", b"--", b"---", b"-- ", b"://", b"http://", b"mailto:", b"Re: ", b"Fwd:", b"RE:", b"Re[2]:", b"@@", b"::", b":;", b";;", b",,", b"xn--", b"utf8", b"UTF-8", b"latin1", b"ascii", b"US-ASCII", b"iso8859-1", b"iso_8859-1", b"cp1252", b"windows-1252",
         b"GBK", b"koi8-r", b"undisclosed-recipients", b"MAILER-DAEMON", b"postmaster", b"localhost", b"IPv6:::1", b"127.0.0.1", b"+tag", b"-0000", b"GMT", b"UT", b"EST", b"Z", b"00", b"0x41", b"1e5", b"NaN", b"null", b"None", b"NIL", b"true", b"unknown", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xe2\x80\x8b", b"\xc3\xa9",
         b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\0", b"\x7f", b"*0", b"*0*", b"*1*", b"*", b"boundary", b"charset", b"filename", b"text/plain", b"multipart/", b"message/rfc822", b"x-", b"X-", b"VIA", b"WITH", b"ESMTP", b"root", b"$(x)", b"${x}", b"~/", b"/etc/", b"C:\\", b"a b", b"  ", b" \t", b"Resent-", b"Content-"]
DICTS = {
    "C01": lambda: [(b"", m, b"") for _, m in ALLMSGS],
    "C02": lambda: [(m[:len(BP)], m[len(BP):], b"") for _, m in ALLMSGS if m.startswith(BP)],
    "C04": lambda: [(BP, b"X-ab: cd ef\r\nTo:g@h\r\nzz:", b"y\r\n\r\n")],
    "C11": lambda: [(BP + E_, b"ab cd\r\nef\r\n\r\ngh\r\n", b""), (BP, b"X:y\r\n\r\nab", b"")],
    "C12": lambda: [(BP + E_, b"ab cd\r\nef\r\n\r\ngh\r\n", b""), (BP, b"X:y\r\n\r\nab", b"")],
    "C13": lambda: [(b"", b"QUJD\r\nQUI=", b"")],
    "C14": lambda: [(b"", b"ab cd\r\nef=41gh=\r\nij", b"")],
    "C16": lambda: [(BP + CT_, b"text/plain;charset=" + c + b"\r\n\r\nab cd\r\nef", b"") for c in (b"utf-8", b"us-ascii", b"iso-8859-1", b"iso-8859-15", b"iso-6937", b"gb2312")],
    "C20": lambda: [(BP + b"Content-Transfer-Encoding:", c + b"\r\n\r\nab cd\r\nef", b"") for c in (b"7bit", b"8bit", b"binary", b"quoted-printable", b"base64")],
    "C23": lambda: [(m[:len(BP)], m[len(BP):], b"") for n, m in ALLMSGS if m.startswith(BP) and b"=?" not in m],
    "C24": lambda: [(m[:len(BP)], m[len(BP):], b"") for _, m in ALLMSGS if m.startswith(BP)],
}


ALIASES = [b"latin1", b"latin-1", b"l1", b"cp819", b"ibm819", b"csisolatin1", b"iso_8859-1", b"iso_8859-1:1987", b"iso8859-15", b"latin-9", b"iso-8859-12", b"iso-8859-8-i", b"iso-8859-01", b"iso-8859-", b"8859-1", b"utf8", b"utf_8", b"utf-16", b"utf-16le", b"utf-7", b"utf-8-sig",
           b"x-utf-8", b"unicode-1-1-utf-8", b"ascii", b"us_ascii", b"usascii", b"ansi_x3.4-1968", b"iso646-us", b"windows-1250", b"windows-1251", b"windows-1252", b"windows-31j", b"cp1252", b"cp936", b"gbk", b"gb18030", b"x-gbk", b"gb_2312-80", b"gb2312-80", b"euc-cn", b"hz-gb-2312", b"big5", b"shift_jis", b"euc-jp",
           b"iso-2022-jp", b"euc-kr", b"ks_c_5601-1987", b"koi8-r", b"koi8-u", b"macintosh", b"ibm850", b"tis-620", b"iso_6937", b"iso-6937-2", b"iso-6937-1", b"binary", b"default", b"auto", b"unknown-8bit", b"x-unknown", b"none"]
FOREIGN = [b"Delivered-To", b"Errors-To", b"List-Id", b"X-Mailer", b"Apparently-To", b"Content-Location", b"Content-Language", b"Content-MD5", b"Content-Base", b"Content-Features", b"Content-Length", b"Content-Encoding", b"Disposition-Notification-To", b"Importance", b"Priority", b"Organization", b"User-Agent",
           b"DKIM-Signature", b"Authentication-Results", b"ARC-Seal", b"Received-SPF", b"Return-Receipt-To", b"Resent-Reply-To", b"Resent-Subject", b"Resent-Comments", b"Encrypted", b"Lines", b"Xref", b"Newsgroups", b"Followup-To", b"Path", b"Status", b"Supersedes", b"Expires", b"Auto-Submitted", b"Thread-Index",
           b"Original-Recipient", b"Original-From", b"X-Original-To", b"Envelope-To", b"Mail-Reply-To", b"Reply", b"Reply_To", b"ReplyTo", b"Replyto", b"MessageID", b"Message_ID", b"Msg-ID", b"Reference", b"InReplyTo", b"Comment", b"Keyword", b"Subj", b"Dates", b"Sent", b"Delivery-Date", b"Posted-Date", b"Froms", b"Author",
           b"MIMEVersion", b"MIME-Ver", b"ContentType", b"Content_Type", b"Content-Types", b"ContentID", b"Content-Desc", b"Content-Dispo", b"Transfer-Encoding", b"Return-path-", b"Returnpath", b"Via", b"Receive", b"Received-By", b"X-Received", b"X-From", b"X-Date", b"X-Content-Type", b"Resent", b"Resent-", b"-", b"A", b"CCC", b"BCC-", b"Blind-Cc", b"T"]
ZONES = [b"UT", b"UTC", b"GMT", b"EST", b"EDT", b"CST", b"CDT", b"MST", b"MDT", b"PST", b"PDT", b"CET", b"A", b"J", b"Z", b"z", b"+00:00", b"+0", b"+00", b"+000", b"+00000", b"GMT+0000", b"+0000 GMT", b"-0000", b"0000", b"+2400", b"+9959", b"+0060", b"+-000"]
NAMES = [b"January", b"February", b"March", b"April", b"June", b"July", b"August", b"September", b"Sept", b"October", b"November", b"December", b"01", b"1"]
DAYS = [b"Monday", b"Tuesday", b"Tues", b"Wednesday", b"Thursday", b"Thur", b"Friday", b"Saturday", b"Sunday", b"Mo", b"1"]
TIMES = [b"12:00 AM", b"12:00PM", b"12.00", b"1200", b"12:00:00.5", b"12:00:00,5", b"1:00", b"12:0", b"12", b"12:00:0", b"12:00:000", b"T12:00", b"24:00", b"12:60", b"12:00:61", b"12:00:", b"12 :00", b"12: 00", b"12:00 :00", b"12:00: 00"]


def words(t, prop, e):
    """Names and notations of other standards and older ones: each must be taken for what the reference says."""
    def each(name, pre, lst, post):
        for w in lst:
            t.add(name, e, pre, w[:-1], sym(1), post)
            t.add(name, e, pre, w, sym(1), post)
            t.add(name, e, pre, sym(1), w, post)
            if w.lower() != w.upper():
                t.add(name, e, pre, w.upper()[:-1], sym(1), post)
    if prop == "C06":
        for d in (b"1 Jan 2000 00:00", b"Mon, 01 Jan 2000 00:00:00"):
            each("zones", F + b"Date:" + d + b" ", ZONES, E2)
        each("names", F + b"Date:1 ", NAMES, b" 2000 00:00 +0000" + E2)
        each("days", F + b"Date:", DAYS, b", 1 Jan 2000 00:00 +0000" + E2)
        each("times", F + b"Date:1 Jan 2000 ", TIMES, b" +0000" + E2)
        each("forms", F + b"Date:", [b"2000-01-01 00:00 +0000", b"2000-01-01T00:00:00Z", b"Jan 1 2000 00:00 +0000", b"Mon Jan  1 00:00:00 2000", b"1-Jan-2000 00:00 +0000", b"1/1/2000 00:00 +0000", b"946684800", b"Monday, 01-Jan-00 00:00:00 GMT", b"1 Jan 00 00:00 +0000", b"1 Jan 100 00:00 +0000", b"1 Jan 2000", b"1 Jan 2000 00:00", b"Mon 1 Jan 2000 00:00 +0000", b"1, Jan 2000 00:00 +0000", b"1 Jan, 2000 00:00 +0000", b"1 Jan. 2000 00:00 +0000", b"1st Jan 2000 00:00 +0000"], E2)
    if prop in ("C15", "C16", "C18", "C02"):
        lst = ALIASES if prop != "C02" else ALIASES[::4]
        if prop in ("C16", "C02"):
            for q in (b"", b"\"", b"\" "):
                each("alias", BP + CT_ + b"text/plain;charset=" + q, lst if not q or prop == "C16" else [], q[:1] + E2 + b"a\xe9b")
        if prop in ("C15", "C16"):
            each("alias", BP + b"Subject:=?", lst, b"?Q?a=E9b?=" + E2)
            each("alias", BP + b"To:=?", lst[::2], b"*en?B?YelE?= <a@b>" + E2)
        if prop in ("C18", "C16"):
            each("alias", BP + CT_ + b"a/b;c*=", lst, b"''a%E9b" + E2)
            each("alias", BP + CT_ + b"a/b;c*1=d;c*0*=", lst[::2], b"''a%E9b" + E2)
    if prop in ("C04", "C05", "C10", "C22", "C23"):
        for i, w in enumerate(FOREIGN):
            for j, v in enumerate((b"a@b", b"1 Jan 2000 00:00 +0000", b"<a@b>", b"a/b;c=d", b"x y, z")):
                if (i + j) % (1 if t.deep else 3 if prop == "C04" else 5):
                    continue
                h = [w[:-1], sym(1), b":", v, b"\r\n"]
                if prop == "C04":
                    t.add("foreign", e, BP, h, b"To:c@d\r\n\r\n")
                    t.add("foreign", e, BP, w, sym(1), b":" + v + b"\r\nTo:c@d\r\n\r\n")
                elif prop == "C05":
                    t.add("foreign", e, BP, h, w + b":" + v + b"\r\nSender:e@f\r\nTo:c@d\r\n\r\n")
                    t.add("foreign", e, h, w + b":" + v + b"\r\nTo:c@d\r\n\r\n")
                elif prop == "C10":
                    t.add("foreign", e, HDR[b"Received"], h, HDR[b"Resent-To"], BP, E_)
                    t.add("foreign", e, h, HDR[b"Received"], HDR[b"Resent-To"], BP, E_)
                elif prop == "C22":
                    t.add("foreign", e, BP + MULTI_H + b"\r\n--xy\r\nContent-ID:<i@j>\r\n", h, b"\r\nb\r\n--xy--")
                else:
                    t.add("foreign", e, BP, h, b"To:c@d\r\n\r\n")


def dictionary(t, prop, e):
    import re
    spans = DICTS[prop]() if prop in DICTS else SPANS[prop]() if prop in SPANS else []
    jobs = []
    for i, (pre, v, post) in enumerate(spans):
        runs = [m.span() for m in re.finditer(rb"[A-Za-z0-9.-]+", v)]
        for a, b in runs:
            two_byte = b"iso-6937" in v or b"gb2312" in v  # pairs of bytes: see known_findings.txt
            for w in MAGIC:
                if two_byte and max(w) > 127:
                    continue
                for x, y in ((a, b), (a, a), (b, b)):
                    jobs.append(("mg%d" % i, sym(1, range(128)) if two_byte else sym(1), pre, v[:x], w[:-1], v[y:], post))
    top = 12000 if t.deep else 500 if prop in ("C02", "C23", "C24", "C28") else 2500
    step = max(1, len(jobs) // top)
    while step % 2 == 0 or step % 3 == 0:
        step += 1
    for k in range(0, len(jobs), step):
        name, last, *parts = jobs[k]
        t.add(name, e, *parts[:3], last, *parts[3:])


KH = (5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300)
HEAVY = ("C04", "C05", "C07", "C08", "C10", "C17", "C18", "C19")


def extra(t, prop):
    """What every property gets on top of its own families."""
    import gen
    e = entries(prop)[0]
    deep = t.deep
    light = prop in ("C02", "C23", "C24", "C27")
    for i, (pre, unit, post) in enumerate(RUNS.get(prop, ())):
        if prop == "C27":
            t.runs("run%d" % i, e, b"\x00\x02" + pre, unit, post + b"\r\n", ks=None if deep else KQ[::4])
        else:
            t.runs("run%d" % i, e, pre, unit, post, top=1025 if len(unit) < 4 or deep else 300, ks=None if deep else KQ[::3] if light else KH if prop in HEAVY else None)
    for i, (pre, unit, post) in enumerate(RUNS.get(prop, ())):
        # counters of two bytes, buffers of several kilobytes
        if not light:
            t.runs("huge%d" % i, e, pre, unit, post, top=1 << 20, s=frozenset((unit[0], 0x22)), ks=(4097, 65537) if deep and len(unit) < 12 else (1100 if len(unit) > 12 else 4097 if len(unit) > 2 else 8193 if len(unit) == 2 else 65537,), steps=2000000000 if deep else 600000000)
    for i, (pre, v, post) in enumerate(SPANS.get(prop, lambda: ())()):
        t.dele("span%d" % i, e, pre, v, post, (2, 3, 4) if not deep else (2, 3, 4, 5, 6, 8))
    sequences(t, prop, e)
    dictionary(t, prop, e)
    words(t, prop, e)
    if prop in ("C01", "C02", "C23", "C24"):
        for n, m in ALLMSGS:
            lo = len(BP) if m.startswith(BP) else 0
            t.dele(n, e, m[:lo], m[lo:], b"", (2, 3, 5) if deep else (3,), step=1 if deep or prop in ("C01", "C23") else 3)
    if prop in gen.FOCUS or prop in ("C11", "C12", "C13", "C14", "C16", "C20", "C21", "C22"):
        gen.generate(t, prop, e, 6000 if deep else GENQ.get(prop, 500), deep)


GENQ = dict(C01=1500, C02=350, C03=800, C04=400, C05=400, C06=800, C07=400, C08=500, C09=600, C10=450, C11=1500, C12=1500, C13=3000, C14=3000, C15=900,
            C16=800, C17=600, C18=600, C19=500, C20=700, C21=2000, C22=2000, C23=900, C24=350, C27=200)

PROPS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 30)}


def entries(prop):
    base = {"C01": ["e01", "e01d"], "C13": ["e13", "e13m"], "C14": ["e14", "e14m"], "C25": ["e01"], "C26": ["e26b", "e26q"], "C23": ["e23", "e23n", "e23m"], "C27": ["e27", "e27h", "e27s"]}
    return base.get(prop, ["e" + prop[1:]])


def templates(prop, tier):
    t = Templates(tier)
    PROPS[prop](t)
    extra(t, prop)
    return t.out
