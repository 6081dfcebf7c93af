"""A fixed-seed grammar for well-formed and nearly well-formed messages, used to place symbolic bytes in contexts nobody listed by hand.

Everything here is deterministic: the same templates come out on every run."""
import base64
import random

from templates import V, FULL, BP, F, D, KINDS, HDR, CF, DIGIT, HEXD, B64, MULTI_H

ATEXT = b"abcxyzABZ019!#$%&'*+-/=?^_`{|}~"
CTYPES = [b"text", b"image", b"audio", b"video", b"application", b"message", b"multipart", b"x-foo", b"Text", b"MULTIPART", b"texte", b"a"]
MONTHS = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]
DAYS = [b"Mon", b"Tue", b"Wed", b"Thu", b"Fri", b"Sat", b"Sun"]
CHARS = [b"utf-8", b"UTF-8", b"us-ascii", b"iso-8859-1", b"ISO-8859-15", b"iso-8859-2", b"iso-8859-8", b"Iso-8859-16", b"koi8-r"]
SPECIALS = b" \t\r\n()<>[]:;@\\,.\"=?*'%/-_"


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        x = self.r.choice(xs)
        return x() if callable(x) else x

    def rep(self, f, lo, hi, sep=b""):
        return sep.join(f() for _ in range(self.r.randint(lo, hi)))

    # ------------------------------------------------ lexical
    def fws(self):
        return b" " if self.p(0.6) else self.pick(b"  ", b"\t", b"\r\n ", b" \r\n\t", b"\r\n \t", b" \t ", b"\r\n  ")

    def ofws(self):
        return self.fws() if self.p(0.25) else b""

    def comment(self, d=0):
        def item():
            x = self.r.random()
            if x < 0.45:
                return bytes(self.r.choice(b"abz09@<>,;:.\"[]?=!") for _ in range(self.r.randint(1, 3)))
            if x < 0.6:
                return b"\\" + bytes([self.r.choice(b"()\\\" a\t\"")])
            if x < 0.75:
                return self.fws()
            if x < 0.82:
                return b"=?utf-8?Q?a?="
            if x < 0.822:
                return "é€".encode()
            return self.comment(d + 1) if d < 4 else b"z"
        return b"(" + self.rep(item, 0, 4) + b")"

    def cfws(self):
        return self.pick(b"", b" ", self.fws) + self.rep(self.comment, 1, 2, self.pick(b"", b" ", b"\r\n ")) + self.ofws() if self.p(0.45) else self.fws()

    def ocfws(self, x=0.3):
        return self.cfws() if self.p(x * 0.7) else b""

    def atext(self, lo=1, hi=4):
        n = self.r.randint(lo, hi)
        return bytes(self.r.choice(ATEXT if self.p(0.4) else b"abcXYZ019") for _ in range(n))

    def atom(self):
        return self.ocfws(0.15) + self.atext() + self.ocfws(0.15)

    def dotatom(self):
        return self.rep(self.atext, 1, 3, b".")

    def qstring(self):
        def item():
            x = self.r.random()
            if x < 0.45:
                return bytes(self.r.choice(b"abz09@<>,;:.()[]?=!") for _ in range(self.r.randint(1, 3)))
            if x < 0.65:
                return b"\\" + bytes([self.r.choice(b"()\\\" a\t")])
            if x < 0.85:
                return self.fws()
            if x < 0.855:
                return "é".encode()
            return b"=?utf-8?Q?a?="
        return b"\"" + self.rep(item, 0, 4) + b"\""

    def encword(self):
        cs = self.pick(*CHARS)
        if self.p(0.15):
            cs += b"*en"
        if self.p(0.5):
            payload = self.rep(lambda: self.pick(b"a", b"_", b"=41", b"=20", b"=E9" if b"8859" in cs else b"=C3=A9", b"b", b"=3D", b"=5f", b"!"), 0, 4)
            return b"=?" + cs + b"?" + self.pick(b"Q", b"q") + b"?" + payload + b"?="
        raw = self.rep(lambda: self.pick(b"a", b"bc", b"\xe9" if b"8859" in cs else "é".encode(), b" "), 0, 3)
        return b"=?" + cs + b"?" + self.pick(b"B", b"b") + b"?" + base64.b64encode(raw) + b"?="

    def word(self):
        x = self.r.random()
        if x < 0.55:
            return self.atom()
        if x < 0.8:
            return self.ocfws(0.15) + self.qstring() + self.ocfws(0.15)
        return self.encword()

    def phrase(self):
        w = [self.word() for _ in range(self.r.randint(1, 3))]
        out = w[0]
        for x in w[1:]:
            s = self.cfws() if self.p(0.9) else b""
            out += s + x
        return out

    def literal(self):
        return b"[" + self.rep(lambda: self.pick(b"1", b"a.b", b"IPv6:", self.fws, b"()", b"@<>"), 0, 3) + b"]"

    def domain(self):
        return self.ocfws(0.1) + (self.literal() if self.p(0.2) else self.dotatom()) + self.ocfws(0.1)

    def addrspec(self):
        return self.ocfws(0.1) + (self.qstring() if self.p(0.15) else self.dotatom()) + self.ocfws(0.1) + b"@" + self.domain()

    def angle(self):
        return self.ocfws(0.15) + b"<" + self.addrspec() + b">" + self.ocfws(0.15)

    def mailbox(self):
        x = self.r.random()
        if x < 0.4:
            return self.addrspec()
        if x < 0.55:
            return self.angle()
        return self.phrase() + self.ocfws(0.3) + self.angle()

    def comma(self):
        return self.ocfws(0.1) + b"," + self.ocfws(0.3)

    def mailboxes(self):
        return self.comma().join(self.mailbox() for _ in range(self.r.randint(1, 3)))

    def group(self):
        return self.phrase() + b":" + (self.pick(self.mailboxes, self.ocfws, b"")) + b";" + self.ocfws(0.2)

    def addresses(self):
        return self.comma().join(self.mailbox() if self.p(0.7) else self.group() for _ in range(self.r.randint(1, 3)))

    def msgid(self):
        right = b"[" + self.rep(lambda: self.pick(b"a", b"1.", b":", b"(", b"<"), 0, 3) + b"]" if self.p(0.25) else self.dotatom()
        return self.ocfws(0.2) + b"<" + self.dotatom() + b"@" + right + b">" + self.ocfws(0.2)

    def msgids(self):
        return self.rep(self.msgid, 1, 3)

    def date(self):
        two = lambda a, b: b"%02d" % self.r.randint(a, b)
        s = self.ofws()
        if self.p(0.4):
            s += self.pick(*DAYS) + b"," + self.ofws()
        s += self.pick(b"1", b"9", b"10", b"29", b"30", b"31", b"05") + self.fws() + self.case(self.pick(*MONTHS)) + self.fws()
        s += self.pick(b"2000", b"1999", b"2024", b"1900", b"12345", b"0001") + self.fws() + two(0, 23) + b":" + two(0, 59)
        if self.p(0.6):
            s += b":" + self.pick(b"00", b"59", b"60", b"07")
        s += self.fws() + self.pick(b"+", b"-") + self.pick(b"0000", b"0130", b"1200", b"1459", b"9959")
        return s + self.ocfws(0.3)

    def case(self, b):
        x = self.r.random()
        if x < 0.6:
            return b
        if x < 0.75:
            return b.upper()
        if x < 0.9:
            return b.lower()
        return bytes(c ^ 32 if 65 <= (c & ~32) <= 90 and self.p(0.5) else c for c in b)

    def received(self):
        def tok():
            return self.pick(self.word, self.angle, self.addrspec, self.domain, self.dotatom, lambda: b"from", lambda: b"by", lambda: b"with ESMTP id", self.cfws)
        return self.rep(tok, 1, 5, b" ") + b";" + self.date()

    def path(self):
        if self.p(0.25):
            return self.ocfws() + b"<" + self.ocfws() + b">" + self.ocfws()
        return self.angle()

    def unstructured(self):
        def item():
            x = self.r.random()
            if x < 0.4:
                return self.atext() if self.p(0.7) else b"(),:;\"\\@<>"
            if x < 0.7:
                return self.fws()
            if x < 0.71:
                return "é".encode()
            return self.encword()
        s = self.rep(item, 0, 6)
        return s

    def keywords(self):
        return self.comma().join(self.phrase() for _ in range(self.r.randint(1, 3)))

    # ------------------------------------------------ MIME
    def token(self):
        return bytes(self.r.choice(b"abcXYZ019-_!#$&+.^`{|}~") for _ in range(self.r.randint(1, 5)))

    def pvalue(self):
        return self.token() if self.p(0.55) else self.qstring()

    def extval(self, first):
        cs = self.pick(b"utf-8", b"UTF-8", b"us-ascii", b"iso-8859-1", b"iso-8859-7")
        body = self.rep(lambda: self.pick(b"a", b"%41", b"%20", b"%E9" if b"8859" in cs else b"%c3%a9", b"%25", b"b%2", b"%4", b"'"), 0, 4)
        return (cs + b"'" + self.pick(b"", b"en", b"fr-ca") + b"'" if first else b"") + body

    def param(self):
        eq = self.ocfws(0.05) + b"=" + self.ocfws(0.1)
        n = self.pick(b"a", b"name", b"Charset", b"x-y", b"b", b"NAME", self.token)
        x = self.r.random()
        if x < 0.6:
            return [n + eq + self.pvalue()]
        if x < 0.75:
            return [n + b"*" + eq + self.extval(True)]
        k = self.r.randint(1, 4)
        ext = self.p(0.6)
        ps = []
        for i in range(k):
            e = ext and (i == 0 or self.p(0.6))
            ps.append(n + b"*%d" % i + (b"*" if e else b"") + eq + (self.extval(i == 0) if e else self.pvalue()))
        self.r.shuffle(ps)
        if self.p(0.15):
            ps.pop()
        return ps

    def params(self, lo=0, hi=3, more=()):
        ps = list(more)
        for _ in range(self.r.randint(lo, hi)):
            ps += self.param()
        if self.p(0.7):
            self.r.shuffle(ps)
        return b"".join(self.ocfws(0.15) + b";" + self.ocfws(0.3) + p for p in ps) + self.ocfws(0.15)

    def ctype(self):
        return self.ocfws(0.2) + self.case(self.pick(*CTYPES)) + b"/" + self.token() + self.params()

    def disposition(self):
        more = []
        if self.p(0.6):
            more.append(self.case(b"filename") + b"=" + self.pvalue())
        for k in (b"creation-date", b"modification-date", b"read-date"):
            if self.p(0.25):
                more.append(self.case(k) + b"=\"" + self.date() + b"\"")
        if self.p(0.2):
            more.append(b"size=%d" % self.r.randint(0, 99999))
        return self.ocfws(0.2) + self.case(self.pick(b"inline", b"attachment", b"form-data", b"inlines", b"x")) + self.params(0, 2, more)

    def cte(self):
        return self.ocfws(0.2) + self.case(self.pick(b"7bit", b"8bit", b"binary", b"base64", b"quoted-printable")) + self.ocfws(0.2)

    def mimeversion(self):
        return self.ocfws() + self.pick(b"1.0", b"1.0", b"2.15", b"255.0", b"0.255") + self.ocfws()

    VALUES = {
        b"Date": "date", b"From": "mailboxes", b"Sender": "mailbox", b"Reply-To": "addresses", b"To": "addresses", b"Cc": "addresses", b"Bcc": "addresses",
        b"Message-ID": "msgid", b"In-Reply-To": "msgids", b"References": "msgids", b"Subject": "unstructured", b"Comments": "unstructured", b"Keywords": "keywords",
        b"MIME-Version": "mimeversion", b"Content-Type": "ctype", b"Content-Transfer-Encoding": "cte", b"Content-ID": "msgid", b"Content-Description": "unstructured",
        b"Content-Disposition": "disposition", b"X": "unstructured", b"Return-Path": "path", b"Received": "received", b"Resent-From": "mailboxes", b"Resent-Date": "date",
        b"Resent-To": "addresses", b"Resent-Cc": "addresses", b"Resent-Bcc": "addresses", b"Resent-Sender": "mailbox", b"Resent-Message-ID": "msgid", b"Resent-Reply-To": "addresses",
    }

    def value(self, k):
        v = getattr(self, self.VALUES[k])()
        if self.p(0.06):
            v = self.mangle(v)
        return v

    def mangle(self, v):
        """A small concrete damage: a span removed, doubled, or a special character put in."""
        if not v:
            return bytes([self.r.choice(SPECIALS)])
        i = self.r.randrange(len(v))
        j = min(len(v), i + self.r.randint(1, 4))
        x = self.r.random()
        if x < 0.4:
            return v[:i] + v[j:]
        if x < 0.6:
            return v[:j] + v[i:]
        return v[:i] + bytes([self.r.choice(SPECIALS)]) + v[i:]

    def name(self, k):
        if k == b"X":
            k = self.pick(b"X", b"X-Foo", b"DKIM-Signature", b"Subjectx", b"Fro", b"To-", b"Content-Foo", b"Content-", b"!x~", b"Dat", b"Resent-", b"Resent-Foo")
        return self.case(k) if self.p(0.3) else k

    def header(self, k, v=None):
        v = self.value(k) if v is None else v
        sp = b"" if k not in (b"Subject", b"Comments", b"X", b"Content-Description") and self.p(0.3) else b" " if self.p(0.7) else b""
        return self.name(k) + b":" + sp + v + b"\r\n"

    # ------------------------------------------------ bodies and messages
    def text(self):
        return self.rep(lambda: self.pick(b"abc", b"\r\n", b"\r\n", b" ", b"=", b"--", "é".encode(), b".", b"\t", b"x" * 20), 0, 6)

    def qpbody(self):
        return self.rep(lambda: self.pick(b"abc", b"=41", b"=\r\n", b"=3D", b"\r\n", b" ", b"=e9", b"=C3=A9", b" =\r\n", b"=", b"=4", b"\t\r\n", b"x" * 30), 0, 7)

    def b64body(self):
        e = base64.b64encode(bytes(self.r.randrange(256) for _ in range(self.r.randint(0, 8))))
        if self.p(0.4) and len(e) > 4:
            i = self.r.randrange(len(e))
            e = e[:i] + self.pick(b"\r\n", b" ", b"-", b"\r\n") + e[i:]
        return e + self.pick(b"", b"\r\n", b"=", b"QQ==")

    def body_for(self, enc, inner=None):
        enc = enc.lower()
        if b"base64" in enc:
            return base64.b64encode(inner) if inner is not None and self.p(0.9) else self.b64body()
        if b"quoted" in enc:
            return inner.replace(b"=", b"=3D") if inner is not None else self.qpbody()
        return inner if inner is not None else self.text()

    def multipart(self, d=0):
        """(parameters, body) of a multipart"""
        b = self.pick(b"xy", b"b", b"a-", b"==_x", b"0.1", b"--", b"x y", b"xyz", b"-")
        q = b"\"" + b + b"\"" if self.p(0.4) or any(c in b" =" for c in b) else b
        out = self.pick(b"", b"", b"preamble\r\n", b"\r\n", b"--x\r\n", b"a\r\n\r\nb\r\n", b" --" + b + b"\r\n")
        parts = self.r.randint(1, 3)
        for i in range(parts):
            out += (b"--" + b + b"\r\n") + self.part(d + 1) + b"\r\n"
            if self.p(0.15):
                out += self.pick(b"--" + b + b"x\r\n", b"-" + b + b"\r\n", b"--" + b[:-1] + b"\r\n", b"\r\n", b" --" + b + b"--\r\n", b"--" + b + b"-\r\n")
        if not self.p(0.05):
            out += b"--" + b + b"--"
        out += self.pick(b"", b"\r\n", b"\r\nepilogue", b"\r\n--" + b + b"\r\n\r\nx", b"\r\n--" + b + b"--\r\n", b" ", b"-")
        return b"boundary=" + q, out

    def entity(self, d=0):
        """(header list, body) describing the content"""
        h = []
        x = self.r.random()
        inner = None
        if x < (0.45 if d == 0 else 0.2 if d < 3 else 0):
            bp, inner = self.multipart(d)
            h.append(self.header(b"Content-Type", self.case(b"multipart") + b"/mixed" + self.params(0, 1, [self.case(bp[:8]) + bp[8:]])))
        elif x < 0.75:
            cs = self.pick(*CHARS)
            v = self.case(b"text") + b"/" + self.token() + self.params(0, 1, [b"charset=" + (cs if self.p(0.7) else b"\"" + cs + b"\"")])
            h.append(self.header(b"Content-Type", v))
        elif x < 0.85:
            h.append(self.header(b"Content-Type"))
        enc = b""
        if self.p(0.4):
            enc = self.cte()
            h.append(self.header(b"Content-Transfer-Encoding", enc))
        for k in (b"Content-ID", b"Content-Description", b"Content-Disposition", b"X"):
            if self.p(0.25):
                h.append(self.header(k))
        if self.p(0.7):
            self.r.shuffle(h)
        if self.p(0.1) and h:
            h.append(self.r.choice(h))
        return h, self.body_for(enc, inner)

    def part(self, d=0):
        h, b = self.entity(d)
        return b"".join(h) + b"\r\n" + b

    def traceblock(self):
        s = self.header(b"Return-Path") if self.p(0.4) else b""
        s += b"".join(self.header(b"Received") for _ in range(self.r.randint(1, 2)))
        for _ in range(self.r.randint(0, 2)):
            s += self.header(self.pick(*[k for k, _ in KINDS if k.startswith(b"Resent")]))
        return s

    def message(self, focus, nmin=1, nmax=3, trace=0.1, mime=0.0, base=True):
        """(before, focus bytes, after): the focus is where symbolic bytes go."""
        fs = [self.pick(*focus) for _ in range(self.r.randint(nmin, nmax))] if focus else []
        hs = [(k, self.header(k)) for k in fs]
        plain = [(k, h) for k, h in hs if not (k in (b"Return-Path", b"Received") or k.startswith(b"Resent"))]
        tr = [h for k, h in hs if k in (b"Return-Path", b"Received") or k.startswith(b"Resent")]
        pre = self.traceblock() if self.p(trace) or any(k.startswith(b"Resent") for k in fs) else b""
        basehs = [] if not base else [h for k, h in ((b"From", F), (b"Date", D)) if k not in fs]
        if b"From" in fs and b"Sender" not in fs and self.p(0.8):
            basehs.append(b"Sender:s@t\r\n")
        others = []
        if self.p(0.3):
            others.append(self.header(self.pick(*[k for k, _ in KINDS if k not in fs and k not in (b"From", b"Date", b"Sender", b"Received", b"Return-Path", b"Content-Type", b"Content-Transfer-Encoding") and not k.startswith(b"Resent")])))
        body = b"body" if self.p(0.3) else b""
        if mime and self.p(mime):
            h, body = self.entity()
            plain += [(b"", x) for x in h]
        self.r.shuffle(basehs)
        foc = b"".join(h for _, h in plain)
        if self.p(0.5):
            return pre, b"".join(tr), b"".join(basehs) + foc + b"".join(others) + b"\r\n" + body, foc, b"".join(basehs), b"".join(others) + b"\r\n" + body
        return pre, b"".join(tr), b"".join(others) + foc + b"".join(basehs) + b"\r\n" + body, foc, b"".join(others), b"".join(basehs) + b"\r\n" + body


SETS = [FULL, FULL, frozenset(SPECIALS), CF, frozenset(b" \r\n\ta"), frozenset(b"a.@<>,;:\"()[]")]


def place(g, t, name, entry, pre, target, post, k, sets=SETS, around=b"", **kw):
    """k symbolic bytes at random places of target: a byte replaced, a byte inserted, or a short span replaced."""
    n = len(target)
    if n == 0:
        t.add(name, entry, pre, V(g.r.choice(sets)), post, **kw)
        return
    at = sorted(set(g.r.randrange(n) for _ in range(k)))
    if g.p(0.3):
        # next to each other
        i = g.r.randrange(n)
        at = list(range(i, min(n, i + k)))
    parts, last = [pre], 0
    for j, i in enumerate(at):
        if i < last:
            continue
        parts.append(target[last:i])
        parts.append(V(sets[0] if j == 0 else g.r.choice(sets)))
        x = g.r.random()
        last = i + (1 if x < 0.6 else 0 if x < 0.9 else min(n - i, g.r.randint(2, 4)))
    parts += [target[last:], post]
    t.add(name, entry, *parts, **kw)


STRUCTK = [k for k, _ in KINDS if k not in (b"Subject", b"Comments", b"X", b"Content-Description")]
ADDRK = [b"From", b"Sender", b"Reply-To", b"To", b"Cc", b"Bcc", b"Resent-From", b"Resent-To", b"Resent-Cc", b"Resent-Bcc", b"Resent-Sender"]
FOCUS = {
    "C01": ([k for k, _ in KINDS], 0.4), "C02": ([k for k, _ in KINDS], 0.4), "C03": ([b"X", b"Subject", b"Comments", b"Content-Description"], 0.0),
    "C04": ([k for k, _ in KINDS], 0.1), "C05": ([k for k, _ in KINDS if k not in (b"Return-Path", b"Received") and not k.startswith(b"Resent")], 0.0),
    "C06": ([b"Date", b"Date", b"Resent-Date", b"Content-Disposition", b"Received"], 0.0), "C07": (ADDRK, 0.0),
    "C08": (STRUCTK, 0.0), "C09": ([b"Message-ID", b"In-Reply-To", b"References", b"Content-ID", b"Resent-Message-ID"], 0.0),
    "C10": ([b"Return-Path", b"Received"] + [k for k, _ in KINDS if k.startswith(b"Resent")], 0.0),
    "C15": ([b"Subject", b"Comments", b"Keywords", b"To", b"From", b"Content-Description"], 0.0),
    "C17": ([b"Content-Type"], 0.0), "C18": ([b"Content-Type", b"Content-Disposition"], 0.0), "C19": ([b"Content-Disposition"], 0.0),
    "C23": ([k for k, _ in KINDS], 0.3), "C24": ([k for k, _ in KINDS], 0.4), "C27": ([k for k, _ in KINDS], 0.4),
}


def avoid(b):
    l = b.lower()
    return b"gb2312" in l or b"6937" in l


def generate(t, prop, entry, count, deep):
    for i in range(count):
        g = G("%s/%d" % (prop, i))
        name = "gen%d" % i
        k = g.r.choice((1, 2, 2, 3)) if deep else g.r.choice((1, 1, 2))
        if prop == "C03" or prop == "C15":
            sets = [FULL, frozenset(b" \t\r\na"), frozenset(b"=?_ \r\nQb*")] if prop == "C15" else [FULL, frozenset(b" \t\r\na:")]
        elif prop == "C06":
            sets = [FULL, DIGIT, frozenset(b" \t\r\n():+-,0")]
        elif prop in ("C17", "C18", "C19"):
            sets = [FULL, frozenset(b";=\"( a*\r\n\\/'%0123")]
        else:
            sets = SETS
        if prop in FOCUS:
            focus, mime = FOCUS[prop]
            nmax = {"C04": 4, "C05": 4, "C10": 4}.get(prop, 2)
            pre, tr, _, foc, b, a = g.message(focus, 1, nmax, 0.15, mime)
            post = b"\r\n" + a if False else a
            if prop == "C27":
                p, q = g.pick((b"", b""), (b"\r\n", b"\r\n"), (b"From:z@z\r\n", b" x\r\n"), (b"\"(<", b")>\"\r\n\r\n"))
                whole = pre + tr + b + foc + a
                place(g, t, name, entry, bytes([len(p), len(q)]) + p, whole, q, k, sets)
            elif mime and g.p(mime):
                place(g, t, name, entry, pre + tr + b, foc + a, b"", k, sets)
            elif tr and (not foc or g.p(0.6)):
                place(g, t, name, entry, pre, tr, b + foc + a, k, sets)
            else:
                place(g, t, name, entry, pre + tr + b, foc, a, k, sets)
        elif prop in ("C11", "C12"):
            hs = b"".join(g.header(x) for x in (b"Subject", b"X", b"To") if g.p(0.4))
            body = g.text() + g.text()
            x = g.r.random()
            if prop == "C11" and g.p(0.4):
                hs += b"Content-Transfer-Encoding: " + g.case(g.pick(b"7bit", b"8bit", b"binary")) + b"\r\n"
            if prop == "C11" and g.p(0.2):
                hs += b"Content-Type: text/plain; charset=utf-8\r\n"
            place(g, t, name, entry, BP + hs, b"\r\n" + body, b"", k, [FULL, frozenset(b"\r\n a"), frozenset(b"\r\n")])
        elif prop == "C13":
            place(g, t, name, entry, b"", g.b64body() + g.b64body(), b"", k, [FULL, B64, frozenset(b"=\r\n -A/z")])
        elif prop == "C14":
            place(g, t, name, entry, b"", g.qpbody() + g.qpbody(), b"", k, [FULL, HEXD, frozenset(b"=\r\n \t4a")])
        elif prop in ("C16", "C20", "C21", "C22"):
            h, body = g.entity(0)
            if prop in ("C21", "C22") and not any(b"multipart" in x.lower() for x in h):
                bp, inner = g.multipart()
                h = [x for x in h if not x.lower().startswith(b"content-t")]
                h.append(b"Content-Type: multipart/mixed; " + bp + b"\r\n")
                body = inner
            hd = b"".join(h) + b"\r\n"
            if prop in ("C21", "C22") and g.p(0.8):
                place(g, t, name, entry, BP + hd, body, b"", k, [FULL, frozenset(b"-\r\nxyb"), frozenset(b"\r\n:; a=")])
            else:
                place(g, t, name, entry, BP, hd + body, b"", k, [FULL, frozenset(b"\r\n:; a=/"), frozenset(b"=4A\r\n -")])
