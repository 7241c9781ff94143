"""Random documents, heavy-tailed, for the validation of recorded runs.

They only have to be various: what a document means is decided by the specification
(spec/Trace.tla), never here.
"""
import random

WORDS = ["a", "b", "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "fuzzy", "file", "Open", "%s", "%d items",
         "Language", "nplurals=2; plural=n!=1;", "# x", "#~", "#|", "domain", "n", "C:\\new\\table", "say \"hi\"", "x y  z", "http://a/b#c?d=e&f"]
ODD = ["\\", "\"", "\n", "\t", "\r", "n", "t", "r", "\\n", "\\\\", "\\\"", "\u00e9", "\u65e5\u672c", "\U0001f600", "\u00a0", "\u2028",
       "\u0085", "\ufeff", "e\u0301", "\x0b", "\x0c", "\x00", "\x7f", "#", "~", "|", ":", ";", "=", "[", "]", "'", "\u2018", "\u202f", "\x1c",
       "\u017f", "\u212a", "\u0130", "\ufb01", "\u00df", "\u01c5", "\u0663", "\uff10", "\u200b", "\u200e", "\u2060", "\u2066", "\u2068", "\u2069", "\u202a", "\u202c", "\u201c", "\u201d", "\U0010ffff", "\x1b", "\x08", "\u0301", "$", "^", "(", ")", "*", "?", "{", "}", ",", ".", "/", "%", "&", "<", "!"]
WHITE = ["\t", " ", "  ", "\x0b", "\x0c", "\r", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2005", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", " \t "]
KINDS = ["Other", "UnexpectedEof", "WouldBlock", "InvalidData", "BrokenPipe", "TimedOut", "ConnectionReset", "NotFound",
         "PermissionDenied", "InvalidInput", "WriteZero", "OutOfMemory", "Unsupported", "ConnectionAborted", "AlreadyExists"]
DECLS = ["nplurals=2; plural=n != 1;", "nplurals=1; plural=0;", "nplurals=2; plural=n>1;",
         "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
         "nplurals=3; plural=n==1 ? 0 : n==0 || (n%100>0 && n%100<20) ? 1 : 2;",
         "nplurals=4; plural=n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3;",
         "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5;",
         "nplurals=12; plural=n;", "nplurals=12; plural=n%12;", "nplurals=3; plural=2-n;", "nplurals=3; plural=-n;", "nplurals=5;plural=n/2;",
         "plural=n;", "nplurals=3;", "nplurals=0; plural=n;", "nplurals=18446744073709551615; plural=n*n;", "nplurals=30; plural=n;"]
BAD_DECLS = ["nplurals=2", "nplurals=2; plural=n", "plural", ";", "nplurals=x; plural=n;", "nplurals=-1; plural=n;", "nplurals=2; plural=n=1;",
             "nplurals=2; plural=(n;", "nplurals=18446744073709551616; plural=n;", "nplurals=1.5;", "=;", "nplurals==2;", "plural=n n;",
             "nplurals=2; plural=9223372036854775808;", "nplurals=2; plural=m;"]
LANGS = ["en", "fr", "FR", "pt_BR", "pt-BR", "zh_Hant_TW", "zh-Hant-TW", "sr@latin", "sr_RS@latin", "de_DE.UTF-8", "ca@valencia", "C", "POSIX",
         "", "x", "english", "xx-klingon", "en_US.utf8@euro", "i-klingon", "*", "*-DE", "fx42", "1", "en_", "_US", "en_USA", "es_419", "a_b", "en us",
         "uz_UZ@cyrillic", "aa_ER@saaho", "\u00e9\u00e8", "be@tarask", "sl-rozaj-biske-1994", "de-CH-1996", "zh-cmn-Hans-CN", "en-u-nu-latn", "x-private",
         "en@abcdefg\u212ah", "\u017fr", "en@\u017fhaw", "\u212aa", "sr@lat\u0131n", "\uff45\uff4e", "fr\u00a0FR", "fr_FR\u200b",
         "en_US.", "en.", "en@", "C.UTF-8", "c", "Posix.utf-8", "POSIX_US"]
NUMBERS = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 19, 20, 21, 99, 100, 101, 102, 111, 112, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 99999,
           2**30 - 1, 2**30, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**53 - 1, 2**53, 2**53 + 1, 2**62, 2**63 - 2, 2**63 - 1,
           2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1, 10**18, 10**19]


def word(n):
    """A 64-bit number as the specification represents it."""
    n &= 2**64 - 1
    s = n - 2**64 if n >= 2**63 else n
    return [s] if -2**30 <= s < 2**30 else list(n.to_bytes(8, "little"))


FLAGS = ["fuzzy", "fuzzy", "c-format", "no-wrap", "range: 0..5", "Fuzzy", "", " fuzzy", "fuzzyx", "no-c-format", "python-format"]
PROPS = ["Project-Id-Version: x 1", "K: v", "k:v", "K:  w  ", "no colon", "", ": v", "A:b:c", "X-\"q\": \\", "\u00e9: \u00e8", "MIME-Version: 1.0",
         "Content-Type: text/plain; charset=UTF-8", "K:", "Language-Team: x", "language: xx", "Plural-forms: nplurals=9; plural=n;", " Language-Code :zz"]
MARKS = list("!=@$%&~|\u20ac+-0aZ\"")


class Gen:
    def __init__(self, seed, hints=None):
        self.r = random.Random(seed)
        self.words, self.odd, self.langs, self.flags, self.props, self.marks, self.numbers, self.small = WORDS, ODD, LANGS, FLAGS, PROPS, MARKS, NUMBERS, []
        if hints:
            strings, numbers = hints
            strings = [x for x in strings if 0 < len(x) < 400 and not any(0xd800 <= ord(c) < 0xe000 for c in x)] or [str(v) for v in numbers][:6]
            chars = [x for x in strings if len(x) <= 3] + [c for x in strings for c in sorted(set(x)) if not c.isalnum()]
            more = lambda l, x: l + x * max(1, len(l) // (2 * len(x))) if x else l
            self.words, self.odd = more(WORDS, strings), more(ODD, chars)
            self.langs = more(LANGS, [x for x in strings if "\n" not in x])
            self.flags = more(FLAGS, [x.replace("\n", " ") for x in strings])
            self.props = more(PROPS, [y for x in strings for y in (x.replace("\n", " ") + ": v", "K: " + x.replace("\n", " "), x.replace("\n", " "))])
            self.marks = more(MARKS, [x for x in strings if len(x) == 1 and x not in "\n\r"])
            self.small = [w for v in numbers for w in (v - 1, v, v + 1) if 0 <= w < 2**64]
            self.numbers = more(NUMBERS, self.small)

    def p(self, x):
        return self.r.random() < x

    def pick(self, l):
        return self.r.choice(l)

    def count(self, often, most):
        """Small numbers mostly, sometimes large ones."""
        return self.r.randint(0, often) if self.p(0.85) else self.r.randint(0, most)

    # -- texts
    def text(self, big=True):
        x = self.r.random()
        if x < 0.12:
            return ""
        if x < 0.5:
            return self.pick(self.words)
        if x < 0.94 or not big:
            return "".join(self.pick(self.odd if self.p(0.5) else self.words) for _ in range(self.r.randint(1, 5)))
        if x < 0.98:
            return "".join(self.pick(self.odd + self.words) for _ in range(self.r.randint(20, 60)))
        n = self.pick([255, 256, 257, 1000, 1024, 4096, 8191, 8192, 8193, 9000])
        c = self.pick(["x", "\u00e9", "\\", "\"", "ab "])
        return (c * n)[:n] if self.p(0.7) else "y" + (c * n)[:n] + "z"

    def escape(self, s):
        t = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\"": "\\\"", "\\": "\\\\"}
        raw = self.p(0.15)                # odd but readable: raw tabs, unknown escapes
        out = []
        for c in s:
            if raw and self.p(0.1):
                c2 = self.any_char()
                if c2 not in "nrt\"\\\n":
                    out.append("\\" + c2)
            if raw and c == "\t":
                out.append(c)
            elif raw and c == "\\" and self.p(0.5):
                out.append("\\" + self.pick("qxabfv0'"))
            else:
                out.append(t.get(c, c))
        return out

    def any_char(self):
        x = self.r.random()
        if x < 0.7:
            return chr(self.r.randint(32, 126))
        if x < 0.9:
            return self.pick(self.odd)[0]
        c = self.r.randint(0, 0x10ffff) if self.p(0.3) else self.r.randint(0, 0x3000)
        return chr(c) if not 0xd800 <= c < 0xe000 else "?"

    def string(self, mark, kw, s):
        """Lines of a string: keyword and pieces."""
        cs = self.escape(s)
        pieces = [[]]
        x = self.r.random()
        rate = 0 if x < 0.6 else 0.1 if x < 0.85 else 0.4
        if len(cs) > 300:
            rate = min(rate, 0.01)
        if x > 0.7 and x < 0.8:
            pieces.append([])
        for c in cs:
            pieces[-1].append(c)
            if self.p(rate):
                pieces.append([])
        m = "" if not mark else "#" + mark + self.pick(["", " ", " ", " ", "\t "])
        res = []
        for i, q in enumerate(pieces):
            sep = self.pick([" ", " ", " ", " ", "", "  ", "\t"])
            res.append(self.dress(m + (kw + sep if i == 0 else "") + "\"" + "".join(q) + "\""))
        return res

    def dress(self, l):
        if self.p(0.93):
            return l
        return self.pick(WHITE + [""] * 6) + l + self.pick(WHITE + [""] * 6)

    def comment(self):
        c = self.comment0()
        return self.pick(WHITE + [""] * 8) + c + self.pick(WHITE + ["\r"] * 4) if self.p(0.06) else c

    def comment0(self):
        x = self.r.randint(0, 11)
        t = self.text(False).replace("\n", " ").replace("\r", " ")
        if x <= 2:
            fs = [self.pick(self.flags)
                  for _ in range(self.r.randint(1, 4))]
            sep = self.pick([", ", ",", " , "]) if self.p(0.85) else self.pick(WHITE) + "," + self.pick(WHITE)
            return "#," + self.pick([" ", "", "  "]) + sep.join(fs)
        if x <= 4:
            return "#:" + self.pick([" ", ""]) + (self.pick([" ", "  ", "\t"]) if self.p(0.85) else self.pick(WHITE)).join(self.ref(i) for i in range(self.count(3, 40)))
        if x <= 6:
            return "#. " + t
        if x <= 8:
            return "# " + t
        if x == 9:
            return "#" + (self.pick(self.marks) if self.p(0.6) else self.any_char().replace("\n", "!")) + self.pick(["", " "]) + t
        if x == 10:
            return self.pick(["#", "# ", "#.", "#,", "#:", "#~", "#|", "#~|", "##", "# \"quoted\"", "# msgid \"z\"", "#. msgstr \"z\"", "#\"q\"", "#, \"fuzzy\""])
        return "#" + t

    def ref(self, i):
        r = "f%d.c:%d" % (i, self.pick(self.numbers))
        return r if self.p(0.9) else self.pick([self.pick(self.odd), ""]).strip() + r + self.pick(self.odd).strip()

    def layout(self):
        """Lines between entries."""
        x = self.r.random()
        if x < 0.7:
            return [""]
        if x < 0.85:
            return []
        if x < 0.98:
            return [self.pick(["", " ", "\t", "\u00a0 "]) for _ in range(self.r.randint(1, 4))]
        return [""] * self.pick([30, 100, 300])

    def entry(self, nforms, k):
        """Lines of an entry."""
        obs = self.p(0.15)
        m, pm = ("~", "~|") if obs else ("", "|")
        out = []
        for _ in range(self.count(2, 8) if self.p(0.7) else 0):
            out.append(self.comment())
        if self.p(0.15):
            out += self.string(pm, "msgctxt", self.text(False))
        if self.p(0.2):
            out += self.string(pm, "msgid", self.text(False))
            if self.p(0.4):
                out += self.string(pm, "msgid_plural", self.text(False))
        if self.p(0.3):
            out += self.string(m, "msgctxt", self.text(False))
        src = self.text() or "src"
        if self.p(0.7):
            src += str(k)
        out += self.string(m, "msgid", src)
        if self.p(0.35):
            out += self.string(m, "msgid_plural", self.text(False))
            n = nforms if self.p(0.7) else self.r.randint(1, max(1, nforms))
            for i in range(min(n, 40)):
                out += self.string(m, "msgstr[%d]" % i, self.text(False) if self.p(0.8) else "")
        else:
            out += self.string(m, "msgstr", self.text())
        return out

    def header(self, decl=None, lang=None):
        """Lines, number of forms."""
        lines, n = [], 2
        for _ in range(self.count(2, 4)):
            c = self.comment()
            lines.append(c)
        props = []
        for _ in range(self.count(3, 12)):
            props.append(self.pick(self.props))
        if lang is None and self.p(0.6):
            lang = self.pick(self.langs)
        if lang is not None:
            props.append("Language:" + self.pick([" ", "", "  "]) + lang)
        if decl is None and self.p(0.6):
            decl = self.pick(DECLS)
        if decl is not None:
            props.append("Plural-Forms:" + self.pick([" ", "", "  "]) + decl)
            i = decl.find("nplurals=")
            d = ""
            for c in decl[i + 9:] if i >= 0 else "":
                if not c.isdigit():
                    break
                d += c
            n = min(int(d or "2"), 12)
        self.r.shuffle(props)
        if self.p(0.1):
            lines += self.string("", "msgctxt", "ctx")
        t = "".join(x + "\n" for x in props)
        if self.p(0.2):
            t = t[:-1]
        lines += self.string("", "msgid", "")
        # one piece per property, mostly
        if self.p(0.7):
            lines.append("msgstr \"\"")
            for x in t.split("\n"):
                lines.append("\"" + "".join(self.escape(x + "\n")) + "\"")
        else:
            lines += self.string("", "msgstr", t)
        return lines, n

    def catalogue(self, often=5, most=40, decl=None, lang=None, header=None):
        lines, n = [], 2
        if header is None:
            header = decl is not None or lang is not None or self.p(0.7)
        if header:
            lines, n = self.header(decl, lang)
        for k in range(self.count(often, most)):
            if lines:
                lines += self.layout()
            lines += self.entry(n, k)
        if self.p(0.3):
            lines += self.layout() + [self.comment() for _ in range(self.r.randint(0, 2))]
        return lines

    # -- alterations
    def alter(self, lines):
        """Something wrong, somewhere."""
        l = list(lines)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            if not l:
                break
            i = self.r.randrange(len(l))
            x = self.r.randint(0, 11)
            if x == 0:
                del l[i]
            elif x == 1:
                l.insert(i, l[self.r.randrange(len(l))])
            elif x == 2:
                j = self.r.randrange(len(l))
                l[i], l[j] = l[j], l[i]
            elif x == 3:
                l.insert(i, self.pick(["msgid \"z\"", "msgstr \"z\"", "msgstr[0] \"z\"", "msgstr[1] \"z\"", "msgstr[7] \"z\"", "msgctxt \"z\"",
                                       "msgid_plural \"z\"", "\"z\"", "#~ \"z\"", "#| \"z\"", "#| msgid \"z\"", "#~ msgid \"z\"", "#~| msgid \"z\"", "msgid \"\""]))
            elif x == 4:
                l.insert(i, self.pick(["z", "domain \"x\"", "msgid z", "msgid \"z", "z\"", "\"", "msgstr[01] \"z\"", "msgstr[] \"z\"", "msgstr[99999999999999999999] \"z\"",
                                       "msgstr[4294967296] \"z\"", "msgid_plurals \"z\"", "msgstr [0] \"z\"", "msgid \"z\" z", "\u00e9", "'msgid' \"z\"", "\\\"z\"", "msgid \"z\\\""]))
            elif x == 5:
                l.insert(i, self.comment())
            elif x == 6:
                l[i] = l[i][:-1]
            elif x == 7:
                l[i] = l[i][1:]
            elif x == 8:
                l[i] = self.pick(["#~ ", "#| ", "#~| ", "# ", "#"]) + l[i]
            elif x == 9 and l[i]:
                j = self.r.randrange(len(l[i]))
                l[i] = l[i][:j] + self.pick(list("\"\\#~|[]0 nm") + self.odd[:8]) + l[i][j + 1:]
            elif x == 10 and l[i]:
                j = self.r.randrange(len(l[i]))
                l[i] = l[i][:j] + l[i][j + 1:]
            else:
                l.insert(i, "")
        return l

    # -- bytes
    def to_bytes(self, lines, eol=None):
        if eol is None:
            eol = "\n" if self.p(0.8) else "\r\n"
        mixed = self.p(0.03)
        t = ""
        for l in lines:
            t += l.replace("\n", " ") + (self.pick(["\n", "\r\n"]) if mixed else eol)
        if self.p(0.2):
            t = t[:-len(eol)] if t else t
        return t.encode("utf-8")


def segs(b):
    out = []
    i = 0
    while i < len(b):
        j = b.find(b"\n", i)
        j = len(b) if j < 0 else j + 1
        out.append(list(b[i:j]))
        i = j
    return out


class Makers:
    """One per property: documents in which what the property is about happens often."""

    def __init__(self, seed, hints=None):
        self.g = Gen(seed, hints)
        self.n = 0

    def doc(self, b, **kw):
        self.n += 1
        d = {"id": self.n, "segs": segs(b), "fault": [], "probes": [[0], [1], [2]]}
        if self.g.p(0.3):
            d["probes"].append(word(self.g.pick([3, 5, 11, 100, 255, 256, 1000, 65536, 2**31, 2**32 + 1, 2**63, 2**64 - 1])))
        if self.g.small and self.g.p(0.5):
            d["probes"] += [word(self.g.pick(self.g.small)) for _ in range(2)]
        d.update(kw)
        return d

    def sizes(self):
        g = self.g
        x = g.r.randint(0, 5)
        if x == 0:
            return [1]
        if x == 1:
            return [1, 0]
        if x == 2:
            return [g.r.randint(1, 9) for _ in range(g.r.randint(1, 5))]
        if x == 3:
            return [g.r.randint(0, 3) for _ in range(g.r.randint(2, 6))] + [1]
        if x == 4:
            return [g.pick([8191, 8192, 8193, 4096, 100])]
        return [0, 0, g.r.randint(1, 200), 0]

    def fault(self):
        return [{"kind": self.g.pick(KINDS), "msg": [ord(c) for c in self.g.pick(["lost", "x", "gone \u00e9", "at line 3", "end of file"])]}]

    def plain(self, **kw):
        return self.doc(self.g.to_bytes(self.g.catalogue(**kw)))

    def broken(self):
        g = self.g
        return self.doc(g.to_bytes(g.alter(g.catalogue())))

    def cut(self):
        g = self.g
        b = g.to_bytes(g.catalogue(header=True))
        return self.doc(b[:g.r.randint(0, len(b))])

    def failing(self):
        g = self.g
        b = g.to_bytes(g.catalogue() if g.p(0.8) else g.alter(g.catalogue()))
        k = g.r.randint(0, len(b))
        if g.p(0.3):
            return self.doc(b[:k] + bytes([g.pick([0x80, 0xff, 0xc0, 0xe2, 0xf5, 0xed, 0xf0])]) + b[k:])
        d = self.doc(b[:k], fault=self.fault())
        if g.p(0.5):
            d["poison"] = list(g.pick([b"\n", b"\nmsgid \"p\"\nmsgstr \"p\"\n", b[k:]]))
        if g.p(0.5):
            d["sizes"] = self.sizes()
        return d

    def chunked(self):
        g = self.g
        x = g.r.random()
        d = self.plain() if x < 0.6 else self.broken() if x < 0.8 else self.failing()
        d["sizes"] = self.sizes()
        return d

    def plural(self):
        g = self.g
        lines, n = g.header(decl=g.pick(DECLS))
        for k in range(g.r.randint(1, 4)):
            m = g.pick([n, n, n, n - 1, n + 1, 1, 12])
            lines += ["", "msgid \"s%d\"" % k, "msgid_plural \"p%d\"" % k]
            for i in range(max(m, 1)):
                j = i
                if g.p(0.03):
                    j = i + g.pick([1, -1, 2])
                lines.append("msgstr[%d] \"%s\"" % (j, g.pick(["", "t%d" % i, "x"])))
        return self.doc(g.to_bytes(lines), probes=[word(g.pick(g.numbers)) for _ in range(12)])

    def decl(self):
        g = self.g
        x = g.r.random()
        if x < 0.3:
            d = g.pick(DECLS)
        elif x < 0.5:
            d = g.pick(BAD_DECLS)
        elif x < 0.75:
            d = list(g.pick(DECLS + BAD_DECLS))
            for _ in range(g.r.randint(1, 3)):
                i = g.r.randint(0, len(d))
                y = g.r.randint(0, 2)
                if y == 0:
                    d.insert(i, g.pick(" ;=n1x\t:\u00a0"))
                elif d and y == 1:
                    d[i % len(d)] = g.pick(" ;=n1x:")
                elif d:
                    del d[i % len(d)]
            d = "".join(d)
        else:
            key = lambda: g.pick(["nplurals", "plural", "x", "nplurals ", " plural", "n plurals", "Plural", "plural=", ""])
            val = lambda: g.pick(["1", "2", "3", "n", "n!=1", "", "0", "+3", "007", "-1", "n>1", " n ", "a b", "18446744073709551615", "99999999999999999999", "x;y"])
            d = "".join(g.pick(["", " ", "  "]) + key() + g.pick(["=", " =", "= ", "=="]) + val() + g.pick([";", ";", "; ", " ;", ""])
                        for _ in range(g.r.randint(1, 4)))
        lines, _ = g.header(decl=d)
        if g.p(0.1):
            lines.append("\"Plural-Forms: " + g.pick(["plural=n;", "nplurals=4;", "; plural=0;"]) + "\\n\"")
        lines += ["", "msgid \"s\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\"", "", "msgid \"x\"", "msgstr \"y\""]
        return self.doc(g.to_bytes(lines), probes=[[0], [1], [2], [5]])

    def lang(self):
        g = self.g
        x = g.r.random()
        if x < 0.4:
            l = g.pick(g.langs)
        elif x < 0.7:
            l = list(g.pick(g.langs))
            for _ in range(g.r.randint(1, 3)):
                i = g.r.randint(0, len(l))
                y = g.r.randint(0, 2)
                if y == 0:
                    l.insert(i, g.pick("-_.@aAzZ09 *\u00e9\u017f\u212a"))
                elif l and y == 1:
                    l[i % len(l)] = g.pick("-_.@aAzZ09 *\u00e9\u017f\u212a")
                elif l:
                    l[i % len(l)] = l[i % len(l)].swapcase()
            l = "".join(l)
        else:
            part = lambda: "".join(g.pick("abcdexyzABXYZ0129") for _ in range(g.pick([1, 2, 2, 3, 4, 5, 8, 9, 20, 21])))
            l = part()
            if g.p(0.5):
                l += g.pick("-_") + part()
            for _ in range(g.pick([0, 0, 0, 1, 2, 5])):
                l += "-" + part()
            if g.p(0.3):
                l += "." + g.pick(["UTF-8", "utf8", "ISO-8859-1", part()])
            if g.p(0.3):
                l += "@" + g.pick(["latin", "cyrillic", "euro", "valencia", "ije", "shaw", "iqtelif", "ijekavian", "ijekavianlatin", "arabic", "devanagari", "hebrew", "saaho", part()])
        lines, _ = g.header(lang=l)
        if g.p(0.1):
            lines.append("\"Language: fr\\n\"")
        lines += ["", "msgid \"s\"", "msgstr \"p\""]
        return self.doc(g.to_bytes(lines))

    # -- formulas
    def literal(self):
        g = self.g
        if g.small and g.p(0.3):
            return str(g.pick(g.small))
        return str(g.pick(NUMBERS[:48] if g.p(0.4) else NUMBERS[:12]))

    def expr(self, d):
        g = self.g
        x = g.r.random()
        if d == 0 or x < 0.15:
            return "n" if g.p(0.5) else self.literal()
        s = g.pick(["", " "])
        if x < 0.65:
            op = g.pick(["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "||", "&&"])
            return "(" + self.expr(d - 1) + ")" + s + op + s + "(" + self.expr(d - 1) + ")" if g.p(0.3) else \
                self.expr(d - 1) + s + op + s + self.expr(d - 1)
        if x < 0.75:
            return "(" + self.expr(d - 1) + s + "?" + s + self.expr(d - 1) + s + ":" + s + self.expr(d - 1) + ")"
        if x < 0.8:
            return self.expr(d - 1) + s + "?" + s + self.expr(d - 1) + s + ":" + s + self.expr(d - 1)
        if x < 0.88:
            return g.pick(["!", "not "]) + self.expr(d - 1)
        if x < 0.95:
            return "-(" + self.expr(d - 1) + ")" if g.p(0.6) else "-" + self.expr(d - 1)
        return "(" + self.expr(d - 1) + ")"

    def mangle(self, s):
        g = self.g
        l = list(s)
        for _ in range(g.r.randint(1, 2)):
            i = g.r.randint(0, len(l))
            y = g.r.randint(0, 2)
            t = g.pick(["+", "-", "*", "(", ")", "?", ":", "!", "n", "1", "=", "==", "|", "&", "&&", "or", "and", "not", " ", "x", "<", "\u00a0", "\u0663"])
            if y == 0:
                l.insert(i, t)
            elif l and y == 1:
                l[i % len(l)] = t
            elif l:
                del l[i % len(l)]
        return "".join(l)

    def long_expr(self):
        """Many operators in a row, or nested."""
        g = self.g
        n = g.pick([10, 17, 33, 65, 100, 130, 257])
        x = g.r.randint(0, 4)
        if x == 0:
            return "".join(self.expr(1) + g.pick(["+", "-", "*", "/", "%", "==", "<", "&&", "||", " or ", " and "]) for _ in range(n // 2)) + "n"
        if x == 1:
            return "".join("n==%d?%d:" % (i, i + g.r.randint(0, 1)) for i in range(n // 2)) + self.expr(1)
        if x == 2:
            return "".join("(" + g.pick(["n", "1", "3", "7"]) + g.pick("+-*/%") for _ in range(n // 3)) + "n" + ")" * (n // 3)
        if x == 3:
            return "".join(g.pick(["-(", "!(", "("]) for _ in range(n // 3)) + "n" + ")" * (n // 3)
        return g.pick(["+", "-", "||"]).join(["n%%%d" % g.r.randint(1, 9) for _ in range(n // 2)])

    def formula(self, bad):
        g = self.g
        e = self.expr(g.pick([1, 2, 2, 3, 3, 4, 5, 6])) if g.p(0.97) else self.long_expr()
        if bad:
            e = self.mangle(e)
        e = e.replace(";", "").replace("\\", "")
        if g.p(0.3):
            e = "-(" + e + ")-1"
        n = g.pick(["18446744073709551615", "18446744073709551615", "9223372036854775807", "3", "2"])
        lines = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=%s; plural=%s;\\n\"" % (n, e), "", "msgid \"s\"", "msgid_plural \"p\"",
                 "msgstr[0] \"a\"", "msgstr[1] \"b\"", "msgstr[2] \"c\""]
        return self.doc(("\n".join(lines) + "\n").encode(), probes=[word(g.pick(g.numbers) if g.p(0.8) else g.r.getrandbits(64)) for _ in range(10)])

    def junk(self):
        """Bytes without much sense."""
        g = self.g
        x = g.r.random()
        if x < 0.3:
            b = bytes(g.r.randint(0, 255) if g.p(0.3) else ord(g.pick("msgidtr[]\"\\#~|, .:\n\n01")) for _ in range(g.r.randint(0, 200)))
        elif x < 0.7:
            toks = ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "\"\"", "\"a\"", "\"\\\\\"", "\"\\\"\"", " ", "\n", "\n", "\n", "#", "#~", "#|", "#~|",
                    "#,", "#.", "#:", "fuzzy", "\r\n", "\t", "\u00e9", "\"a:b\\n\"", "\"Plural-Forms: nplurals=1; plural=n;\\n\"", "\x00", "\ufeff"]
            b = "".join(g.pick(toks) for _ in range(g.r.randint(0, 80))).encode()
        else:
            l = g.alter(g.alter(g.catalogue()))
            b = bytearray(g.to_bytes(l))
            for _ in range(g.count(3, 30)):
                if b:
                    i = g.r.randrange(len(b))
                    if g.p(0.5):
                        b[i] = g.r.randint(0, 255)
                    else:
                        del b[i]
            b = bytes(b)
        d = self.doc(b, probes=[word(g.pick(g.numbers)) for _ in range(4)])
        if g.p(0.3):
            d["fault"] = self.fault()
        if g.p(0.3):
            d["sizes"] = self.sizes()
        return d

    BIG = ["entries", "mixed", "conts", "lines", "comments", "notes", "forms", "props", "long", "esc", "flags", "refs", "obsolete", "plurals", "errline", "faultline", "emptyline"]

    # of which each property gets most
    BIG_FOR = {"C01": ["entries", "mixed", "plurals", "obsolete", "long"], "C02": ["conts", "long", "esc", "esc"], "C03": ["mixed", "plurals", "entries"],
               "C04": ["comments", "notes", "flags", "refs"], "C05": ["lines", "comments", "long"], "C06": ["entries", "flags", "notes", "plurals"],
               "C07": ["obsolete", "obsolete", "mixed"], "C08": ["props", "long"], "C09": ["props"], "C10": ["forms", "plurals"],
               "C11": ["forms", "forms", "plurals"], "C12": ["plurals"], "C13": ["plurals"], "C14": ["faultline", "faultline", "long"], "C15": ["errline", "faultline", "entries"],
               "C16": ["errline", "errline", "lines"], "C17": ["emptyline", "emptyline", "entries"], "C18": ["long", "mixed", "esc"], "C19": ["entries", "mixed", "lines"],
               "C20": ["conts", "entries", "forms"], "C22": ["mixed", "long", "esc", "forms"], "C23": ["errline", "faultline", "emptyline"], "C24": ["entries", "plurals"]}

    LATE = {"C14", "C15", "C16", "C17", "C23"}      # a line number is reported

    def big_for(self, prop):
        """The first ones are among the largest, and of the kind that matters most."""
        g = self.g
        if prop in self.LATE and self.n < 5:
            return self.big(self.BIG_FOR[prop][0], 70000)
        kinds = self.BIG_FOR[prop]
        kind = kinds[self.n] if self.n < len(kinds) else g.pick(kinds if g.p(0.5) else self.BIG)
        return self.big(kind, 70000 if self.n == 0 else None)

    def big(self, kind=None, size=None):
        """Documents far larger than the others, made of repetitions."""
        g = self.g
        kind = kind or g.pick(self.BIG)
        size = size or g.pick([9000, 12000, 17000, 20000, 34000])
        head = ["msgid \"\"", "msgstr \"\"", "\"K: v\\n\"", "\"Plural-Forms: nplurals=3; plural=n%3;\\n\"", ""] if g.p(0.8) else []
        end = ["", "msgid \"last\"", "msgstr \"one\"", ""]
        kw = {}
        out = list(head)

        def fill(unit, lines=None, limit=None):
            n, k = 0, 0
            lines = out if lines is None else lines
            while n < size and (limit is None or k < limit):
                u = unit(k)
                lines += u
                n += sum(len(x) + 1 for x in u)
                k += 1
            return k
        if kind == "entries":
            fill(lambda k: ["msgid \"m%d\"" % k, "msgstr \"%s\"" % g.pick(["", "x", "y\\n"]), ""])
        elif kind == "mixed":
            fill(lambda k: g.entry(3 if head else 2, k) + [""])
        elif kind == "plurals":
            fill(lambda k: ["msgid \"m%d\"" % k, "msgid_plural \"p%d\"" % k] + ["msgstr[%d] \"%s%d\"" % (i, g.pick(["", "x"]), i) for i in range(g.r.randint(1, 3 if head else 2))] + [""])
        elif kind == "obsolete":
            fill(lambda k: [g.pick(["", "#, fuzzy"]), "#~ msgid \"m%d\"" % k, "#~ msgstr \"x\"", ""] if g.p(0.8) else ["msgid \"n%d\"" % k, "msgstr \"y\""])
        elif kind == "conts":
            out += ["msgid \"m\"", "msgstr \"\""]
            fill(lambda k: ["\"%d%s\"" % (k, "c" * g.r.randint(0, 30))], limit=1100)
        elif kind == "lines":
            fill(lambda k: [g.pick(["", "", " ", "\t"])])
            out += ["msgid \"m\"", "msgstr \"m\""]
            end = g.pick([end, ["msgid \"a\"", "msgid_plural \"b\"", "bad"], ["msgctxt \"z\"", "msgstr \"z\""], ["# note", "msgstr \"z\""]])
        elif kind == "comments":
            fill(lambda k: [g.comment()], limit=1100)
            end = ["msgid \"c\"", "msgstr \"\""] + end
        elif kind == "notes":
            fill(lambda k: [g.pick(["# n%d", "#. n%d", "#: f:%d", "#, fuzzy", "#! %d", "#"]) .replace("%d", str(k))], limit=1100)
            end = ["msgid \"c\"", "msgstr \"\""] + end
        elif kind == "flags":
            fs = []
            fill(lambda k: ["f%d" % k if g.p(0.99) else "fuzzy"], fs, limit=1100)
            out += ["#, " + ", ".join(fs), "msgid \"c\"", "msgstr \"t\""]
        elif kind == "refs":
            fs = []
            fill(lambda k: ["file%d.c:%d" % (k, k * k)], fs, limit=1100)
            out += ["#: " + " ".join(fs), "msgid \"c\"", "msgstr \"t\""]
        elif kind == "forms":
            n = g.pick([10, 11, 12, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257, 300])
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=%d; plural=n;\\n\"" % (n + g.pick([0, 0, 0, -1, 1])), "",
                   "msgid \"m\"", "msgid_plural \"p\""] + ["msgstr[%d] \"t%d\"" % (i, i) for i in range(n)]
            kw["probes"] = [word(x) for x in [0, 1, 9, 10, 11, n - 2, n - 1, n, n + 1, 255, 256]]
        elif kind == "props":
            out = ["msgid \"\"", "msgstr \"\""]
            fill(lambda k: ["\"%s: v%d\\n\"" % (g.pick(["K%d" % k, "K", "L", "Language", "X-%d" % (k % 7)]), k)], limit=700)
        elif kind in ("long", "esc"):
            n = g.pick([8150, 8192, 9000, 16384, 20000, 32768, 65536]) + g.r.randint(-60, 60)
            c = g.pick(["x", "\u00e9", "\u65e5\u672c", "ab ", "\U0001f600"]) if kind == "long" else g.pick(["\\n", "\\\\", "\\\"", "\\q", "x\\t"])
            t = "y" * g.r.randint(0, 4) + c * (n // len(c))
            out += g.pick([["msgid \"%s\"" % t, "msgstr \"u\""], ["msgid \"m\"", "msgstr \"%s\"" % t], ["# %s" % t.replace("\\", ""), "msgid \"m\"", "msgstr \"u\""],
                           ["#, " + t.replace("\\", "") + ", fuzzy", "msgid \"m\"", "msgstr \"u\""], ["msgctxt \"\"", "\"%s\"" % t, "msgid \"m\"", "msgstr \"u\""]])
        else:
            # a line number beyond the usual powers
            n = g.pick([127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 10001, 32768, 65535, 65536, 65537]) if size < 60000 else g.pick([65535, 65536, 65537, 70000, 99999, 100000])
            while len(out) < n - 3:
                out.append(g.pick(["", "# c"]) if len(out) % 50 == 1 else "")
            if kind == "errline":
                end = g.pick([["msgid \"a\"", "msgid_plural \"b\"", "msgid \"c\""], ["bad"], ["msgid \"a\"", "\"x\"", "# c"], ["msgctxt \"a\"", "msgstr \"b\""], ["\"c\""]])
            elif kind == "emptyline":
                end = ["# c"] * g.r.randint(0, 2) + ["msgid \"\"", "msgstr \"b\""]
                out[:0] = head or ["msgid \"h\"", "msgstr \"h\""]
            else:
                kw["fault"] = self.fault()
                end = g.pick([[], ["msgid \"a\"", "msgstr \"b\"", ""], ["msgid \"a\""], ["# c"]])
        out += end
        if g.p(0.1) and "fault" not in kw:
            kw["fault"] = self.fault()
        if g.p(0.5):
            kw["sizes"] = self.sizes()
        return self.doc(g.to_bytes(out), **kw)

    SIZED = ["chars", "bytes", "text", "conts", "entries", "skipped", "comments", "notes", "flags", "refs", "forms", "declared", "count", "term", "props", "repeated", "header", "line", "fault",
             "reads", "lang", "nest", "obsolete", "escapes", "tags"]

    def sized(self, kind, v):
        """A document which has v of something."""
        g = self.g
        head = ["msgid \"\"", "msgstr \"\"", "\"K: v\\n\"", "\"Plural-Forms: nplurals=3; plural=n%3;\\n\"", ""] if g.p(0.8) else []
        end = ["", "msgid \"last\"", "msgid_plural \"l\"", "msgstr[0] \"one\"", "msgstr[1] \"\"", ""]
        few, many = v <= 1200, v <= 70000
        kw, out = {}, list(head)
        field = lambda t: g.pick([["msgid \"%s\"" % t, "msgstr \"u\""], ["msgid \"m\"", "msgstr \"%s\"" % t], ["msgctxt \"%s\"" % t, "msgid \"m\"", "msgstr \"u\""],
                                  ["#| msgid \"%s\"" % t, "msgid \"m\"", "msgstr \"u\""], ["#| msgctxt \"%s\"" % t, "msgid \"m\"", "msgstr \"u\""],
                                  ["msgid \"m\"", "msgid_plural \"%s\"" % t, "msgstr[0] \"u\"", "msgstr[1] \"v\""],
                                  ["msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"%s\"" % t, "msgstr[1] \"v\""],
                                  ["#~ msgid \"%s\"" % t, "#~ msgstr \"u\""]])
        entry = lambda k: g.pick([["msgid \"m%d\"" % k, "msgstr \"x\"", ""], ["msgid \"m%d\"" % k, "msgstr \"\"", ""], ["#, fuzzy", "msgid \"m%d\"" % k, "msgstr \"x\"", ""],
                                  ["#~ msgid \"m%d\"" % k, "#~ msgstr \"x\"", ""], ["msgid \"m%d\"" % k, "msgid_plural \"p\"", "msgstr[0] \"y\"", ""]])
        if kind == "chars" and many:
            out += field(g.pick(["x", "\u00e9", "a b", "\\n"]) * v if v <= 30000 else "x" * v)
        elif kind == "bytes" and many:
            t = ("\u00e9" * v).encode()[:v].decode("utf-8", "ignore")
            out += field(t + "x" * (v - len(t.encode())))
        elif kind == "text" and many:
            out += [g.pick(["# ", "#. ", "#, ", "#: ", "#! "]) + "x" * v, "msgid \"m\"", "msgstr \"u\""]
        elif kind == "conts" and few:
            i = g.r.randint(0, 1)
            out += ["msgid \"m\""] * i + ["msgid \"m\"", "msgstr \"\""][i:i + 1] + ["\"%d\"" % k for k in range(v)] + ["msgstr \"u\""][:1 - i]
        elif kind == "entries" and v <= 2500:
            for k in range(v):
                out += entry(k)
        elif kind == "skipped" and many:
            out += [g.pick(["", " "])] * v + ["msgid \"m\"", "msgstr \"u\""]
        elif kind == "comments" and few:
            out += [self.g.comment() for _ in range(v)] + ["msgid \"m\"", "msgstr \"u\""]
        elif kind == "notes" and few:
            c = g.pick(["# n%d", "#. n%d", "#! n%d", "#: f%d"])
            out += [c % k for k in range(v)] + ["msgid \"m\"", "msgstr \"u\""]
        elif kind == "flags" and few:
            fs = ["f%d" % k for k in range(v - 1)] + ["fuzzy"]
            out += (["#, " + ", ".join(fs)] if g.p(0.5) else ["#, " + f for f in fs]) + ["msgid \"m\"", "msgstr \"u\""]
        elif kind == "refs" and few:
            out += ["#: " + " ".join("f.c:%d" % k for k in range(v)), "#: g:%d" % v, "msgid \"m\"", "msgstr \"u\""]
        elif kind == "forms" and v <= 400:
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=%d; plural=n;\\n\"" % (v + g.pick([0, 0, 1, -1]) if v else 1), "", "msgid \"m\"", "msgid_plural \"p\""]
            out += ["msgstr[%d] \"t%d\"" % (i, i) for i in range(v)]
        elif kind == "declared":
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=%d; plural=%s;\\n\"" % (v, g.pick(["n", "n+%d" % v, "%d-n" % v, "n==%d" % v, "n%%%d" % max(v, 1)])), "",
                   "msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\"", "msgstr[2] \"c\""]
        elif kind == "count":
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=4; plural=%s;\\n\"" % g.pick(["n-%d" % (v - 1), "n==%d" % v, "n>%d" % v, "n/%d" % max(v, 1), "n%%%d" % max(v, 1), "n!=1"]), "",
                   "msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\"", "msgstr[2] \"c\""]
        elif kind == "term" and v <= 300:
            e = g.pick(["+".join(["n"] * v), "n" + "==n" * v, "".join("n==%d?%d:" % (i, i) for i in range(v)) + "0", "||".join(["n==%d" % i for i in range(v)])])
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=9; plural=%s;\\n\"" % e, "", "msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\""]
        elif kind == "nest" and v <= 300:
            e = g.pick(["(" * v + "n" + ")" * v, "-(" * v + "n" + ")" * v, "!(" * v + "n" + ")" * v, "n+(" * v + "1" + ")" * v])
            out = ["msgid \"\"", "msgstr \"Plural-Forms: nplurals=9; plural=%s;\\n\"" % e, "", "msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\""]
        elif kind == "props" and v <= 700:
            out = ["msgid \"\"", "msgstr \"\""] + ["\"K%d: v%d\\n\"" % (k, k) for k in range(v)]
        elif kind == "repeated" and v <= 700:
            c = g.pick(["K", "Language"])
            out = ["msgid \"\"", "msgstr \"\""] + ["\"%s: v%d\\n\"" % (c, k) for k in range(v)]
        elif kind == "header" and v <= 20000:
            out = ["msgid \"\"", "msgstr \"K: %s\\n\"" % ("v" * v), "\"%s: w\\n\"" % ("k" * v)]
        elif kind == "line" and v <= 100000:
            out += [""] * (v - len(out) - 1)
            end = g.pick([["bad"], ["msgstr \"x\""], ["msgctxt \"a\"", "msgstr \"b\""], ["\"c\""], ["msgid \"\"", "msgstr \"x\""], ["# c", "msgid \"m\"", "# d"]])
        elif kind == "fault" and v <= 100000:
            t = ""
            k = 0
            while len(t) < v:
                t += g.pick(["\n", "msgid \"m%d\"\nmsgstr \"x\"\n\n" % k, "# c\n"]) if v < 20000 or not t else "\n" * (v // 2)
                k += 1
            return self.doc(t.encode()[:v], fault=self.fault())
        elif kind == "reads" and v <= 100000:
            for k in range(60):
                out += entry(k)
            kw["sizes"] = [max(v, 1)] if g.p(0.5) else [max(v, 1), 1, 0]
        elif kind == "lang" and v <= 5000:
            out = ["msgid \"\"", "msgstr \"Language: %s\\n\"" % g.pick(["e" * v, "en-" + "a" * v, "en" + "-abcde" * v, "en_US@" + "x" * v])]
        elif kind == "obsolete" and v <= 2500:
            for k in range(v):
                out += ["#~ msgid \"m%d\"" % k, "#~ msgstr \"x\"", ""]
        elif kind == "escapes" and v <= 20000:
            out += field(g.pick(["\\n", "\\\\", "\\\"", "\\q", "\\t"]) * v)
        elif kind == "tags" and v <= 10**6:
            out += ["msgid \"m\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[%d] \"b\"" % v]
        else:
            return None
        out += end
        kw["probes"] = [[0], [1]] + [word(max(0, v + i)) for i in (-1, 0, 1)]
        return self.doc(g.to_bytes(out), **kw)

    def sizes_for(self, numbers, most):
        """Documents of these sizes and of those next to them, up to a number of bytes."""
        l = [(k, v + i) for v in numbers for k in self.SIZED for i in (-1, 0, 1) if v + i >= 0]
        self.g.r.shuffle(l)
        l.sort(key=lambda x: x[1] > 20000)
        docs = []
        for k, v in l:
            d = self.sized(k, v) if v < 2**63 else None
            n = sum(len(x) for x in d["segs"]) if d else 0
            if d and n <= most:
                docs.append(d)
                most -= n
        return docs

    def multi(self):
        """Several readers of one parser, their calls mixed."""
        g = self.g
        pool = []
        for _ in range(g.r.randint(1, 4)):
            while True:
                d = g.pick([self.plain, self.plain, self.broken, self.failing, self.headers, self.plural, self.decl, self.cut, self.lang])()
                if sum(len(x) for x in d["segs"]) < 1500:
                    break
            pool.append(d)
        if g.p(0.5):
            pool.append(dict(pool[0], segs=self.variant(pool[0]["segs"])))
        docs = [dict(g.pick(pool)) for _ in range(g.r.randint(2, 5))]
        k = len(docs)
        style = g.r.randint(0, 2)
        sched = []
        if style == 0:            # one after another
            for i in range(k):
                sched += [i + 1] * g.r.randint(1, 12)
        else:
            for _ in range(g.r.randint(4, 14 * k)):
                i = g.r.randint(1, k)
                sched += [i] * (1 if style == 1 else g.r.randint(1, 3))
                if g.p(0.05):
                    sched.append(-g.r.randint(1, k))
        few = [v for v in g.small if 0 < v <= 300]
        if few and g.p(0.3):          # opened again and again
            sched = [1, 1, -1] * g.pick(few) + sched
        self.n += 1
        return {"id": self.n, "op": "multi", "docs": docs, "schedule": sched}

    def use(self, prop):
        """A document and what a user does with it."""
        g = self.g
        d = g.pick([self.plain, self.plain, self.plural, self.broken, self.failing, self.headers, self.nosource, self.cut])()
        few = [v for v in g.small if v <= 130] + [v for v in g.small if 130 < v <= 400 and g.p(0.05)]
        if few and g.p(0.3):
            d = self.sized(g.pick(["entries", "obsolete", "forms", "notes", "chars", "conts"]), g.pick(few)) or d
        if g.p(0.3):
            d["sizes"] = self.sizes()
        if prop == "C25":
            d["probes"] = [[0], [1], [2]] + [word(g.pick([3, 5, 11, 21, 100, 255, 256, 500, 1000, 65536, 10**6, 2**31, 2**32 + 1, 2**63, 2**64 - 1])) for _ in range(3)]
        acts = []

        def add(a, k=0):
            acts.append({"a": a, "k": k})
        if prop == "C25":
            held = 0
            for _ in range(g.r.randint(2, 30)):
                x = g.r.random()
                if x < 0.4 or not held:
                    k = g.pick([1, 1, 2, 3])
                    add("take", k) if g.p(0.5) else add("next")
                    held += k
                elif x < 0.7:
                    k = g.r.randint(1, held)
                    for _ in range(g.pick(few) if few and g.p(0.1) else 1):
                        add("ask", k)
                elif x < 0.85:
                    add("clone", g.r.randint(1, held))
                    held += 1
                elif x < 0.95:
                    add("release", g.r.randint(1, held))
                else:
                    add("drop")
            add(g.pick(["drop", "rest"]))
            for k in range(1, min(held, 40) + 1):
                add("ask", k)
        else:
            for _ in range(g.r.randint(0, 12)):
                a = g.pick(["next", "dyn", "hint", "nth", "take"])
                add(a, g.pick([0, 0, 1, 1, 2, 3, 5, 9] + few) if a in ("nth", "take") else 0)
            add(g.pick(["rest", "rest", "fold", "count", "last"]))
        d["op"] = "use"
        d["acts"] = acts
        return d

    def variant(self, sg):
        """Almost the same document."""
        sg = [list(x) for x in sg]
        for _ in range(self.g.r.randint(1, 3)):
            if sg:
                i = self.g.r.randrange(len(sg))
                x = sg[i]
                j = [k for k in range(len(x)) if 97 <= x[k] <= 122 or 48 <= x[k] <= 57]
                if j:
                    k = self.g.pick(j)
                    x[k] = self.g.pick([x[k] ^ 1, 97, 49])
        return sg

    def headers(self):
        g = self.g
        lines, n = g.header()
        lines += [""] + g.entry(n, 0) + [""] + g.entry(n, 1)
        return self.doc(g.to_bytes(lines))

    def nosource(self):
        g = self.g
        lines = g.catalogue(header=True)
        for k in range(g.r.randint(1, 3)):
            m = g.pick(["", "", "#~ "])
            e = [g.comment()] if g.p(0.4) else []
            if g.p(0.3):
                e.append((m[:2] + "| " if m else "#| ") + "msgid \"%s\"" % g.pick(["", "old"]))
            if g.p(0.4):
                e.append(m + "msgctxt \"c\"")
            e.append(m + "msgid \"\"")
            if g.p(0.3):
                e.append(m + "\"\"")
            if g.p(0.5):
                e += [m + "msgid_plural \"%s\"" % g.pick(["", "p"]), m + "msgstr[0] \"x\""]
            else:
                e.append(m + "msgstr \"%s\"" % g.pick(["", "x"]))
            lines += [""] + e
        lines += [""] + g.entry(2, 9)
        return self.doc(g.to_bytes(lines))

    MIX = {
        "C01": [("plain", 6)], "C02": [("plain", 6)], "C03": [("plain", 6)], "C04": [("plain", 5), ("headers", 1)], "C05": [("plain", 6)],
        "C06": [("plain", 6)], "C07": [("plain", 3), ("broken", 3)], "C08": [("headers", 5), ("plain", 1)], "C09": [("lang", 6)],
        "C10": [("decl", 6)], "C11": [("plural", 6)], "C12": [("formula_bad", 3), ("formula", 3)], "C13": [("formula", 6)],
        "C14": [("failing", 6)], "C15": [("broken", 3), ("failing", 2), ("nosource", 1)], "C16": [("broken", 6)], "C17": [("nosource", 6)],
        "C18": [("chunked", 6)], "C19": [("plain", 5), ("broken", 1)], "C20": [("cut", 6)], "C21": [("multi", 1)],
        "C22": [("junk", 5), ("formula", 1), ("plural", 1), ("lang", 1), ("decl", 1)], "C23": [("broken", 3), ("failing", 2), ("nosource", 1), ("decl", 1)], "C24": [("plain", 5), ("plural", 1)],
    }

    def make(self, prop):
        if prop in ("C25", "C26"):
            return self.use(prop)
        kinds = self.MIX[prop]
        x = self.g.r.random()
        if x < 0.2 and prop != "C21":           # and a bit of everything
            k = self.g.pick(["plain", "broken", "failing", "cut", "chunked", "headers", "junk", "plural", "nosource", "decl", "lang"])
        else:
            k = self.g.r.choices([a for a, _ in kinds], [b for _, b in kinds])[0]
        if k == "formula_bad":
            return self.formula(True)
        if k == "formula":
            return self.formula(False)
        return getattr(self, k)()
