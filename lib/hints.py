"""A dictionary for the random documents: the literals of the current sources which the sources this
specification was written for do not have (literals.json). It only makes some texts, numbers and sizes
more frequent; what a document means is decided by the specification alone.
"""
import json
import os
import re

from verif import REPO

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")
BITS = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63}
TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?'(?P<c>[^'\\]|\\(?:[^xu]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))'"""
                   r"""|(?P<n>(?<![\w.])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?!\w))"""
                   r"""|\b(?P<max>[ui](?:8|16|32|64|size))::(?:MAX|MIN)\b|\bas\s+(?P<cast>[ui](?:8|16|32|64|size))\b|(?P<word>[A-Za-z_]\w*)""", re.S | re.X)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", "\"": "\""}


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)

    def one(m):
        t = m.group(1)
        if t[0] == "x":
            return chr(int(t[1:], 16))
        if t[0] == "u":
            return chr(int(t[2:-1].replace("_", ""), 16))
        return ESC.get(t, t)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, s, flags=re.S)


def number(t):
    t = re.sub(r"[ui](8|16|32|64|128|size)$", "", t).replace("_", "")
    return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)


def literals(repo=None):
    """Multisets of the strings, characters and numbers of the sources, tests left out."""
    r = {"strings": {}, "numbers": {}}

    def add(kind, v):
        r[kind][v] = r[kind].get(v, 0) + 1
    for base, dirs, files in os.walk(os.path.join(repo or REPO, "src")):
        for f in sorted(files):
            if not f.endswith((".rs", ".lalrpop")):
                continue
            text = open(os.path.join(base, f), encoding="utf-8", errors="replace").read().split("#[cfg(test)]")[0]
            seq = []
            for m in TOKEN.finditer(text):
                if m.group("raw") is not None:
                    add("strings", m.group("raw"))
                elif m.group("s") is not None or m.group("c") is not None:
                    try:
                        add("strings", unescape(m.group("s") if m.group("s") is not None else m.group("c")))
                    except (ValueError, OverflowError):
                        pass
                elif m.group("n"):
                    v = number(m.group("n"))
                    add("numbers", v)
                    seq.append((m.start(), m.end(), v))
                elif m.group("max") or m.group("cast"):
                    add("numbers", 2 ** BITS[m.group("max") or m.group("cast")])
            # simple products and shifts
            for (_, e, x), (s, _, y) in zip(seq, seq[1:]):
                op = text[e:s].strip()
                if op == "*":
                    add("numbers", x * y)
                elif op == "<<" and y < 64:
                    add("numbers", x << y)
    return {k: {str(v): n for v, n in d.items()} for k, d in r.items()}


def new():
    """(strings, numbers) which are new, in a fixed order; at most a few dozen."""
    try:
        base, now = json.load(open(BASE)), literals()
    except Exception:       # sources this cannot make sense of: no dictionary
        return [], []
    s = [v for v, n in now["strings"].items() if n > base["strings"].get(v, 0)]
    k = [int(v) for v, n in now["numbers"].items() if n > base["numbers"].get(v, 0)]
    return sorted(s)[:40], sorted(set(k))[:24]


if __name__ == "__main__":
    with open(BASE, "w") as f:
        json.dump(literals(), f, indent=0, sort_keys=True)
        f.write("\n")
