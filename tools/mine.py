#!/usr/bin/env python3
"""Collects the strings and numbers that occur in the sources of the code under test, as workload vocabulary.

usage: mine.py OUT [--baseline]
A value that does not occur in the tree that was reviewed (data/baseline_dict.txt) is marked hot: workloads use it more
often. This only steers the generators; no verdict depends on it.
Lines: 'w text' / 'n number', upper-case letter if hot. With --baseline, writes the reviewed tree's values.
"""
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SKIP = {"bison_parser.cpp", "bison_parser.h", "flex_lexer.cpp", "flex_lexer.h"}
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\\": "\\", '"': '"', "'": "'"}
TOKEN = re.compile(r"""
    (?P<c>/\*.*?\*/|//[^\n]*)
  | (?P<raw>R"(?P<d>[^(\s"]{0,16})\((?P<rs>.*?)\)(?P=d)")
  | (?P<s>"(?:[^"\\\n]|\\.)*")
  | (?P<ch>'(?:[^'\\\n]|\\.)+')
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
  | (?P<n>0[xX][0-9a-fA-F']+|0[bB][01']+|[0-9][0-9']*(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?)
""", re.X | re.S)


def unescape(s):
    def rep(m):
        t = m.group(1)
        if t[0] == "x":
            return chr(int(t[1:], 16) & 255)
        if t[0] in "01234567":
            return chr(int(t, 8) & 255)
        return ESC.get(t, t)
    return re.sub(r"\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)", rep, s, flags=re.S)


def scan(text):
    words, nums = set(), set()
    seq = []
    pos_end = 0
    for m in TOKEN.finditer(text):
        if m.group("c") is not None:
            continue
        gap = text[pos_end:m.start()]
        pos_end = m.end()
        v = None
        if m.group("raw") is not None:
            words.add(m.group("rs"))
        elif m.group("s") is not None:
            words.add(unescape(m.group("s")[1:-1]))
        elif m.group("ch") is not None:
            c = unescape(m.group("ch")[1:-1])
            words.add(c)
            if len(c) == 1:
                nums.add(ord(c))
        elif m.group("n") is not None:
            t = m.group("n").replace("'", "")
            try:
                if t[:2].lower() == "0x":
                    v = int(t[2:], 16)
                elif t[:2].lower() == "0b":
                    v = int(t[2:], 2)
                elif len(t) > 1 and t[0] == "0" and t.isdigit() and set(t) <= set("01234567"):
                    v = int(t, 8)
                    nums.add(int(t, 10))
                else:
                    v = int(float(t)) if not t.isdigit() else int(t)
                    if not t.isdigit():
                        words.add(t)
            except (ValueError, OverflowError):
                v = None
            if v is not None and v < 2**64:
                nums.add(v)
                words.add(str(v))
        seq.append((gap.strip(), v))
    # small constant expressions: a << b, a * b
    for (_, a), (g, b) in zip(seq, seq[1:]):
        if a is None or b is None:
            continue
        if g.startswith(("<<", "U <<", "u <<", "L <<", "l <<", "ull <<", "ULL <<", "ul <<", "UL <<")) and b < 64:
            nums.add((a << b) & (2**64 - 1))
        elif g in ("*", "u *", "U *", "UL *", "ull *", "ULL *") and a * b < 2**64:
            nums.add(a * b)
    return words, nums


def collect(root):
    words, nums = set(), set()
    for d, _, names in os.walk(os.path.join(root, "src")):
        for n in sorted(names):
            if n in SKIP or not n.endswith((".cpp", ".h", ".y", ".l", ".hpp", ".inc", ".sh")):
                continue
            with open(os.path.join(d, n), encoding="latin-1") as f:
                t = f.read()
            w, k = scan(t)
            words |= w
            nums |= k
            if n.endswith((".y", ".l")):  # tokens of grammar and lexer rules
                words |= set(re.findall(r"\b[A-Z][A-Z0-9_]{1,}\b", re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)))
    ok = {w for w in words if w and len(w) < 200 and not any(c in w for c in "\n\r\0")}
    return ok, nums


def load(path):
    out = set()
    if os.path.exists(path):
        with open(path, encoding="latin-1", newline="\n") as f:
            for l in f:
                if len(l) > 2:
                    out.add(l.rstrip("\n").lower()[0] + l.rstrip("\n")[1:])
    return out


def write(path, base):
    words, nums = collect(REPO)
    lines = ["w " + w for w in sorted(words)] + ["n %d" % n for n in sorted(nums)]
    hot = 0
    with open(path, "w", encoding="latin-1", newline="\n") as f:
        for l in lines:
            if base is not None and l not in base:
                l = l[0].upper() + l[1:]
                hot += 1
            f.write(l + "\n")
    return len(lines), hot


if __name__ == "__main__":
    if "--baseline" in sys.argv:
        print(write(sys.argv[1], None))
    else:
        print(write(sys.argv[1], load(os.path.join(VERIF, "data", "baseline_dict.txt"))))
