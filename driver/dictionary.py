"""Words and numbers for the workloads, taken from the tree under test.

Behaviour that hangs on one particular header name, word, status or size is out of reach of random
inputs. As fuzzers do with the constants of their target, the generators use the literals of the
sources as ingredients of requests and declarations: those that are not in `known_tokens.json`
(the literals of the tree the checks were written against, whose meaning the generators know
anyway). This only adds inputs; what is right or wrong is decided by the oracles alone.
"""
import http, json, os, re, sys
from collections import Counter

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_tokens.json")
TOKEN = re.compile(r'''
    (?P<comment>//[^\n]*|/\*.*?\*/)
  | b?r(?P<hashes>\#*)"(?P<raw>.*?)"(?P=hashes)
  | b?"(?P<str>(?:\\.|[^"\\])*)"
  | b?'(?P<chr>\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'
  | '[A-Za-z_]\w*
  | (?P<num>\b[0-9][0-9a-zA-Z_]*(?:\.[0-9]+)?)
  | (?P<word>[A-Za-z_]\w*)
''', re.X | re.S)
STATUS = {x.name: x.value for x in http.HTTPStatus}
STATUS.update(IM_A_TEAPOT=418, PAYLOAD_TOO_LARGE=413, URI_TOO_LONG=414, RANGE_NOT_SATISFIABLE=416, MISDIRECTED_REQUEST=421, UNPROCESSABLE_ENTITY=422, LOOP_DETECTED=508, NOT_EXTENDED=510)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def one(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            return chr(int(x[2:-1].replace("_", ""), 16))
        return ESC.get(x[0], "") if x[0] != "\n" else ""
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", one, s, flags=re.S)


def tokens(repo):
    """The literals (and constants named in upper case) of the sources, with their number of occurrences."""
    c = Counter()
    for top in ("src", os.path.join("derive", "src")):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(d, f), errors="replace") as h:
                    text = h.read()
                for m in TOKEN.finditer(text):
                    if m.group("raw") is not None:
                        c["s" + m.group("raw")] += 1
                    elif m.group("str") is not None:
                        c["s" + unescape(m.group("str"))] += 1
                    elif m.group("chr") is not None:
                        c["s" + unescape(m.group("chr"))] += 1
                    elif m.group("num") is not None:
                        c["n" + m.group("num")] += 1
                    elif m.group("word") is not None and re.fullmatch(r"[A-Z][A-Z0-9]*(_[A-Z0-9]+)*", m.group("word")) and len(m.group("word")) > 1:
                        c["c" + m.group("word")] += 1
    return c


def number(t):
    t = re.sub(r"_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)$", "", t.replace("_", ""))
    try:
        return int(t, 0) if t[:2].lower() in ("0x", "0o", "0b") else int(t)
    except ValueError:
        return None


def fresh(repo):
    """(words, numbers) that the known tree does not have."""
    with open(KNOWN) as h:
        known = Counter(json.load(h))
    words, numbers, status = [], [], []
    for t in sorted((tokens(repo) - known)):
        kind, t = t[0], t[1:]
        if kind == "n":
            n = number(t)
            if n is not None:
                numbers.append(n)
            continue
        if kind == "c":
            words += [t, t.lower(), t.lower().replace("_", "-")]
            if t in STATUS:
                status.append(STATUS[t])
            continue
        words.append(t)
        numbers += [int(x) for x in re.findall(r"(?<![\w.])\d{1,7}(?![\w.])", t)]
        if not t.isascii() and all(ord(x) < 256 for x in t):
            # perhaps bytes
            try:
                words.append(t.encode("latin-1").decode())
            except UnicodeDecodeError:
                pass
        parts = [p for p in re.split(r"[^\w%.\-]+", t) if len(p) > 1 and p != t]
        # a message's words mean nothing
        if len(parts) <= 4:
            words += parts
    # products and powers, as in `8 * 1024` or `1 << 16`
    small = numbers[:12]
    numbers += [a * b for a in small for b in small + [1024] if a > 1 and b > 1]
    numbers += [1 << n for n in small if 4 <= n <= 20]
    numbers = sorted({n for n in numbers + status if 1 < n < 1 << 23})
    words = sorted({w for w in words if 0 < len(w) <= 200})
    return words, numbers


def write(repo, path):
    words, numbers = fresh(repo)
    with open(path, "w") as h:
        for w in words:
            h.write("s %s\n" % w.encode("utf-8", "surrogatepass").hex())
        for n in numbers:
            h.write("n %d\n" % n)
    return words, numbers


if __name__ == "__main__":
    repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    if sys.argv[1] == "learn":
        with open(KNOWN, "w") as h:
            json.dump(dict(sorted(tokens(repo).items())), h, indent=0, ensure_ascii=True)
            h.write("\n")
    else:
        print(fresh(repo))
