"""Reader for sclite's alignment (SGML) output."""
import re
from mc import Fail

TAG = re.compile(r'<(/?)(SYSTEM|LABEL|CATEGORY|SPEAKER|PATH)\b(.*)>\s*$')
ATTR = re.compile(r'(\w[\w+]*)="([^"]*)"')


class Path:
    __slots__ = ("attrs", "words", "speaker", "raw")

    def __init__(self, attrs, speaker):
        self.attrs, self.speaker, self.words, self.raw = attrs, speaker, [], ""


def split_words(line):
    """Split the one-line form at ':' outside quotes / unescaped."""
    out, cur, q, i = [], [], False, 0
    while i < len(line):
        c = line[i]
        if c == "\\" and i + 1 < len(line):
            cur.append(line[i:i + 2])
            i += 2
            continue
        if c == '"':
            q = not q
        if c == ":" and not q:
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def split_fields(w):
    out, cur, q, i = [], [], False, 0
    while i < len(w):
        c = w[i]
        if c == "\\" and i + 1 < len(w):
            cur.append(w[i:i + 2])
            i += 2
            continue
        if c == '"':
            q = not q
        if c == "," and not q:
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def unq(f):
    """field -> None when absent, else the text between the quotes."""
    if f == "":
        return None
    if len(f) >= 2 and f[0] == '"' and f[-1] == '"':
        return f[1:-1]
    return f


class Sys:
    __slots__ = ("attrs", "paths", "labels", "speakers")


def parse(data):
    """-> list of Sys"""
    if isinstance(data, bytes):
        data = data.decode("utf-8", "surrogateescape")
    systems, cur, spk, path = [], None, None, None
    for line in data.split("\n"):
        m = TAG.match(line)
        if path is not None and not (m and m.group(1)):
            path.raw += line
            if line != "":
                for w in split_words(line):
                    f = split_fields(w)
                    path.words.append((f[0], unq(f[1]) if len(f) > 1 else None,
                                       unq(f[2]) if len(f) > 2 else None) + tuple(f[3:]))
            continue
        if not m:
            if line.strip() == "":
                continue
            raise Fail("unexpected line in SGML alignment output: %r" % line[:200])
        end, tag, rest = m.groups()
        a = dict(ATTR.findall(rest))
        if tag == "SYSTEM" and not end:
            cur = Sys()
            cur.attrs, cur.paths, cur.labels, cur.speakers = a, [], [], []
            systems.append(cur)
        elif tag in ("LABEL", "CATEGORY") and not end:
            cur.labels.append((tag, a))
        elif tag == "SPEAKER" and not end:
            spk = a.get("id")
            cur.speakers.append(spk)
        elif tag == "PATH" and not end:
            path = Path(a, spk)
            cur.paths.append(path)
        elif tag == "PATH":
            path = None
    return systems


def counts(words):
    c = {"C": 0, "S": 0, "D": 0, "I": 0}
    for w in words:
        c[w[0]] = c.get(w[0], 0) + 1
    return c
