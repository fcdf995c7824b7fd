"""Reading the diagnostics the compiler prints and checking them against the source."""
import re

HEAD = re.compile(r"^(error|warning|note): (.*)$")
LOC = re.compile(r"^  in (.*):(\d+):(\d+)(?: \(to (\d+):(\d+)\))?$")


class Diag:
    def __init__(self, kind, msg, file=None, b=None, e=None, quote=()):
        self.kind, self.msg, self.file, self.b, self.e, self.quote = kind, msg, file, b, e, list(quote)

    def __repr__(self):
        return "%s: %s @%s %s-%s" % (self.kind, self.msg, self.file, self.b, self.e)


def parse(text):
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = HEAD.match(lines[i])
        if not m:
            i += 1
            continue
        d = Diag(m.group(1), m.group(2))
        out.append(d)
        i += 1
        while i < len(lines) and not LOC.match(lines[i]) and not HEAD.match(lines[i]) and lines[i] and "Compilation" not in lines[i]:
            d.msg += "\n" + lines[i]
            i += 1
        m = i < len(lines) and LOC.match(lines[i])
        if m:
            d.file = m.group(1)
            d.b = (int(m.group(2)), int(m.group(3)))
            d.e = (int(m.group(4)), int(m.group(5))) if m.group(4) else d.b
            i += 1
            while i < len(lines) and re.match(r"^ *(\d+ \||\||\.\.\.)", lines[i]):
                d.quote.append(lines[i])
                i += 1
    return out


def quote(src, b, e):
    """the lines the compiler prints under a diagnostic about src[b:e]"""
    ls = src.split("\n")

    def line(r):
        return ls[r - 1] if r - 1 < len(ls) else ""
    n = len(str(e[0]))
    q = [" " * (n + 1) + "|", "%s%d |%s" % (" " * (n - len(str(b[0]))), b[0], line(b[0]))]
    m = " " * (n + 1) + "|" + " " * (b[1] - 1)
    if b[0] == e[0]:
        return q + [m + "^" * (e[1] - b[1])]
    q.append(m + "^" * (len(line(b[0])) - b[1] + 1))
    if b[0] + 1 < e[0]:
        q.append(" " * n + "...")
    return q + ["%d |%s" % (e[0], line(e[0])), " " * (n + 1) + "|" + "^" * (e[1] - 1)]


def misplaced(d, src, file):
    """why a diagnostic about `file` does not fit its source (None when it does)"""
    if d.file is None or not d.file.endswith(file):
        return None
    ls = src.split("\n")
    for r, c in (d.b, d.e):
        if not (1 <= r <= len(ls)) or not (1 <= c <= len(ls[r - 1]) + 2):
            return "position %d:%d is not in the file" % (r, c)
    if d.e < d.b:
        return "ends before it begins"
    if "\0" not in src:
        q = quote(src, d.b, d.e)
        if [x.rstrip() for x in d.quote] != [x.rstrip() for x in q]:
            return "quotes\n%s\nbut the source there is\n%s" % ("\n".join(d.quote), "\n".join(q))
    return None
