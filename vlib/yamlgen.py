"""YAML documents with comments: text, what the comments document (from the geometry of the text alone), and hostile variants."""
from __future__ import annotations

import ast
import re

WORDS = "the value of this key is used by every service that reads it and may change later when needed".split()
EXTRA = ["it's", "e.g.", "5%", "(optional)", "a: b", "http://host/x#y", "#5", '"quoted"', "{x}", "[1, 2]", "back\\slash", "x=1", "...", "größe", "名前", "- item", "key: value", "C#", "don't", "&amp;", "*star*", "|", ">", "!", "%d",
         "\\n", "\\", "'", '"', "Upper", "Foo. Bar", "end.", "i.e.", "?", "null", "@home", "`code`"]


def comment_text(r, tag):
    """Words of a comment; `tag` makes it unique in its document."""
    n = r.choice([0, 1, 2, 3, 5, 8, 25])
    ws = [tag]
    for _ in range(n):
        ws.insert(r.randint(0, len(ws)), r.choice(EXTRA) if r.random() < .25 else r.choice(WORDS))
    if r.random() < .2:
        ws[0] = ws[0].capitalize()
    t = " ".join(ws)
    return t + "." if r.random() < .2 else t


SCALARS = ["1", "2.5", "true", "null", "", "~", "plain", "plain words here", "it's", "Peter's dog", "don't and won't", "'single # quoted'", '"double # quoted"', "'it''s # x'", '"esc \\" # x"', "http://host:80/x#frag", "a#b", "#notacomment"[1:],
           "{flow: 1}", "[1, 2]", "{x: [1, {y: 2}]}", "[]", "{}", "2020-01-01", "'a: b'", '"a: b"', "12:30:45", "0x1F", "x - y", "-5", ".inf", ".nan", "'ends with colon:'", "a-b", "5 'o clock", 'say "hi"', "C:\\dir", "100%", "x=1", "é", "名前", "'- dash'",
           '"tab\\there"', "'\"'", '"\'"', "'''quoted'''", "a,b", "a:b", "!!str 5", "&anch 5", "{'k': 'a # b'}", "{ 'k': 'a # b', \"j\": \"c # d\" }", '{"k": "a # b"}', "['a # b']", "[ 'a # b', \"it's # x\" ]", "[a, 'b # c']", "{k: 'a # b'}", "[[ 'a # b' ], {'x # y': 1}]",
           "'it''s'", '"a\\\\"', "!!str 'a # b'", "&anc 'a # b'", "a # b"[:1], "? # x"[:0]]
MULTI = [("|", True), ("|-", True), (">", True), (">+", True), ("'first", False), ('"first', False), ("first words", None), ("{", False), ("[", False)]  # first line of a value of several lines; whether comments follow it
TEXT = ["# text", "text # text", "name: text  # text", "- item: text", "# name: text", "", "'", '"', "plain text", "k1: {", "]", "# k2: 1", "it's text", "\ttext", "k3:", "- - x", "? y"]

KEYS = ["name{}", "camelCase{}", "_p{}", "snake_case_{}", "UPPER{}", "clé{}", "名{}", "k{}", "type{}", "a{}", "B{}", "data{}"]
ODD_KEYS = ["with space {}", "da-sh{}", "{}num", "do.t{}", "co:lon{}", "sl/ash{}", "it's{}", "class", "'quo ted{}'", "q?{}", "'it''s {}'", '"esc\\\\{}"', "'# {}'", '"a: b{}"']


class Builder:
    def __init__(self, r, comments=True, rich=True):
        self.r, self.n, self.tag = r, 0, 0
        self.lines: list[str] = []
        self.keys: list[tuple[int, int, str]] = []  # (line, column, key)
        self.side: dict[int, str] = {}
        self.comments, self.rich = comments, rich
        self.step = r.choice([1, 2, 2, 2, 3, 4])
        self.gap = r.choice([1, 1, 1, 1, 2, 3])
        self.text: set[int] = set()  # lines that belong to a text of several lines
        self.mute = False
        self.hash_gap = r.choice([" ", " ", " ", "\t"])  # PyYAML takes no tabs before a comment, other loaders do
        self.zero = r.random() < .4  # lists at the indentation of their key
        self.quoted = r.random() < .15
        self.p = r.choice([.1, .3, .5, .8])

    def fresh(self):
        self.n += 1
        odd = self.r.random() < .04
        return self.r.choice(ODD_KEYS if odd else KEYS).format(self.n)

    def template(self, depth):
        r = self.r
        keys = list(dict.fromkeys(self.fresh() for _ in range(r.choice([1, 1, 2, 2, 3, 4]))))
        return ("map", [(k, self.node(depth - 1)) for k in keys])

    def node(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .45:
            if self.rich and r.random() < .08:
                return ("multi", r.choice(MULTI))
            return ("scalar", r.choice(SCALARS if self.rich else SCALARS[:8]))
        if k < .65:
            return self.template(depth)
        if k < .72:  # several values of the same shape
            t = self.template(depth)
            return ("map", [(self.fresh(), t) for _ in range(r.choice([2, 2, 3]))])
        if k < .85:
            t = self.template(depth)
            items = []
            for _ in range(r.choice([1, 2, 2, 3])):
                pairs = list(t[1])
                if r.random() < .3 and len(pairs) > 1:
                    pairs.pop(r.randrange(len(pairs)))
                items.append(("map", pairs))
            if r.random() < .2:
                items.insert(r.randint(0, len(items)), ("scalar", r.choice(["1", "x", "2.5"])))
            return ("list", items)
        return ("list", [self.node(depth - 1) for _ in range(r.choice([1, 2, 2, 3]))])

    def newtag(self):
        self.tag += 1
        return f"w{self.tag}x"

    def block(self, col, p):
        """Maybe comment lines around column `col`."""
        r = self.r
        if not self.comments or self.mute:
            return
        if r.random() < .1:
            self.lines.append(r.choice(["", " " * col, "   "]))
        if r.random() < p:
            c = col if r.random() < .85 else max(0, col + r.choice([-2, -1, 1, 2, 4]))
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                x = r.random()
                self.lines.append(" " * c + ("#" if x < .08 else "#" + r.choice([" ", " ", " ", "", "  "]) + comment_text(r, self.newtag())))
        if r.random() < .06:
            self.lines.append("")

    def sidec(self):
        r = self.r
        if not self.comments or r.random() > self.p:
            return ""
        return r.choice([" ", "  ", "  ", "     ", self.hash_gap]) + "#" + r.choice([" ", " ", " ", "", "  "]) + (comment_text(r, self.newtag()) if r.random() < .97 else "")

    def emit_multi(self, line, value, col):
        """A value of several lines, whose lines look like comments and keys."""
        r = self.r
        start, block = value
        side = self.sidec() if block else ""
        self.side[len(self.lines)] = side
        self.lines.append(line + " " + start + side)
        ind = " " * (col + r.choice([1, 2, self.step, 6]))
        n = len(self.lines)
        if block:
            body = [r.choice(TEXT) for _ in range(r.choice([1, 2, 3, 5]))]
            body[0] = r.choice([t for t in TEXT if t.strip()][:8])
            self.lines += [ind + x if x else x for x in body]
        elif start in "{[":
            body = {"{": ["fl1: 1, # text", "# text", "'fl2': 2,", "fl3: {fl4: 1}, # text", '"fl5": "a # b", # text', "", "fl6: # text", "  'x # y', # text", "fl7: [", "  'x # y', # text", "  ],", "fl8: 1 # text"],
                    "[": ["1, # text", "# text", "{fl1: 1}, # text", "'a # b',", "fl2: 1, # text", "", "[1], # text"]}[start]
            self.lines += [ind + x if x else x for x in body] + [ind + {"{": "}", "[": "]"}[start] + self.sidec()]
        elif block is None:
            self.lines += [ind + "more words" for _ in range(r.choice([1, 2]))]
            self.lines[-1] += self.sidec()
        else:
            body = [x for x in (r.choice(TEXT) for _ in range(r.choice([1, 2, 3]))) if "'" not in x and '"' not in x]
            self.lines += [ind + x if x else x for x in [*body, "end" + start[0] + self.sidec()]]
        self.text |= set(range(n, len(self.lines)))
        self.mute = True

    def emit_map(self, pairs, col, first=None):
        """`first`: text that the first line starts with (a dash)."""
        r = self.r
        for j, (key, node) in enumerate(pairs):
            prefix = first if j == 0 and first is not None else None
            if prefix is None:
                self.block(col, self.p)
                prefix = " " * col
            k = key
            if self.quoted and not k.startswith("'"):
                k = r.choice(['"{}"', "'{}'"]).format(k) if "'" not in k and '"' not in k else k
                if k[0] == '"' and k == f'"{key}"' and r.random() < .3:
                    k = f'"{key[0]}\\u{ord(key[1]):04x}{key[2:]}"'
            line = prefix + k + (" " if r.random() < .03 else "") + ":"
            self.keys.append((len(self.lines), col, key.strip("'") if key[0] == "'" else key))
            self.mute = False
            kind, body = node
            if kind == "multi":
                self.emit_multi(line, body, col)
                continue
            if kind == "scalar":
                s = self.sidec()
                body = body.replace("&an", f"&n{len(self.lines)}")
                self.side[len(self.lines)] = s
                self.lines.append((line + " " * r.choice([1, 1, 1, 3]) + body).rstrip() + s)
                self.block(col, self.p * .4)
                continue
            s = self.sidec()
            self.side[len(self.lines)] = s
            self.lines.append(line + s)
            self.block(col, self.p * .4)
            if kind == "map":
                self.emit_map(body, col + self.step)
            else:
                self.emit_list(body, col if self.zero else col + self.step)

    def emit_list(self, items, col, first=None):
        r = self.r
        for j, (kind, body) in enumerate(items):
            prefix = first if j == 0 and first is not None else None
            if prefix is None:
                self.block(col + r.choice([0, 1 + self.gap]), self.p)
                prefix = " " * col
            inner = col + 1 + self.gap
            dash = prefix + "-" + " " * self.gap
            self.mute = False
            if kind == "multi":
                self.emit_multi(prefix + "-" + " " * (self.gap - 1), body, col)
                continue
            if kind == "scalar":
                self.lines.append((dash + body.replace("&an", f"&n{len(self.lines)}")).rstrip() + self.sidec())
            elif r.random() < .12:  # on the next line
                self.lines.append(prefix + "-" + self.sidec())
                self.block(inner, self.p * .4)
                (self.emit_map if kind == "map" else self.emit_list)(body, inner)
            elif kind == "map":
                self.emit_map(body, inner, dash)
            else:
                self.emit_list(body, inner, dash)

    def document(self, depth=3):
        r = self.r
        if self.comments and r.random() < .3:
            for _ in range(r.choice([1, 2])):
                self.lines.append("# " + comment_text(r, self.newtag()))
            if r.random() < .5:
                self.lines.append("")
        if r.random() < .15:
            self.lines.append("---")
        if r.random() < .85:
            k = r.random()
            root = self.template(depth) if k < .7 else ("map", [(self.fresh(), self.node(depth)) for _ in range(r.choice([1, 2, 3]))])
            self.emit_map(root[1], 0)
        else:
            self.emit_list([self.template(depth - 1) if r.random() < .7 else self.node(depth - 1) for _ in range(r.choice([1, 2]))], 0)
        if self.comments and r.random() < .35:
            if r.random() < .4:
                self.lines.append("")
            self.lines.append(" " * r.choice([0, 0, 2]) + "# " + comment_text(r, self.newtag()))
        return "\n".join(self.lines) + r.choice(["\n", "\n", "", "\n\n"])


def run_of_comments(lines, i, step, col, text=()):
    """Texts of the comment lines aligned at `col`, directly above (-1) or below (+1) line i."""
    out = []
    j = i + step
    while 0 <= j < len(lines) and j not in text and lines[j][:col].strip() == "" and len(lines[j]) > col and lines[j][col] == "#":
        out.append(lines[j][col + 1:].strip())
        j += step
    return out[::-1] if step < 0 else out


def words(texts):
    """The words of a comment or docstring, without what formatting may change (case of first letters, final dots)."""
    if isinstance(texts, str):
        texts = [texts]
    out = []
    for t in texts:
        for w in t.split():
            w = w.rstrip(".")
            if w:
                out.append(w[0].lower() + w[1:])
    return tuple(out)


def ground_truth(b: Builder, positions):
    """{key: [words of its comments per occurrence]}; only from the lines written."""
    truth = {}
    for line, col, key in b.keys:
        ws = ()
        for pos in positions:
            if pos == "side":
                s = b.side.get(line, "").strip()
                ws += words(s[1:]) if s else ()
            else:
                ws += words(run_of_comments(b.lines, line, -1 if pos == "above" else 1, col, b.text))
        truth.setdefault(key, []).append(ws)
    return truth


def docstrings(text):
    """{key: [words of its docstring per class]} of the TypedDict classes of a generated module, and the functional keys."""
    tree = ast.parse(text)
    out = {}
    func = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.ClassDef):
            for j, st in enumerate(node.body):
                if isinstance(st, ast.AnnAssign):
                    nxt = node.body[j + 1] if j + 1 < len(node.body) else None
                    doc = nxt.value.value if isinstance(nxt, ast.Expr) and isinstance(nxt.value, ast.Constant) and isinstance(nxt.value.value, str) else ""
                    out.setdefault(st.target.id, []).append(words(doc))
        elif isinstance(node, ast.Call) and ast.unparse(node.func) == "TypedDict":
            for a in node.args:
                if isinstance(a, ast.Dict):
                    func |= {k.value for k in a.keys}
    return out, func


# ---- hostile documents
FRAGMENTS = ["key: value  # c", "# aligned", "- item  # c", "a: |\n  text # no\n  k: v # no\n  # no\n", "b: >-\n  folded # no\n\n  more: 1 # no\n", 'c: "multi\n  line: x # no\n  end"', "d: 'multi\n\n  line # no'", "e: plain\n  continued: no" [:9],
             "f: {a: 1, # c\n  b: 2} # c", "g: [1, # c\n  2, # d\n  {x: 1}] # e", "? complex # c\n: value # d", "h: &anchor # c\n  x: 1 # d", "i: *anchor # c", "j:\n  <<: *anchor # c\n  z: 1 # d", "k: !!str 5 # c", "1: int key # c", "true: bool key # c",
             "null: x # c", "~: x # c", "2020-01-01: date # c", '"quoted": 1 # c', "'it''s': 1 # c", "- - a: 1  # c", "- - - b: 1 # c\n      c: 2 # d", "-   wide: 1 # c\n    other: 2 # d", "-\n  a: 1 # c", "l:\n- x: 1 # c\n  y: 2 # d\n- x: 2", "m: {} # c", "n: [] # c",
             "o: # only comment", "p:    # c\n  - 1 # c\n  - k: 2 # d", "q: http://x # c", "- http://x # c", "- http://x:80/#y # c", "- 'a: b' # c", "- a:b # c", "r: it's # c", "s: 'x' # it's", "t: \"x # y\" # z", "u: x#y # z", "v: 5 #c\n", "w: '#' # c", "x: \"\\\"# \" # c",
             "y: a, b # c", "z: - # c"[:0], "aa: -1 # c", "bb: |2\n    indented # no\n  k: v", "cc: |+\n  keep # no\n\n", "dd: !!set {a, b} # c", "dd1: !!set\n  ? 1 # c\n  ? 2\n  # d", "dd2: !!set # c\n  ? a # d\n  ? b", "dd3: !!set\n  1: # c\n  2: # d", "dd4: !!set\n  a: # c\n  b: # d\n  1:", "dd5: !!omap\n  - a: 1 # c\n  - b: 2 # d", "dd6: !!pairs\n  - a: 1 # c\n  - a: x # d", "dd7: !!set {1: , 2: } # c", "dd8: !!map # c\n  x: 1 # d", "dd9: !!seq # c\n  - x: 1 # d", "? !!str a # c\n: !!set # d\n  2.5: # e", "ee: !!binary aGk= # c", "ff: 1_000 # c", "- # c\n  gg: 1", "hh : 1 # c", "ii:\t1 # c", "jj: 1\t# c", "a-b: 1 # c", "a b: 1 # c",
             "a: 1 # c # d", "class: 1 # c", "Ünï: 1 # c", "_p: 1 # c", "$x: 1 # c", "<<: {merged: 1} # c", "ee2:\n  |\n    name: text # c\n    # no", "-\n  |\n    name: text # c\n", "-\n  'multi\n  name: text # c\n  end'", "ee3:\n  \"multi\n   name: text # c\n   \"",
             "ee4:\n  !!str\n  |\n    name: text # c", "ee5: {\n  name: text # c\n  }", "ee6:\n  [\n  name: text, # c\n  ]", "[1, 2]: x # c", "{a: 1}: x # c"]


def hostile(r):
    """A document that may or may not load."""
    k = r.random()
    if k < .45:
        b = Builder(r)
        text = b.document()
    elif k < .8:
        ind = r.choice(["", "", "  "])
        parts = [f for f in (r.choice(FRAGMENTS) for _ in range(r.choice([1, 2, 2, 3, 4]))) if f]
        text = "\n".join(parts)
        if r.random() < .4:
            text = r.choice(["top:", "- x:", "top: # c"]) + "\n" + "\n".join((ind or " " * r.choice([2, 4])) + ln for ln in text.split("\n"))
    else:
        b = Builder(r, comments=r.random() < .5)
        text = b.document(2) + "\n" + "\n".join(f for f in (r.choice(FRAGMENTS) for _ in range(r.choice([1, 2]))) if f) + "\n"
    lines = text.split("\n")
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        a = r.random()
        i = r.randrange(len(lines))
        if a < .5:
            ind = len(lines[i]) - len(lines[i].lstrip())
            lines.insert(i, " " * max(0, ind + r.choice([0, 0, 0, 2, -2, 1])) + "#" + r.choice([" ", ""]) + comment_text(r, "w"))
        elif a < .8:
            lines[i] += r.choice(["  # ", " #", " # k: ", "\t# "]) + comment_text(r, "w")
        elif a < .9:
            lines[i] = lines[i] + r.choice([" ", "  ", "\t"])
        else:
            lines.insert(i, r.choice(["", "   ", "---", "...", "# ---", "%YAML 1.1"]))
    nl = "\n" if r.random() < .85 else r.choice(["\r\n", "\r"])
    text = nl.join(lines)
    if r.random() < .03:
        text = "\ufeff" + text
    if r.random() < .04:
        text += r.choice(["\x85", "\u2028", "# a\x0bb", "# \x0c", "\n# \x85 nel: 1 # x"])
    return text


POSITIONS = [None, "side", "above", "below", ("side",), ["above"], ("above", "side"), ("side", "above"), ["below", "side"], ["side", "below"], ("below",), ()]


def positions(p):
    return () if p is None else (p,) if isinstance(p, str) else tuple(p)


assert re
