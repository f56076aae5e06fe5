"""Reads the DOT documents planus draws (the DOT language: statements, attribute
lists, quoted and HTML strings) and judges them with spec/GraphJudge.tla."""
import re, struct
import xml.etree.ElementTree as ET
from projlib import *

WORD = re.compile(r"[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)")


class Bad(Exception):
    pass


def tokens(s):
    at = 0
    while at < len(s):
        ch = s[at]
        if ch.isspace():
            at += 1
        elif ch == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(s, at)
            if not m:
                raise Bad("open string")
            yield "str", m.group(1)
            at = m.end()
        elif ch == "<":
            depth, k = 0, at
            while True:
                if k >= len(s):
                    raise Bad("open HTML string")
                depth += (s[k] == "<") - (s[k] == ">")
                k += 1
                if depth == 0:
                    break
            yield "html", s[at + 1:k - 1]
            at = k
        elif s.startswith("->", at):
            yield "op", "->"
            at += 2
        elif ch in "{}[];:,=":
            yield "op", ch
            at += 1
        else:
            m = WORD.match(s, at)
            if not m:
                raise Bad("character %r" % ch)
            yield "id", m.group(0)
            at = m.end()


class Graph:
    def __init__(self, text):
        self.t = list(tokens(text)) + [("end", "")]
        self.at = 0
        self.nodes, self.edges = {}, []
        if self.word() != "digraph":
            raise Bad("no digraph")
        if self.t[self.at][0] != "op":
            self.word()
        self.op("{")
        while not self.has("}"):
            self.statement()
        if self.t[self.at][0] != "end":
            raise Bad("text behind the graph")

    def peek(self, o):
        return self.t[self.at] == ("op", o)

    def has(self, o):
        if self.peek(o):
            self.at += 1
            return True
        return False

    def op(self, o):
        if self.t[self.at] != ("op", o):
            raise Bad("%r instead of %r" % (self.t[self.at][1][:20], o))
        self.at += 1

    def word(self):
        k, v = self.t[self.at]
        if k not in ("id", "str", "html"):
            raise Bad("%r instead of a word" % v)
        self.at += 1
        return v

    def place(self):
        r = [self.word()]
        while self.peek(":"):
            self.at += 1
            r.append(self.word())
        return r

    def attributes(self):
        r = {}
        while self.peek("["):
            self.at += 1
            while not self.peek("]"):
                k = self.word()
                self.op("=")
                r[k] = self.t[self.at][0], self.word()
                if self.peek(",") or self.peek(";"):
                    self.at += 1
            self.at += 1
        return r

    def statement(self):
        a = self.place()
        if self.peek("="):
            self.at += 1
            self.word()
        elif self.peek("->"):
            self.at += 1
            b = self.place()
            self.attributes()
            self.edges.append((a, b))
        else:
            at = self.attributes()
            if a != ["node"] and a != ["edge"] and a != ["graph"]:
                if len(a) > 1 or a[0] in self.nodes:
                    raise Bad("node %s twice" % a[0])
                self.nodes[a[0]] = at
        if self.peek(";"):
            self.at += 1


def number(t):
    """the bytes of the number behind 'default ', as f32 and f64"""
    if t.startswith("default "):
        s = t[8:]
        if re.fullmatch(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", s, re.I):
            v = float(s)
            try:
                return list(struct.pack("<f", to_f32(s))), list(struct.pack("<d", v))
            except OverflowError:
                return [], list(struct.pack("<d", v))
    return [], []


def to_f32(s):
    """the float nearest to the decimal s (without rounding twice)"""
    from fractions import Fraction
    v = float(s)
    if v != v or v in (float("inf"), float("-inf")):
        return v
    f = struct.unpack("<f", struct.pack("<f", v))[0]
    if s.lower().lstrip("+-")[:1] not in "0123456789.":
        return f
    x = Fraction(s)
    u = struct.unpack("<I", struct.pack("<f", f))[0]
    best = f
    for d in (-1, 1):
        if 0 <= (u & 0x7fffffff) + d < 0x7f800000:
            g = struct.unpack("<f", struct.pack("<I", u + d))[0]
            if abs(Fraction(g) - x) < abs(Fraction(best) - x):
                best = g
    return best


def cell(td):
    if list(td):
        raise Bad("markup inside a cell")
    t = td.text or ""
    a, b = number(t)
    return {"p": B(td.get("PORT", "")), "t": B(t), "f32": a, "f64": b}


def read(text):
    """the observation [bad, nodes, edges] of a text"""
    try:
        g = Graph(text)
        nodes = []
        for n, at in g.nodes.items():
            kind, label = at.get("label", ("", ""))
            if kind != "html":
                raise Bad("node %s has no table" % n)
            try:
                x = ET.fromstring("<L>" + label + "</L>")
            except ET.ParseError as e:
                raise Bad("the label of %s: %s" % (n, e))
            tables = list(x)
            if [e.tag.upper() for e in tables] != ["TABLE"] or any(tr.tag.upper() != "TR" or any(td.tag.upper() != "TD" for td in tr) for tr in tables[0]):
                raise Bad("the label of %s is no table" % n)
            rows = [[cell(td) for td in tr] for tr in tables[0]]
            if not rows or len(rows[0]) != 1 or rows[0][0]["p"] != B("name"):
                raise Bad("node %s has no title" % n)
            nodes.append({"id": B(n), "title": rows[0][0]["t"], "rows": rows[1:]})
        edges = []
        for a, b in g.edges:
            if len(a) not in (2, 3) or len(b) not in (2, 3):
                raise Bad("an edge without ports")
            edges.append({"a": B(a[0]), "p": B(a[1]), "b": B(b[0]), "q": B(b[1])})
        return {"bad": "", "nodes": nodes, "edges": edges}
    except Bad as e:
        return {"bad": str(e)[:200], "nodes": [], "edges": []}


def judge_graph(c, projects, name):
    jobs = [job(p, dump=False, dot=True) for p in projects]
    # the second time all the projects come in another order, so in other processes
    back = list(range(len(jobs)))[::-1]
    first = run_sch(c, jobs, name)
    again = run_sch(c, [jobs[k] for k in back], name + "_2")
    recs, shown = [], {}
    for k, (p, a) in enumerate(zip(projects, first)):
        b = again[len(jobs) - 1 - k]
        text = a.get("dot")
        o = {"ok": a["ok"], "panic": a["panic"], "again": text == b.get("dot"), "bad": "", "nodes": [], "edges": []}
        if isinstance(text, str):
            o.update(read(text))
        elif a["ok"] and not a["panic"]:
            o["bad"] = "no text: %r" % (text,)
        rec = {"files": [{"name": B(n), "b": t} for n, t in p.files], "main": [m + 1 for m in p.main], "obs": o}
        recs.append(rec)
        shown[id(rec)] = p
    c.log(name, len(recs), "accepted", sum(r["obs"]["ok"] for r in recs))
    c.add(projects=len(recs), graphs=sum(bool(r["obs"]["nodes"]) for r in recs), nodes=sum(len(r["obs"]["nodes"]) for r in recs),
          edges=sum(len(r["obs"]["edges"]) for r in recs))
    c.sample({"schema": projects[0].show()[:500], "nodes": len(recs[0]["obs"]["nodes"])})
    c.validate("GraphJudge", recs, name=name, timeout=800, describe=lambda r: repr(shown[id(r)].show()[:400]))
