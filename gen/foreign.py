"""A second FlatBuffers serializer, free in every choice the format leaves open: order and
distance of objects, place and sharing of vtables, length of vtables, explicit defaults,
extra fields the schema does not know.  It only produces inputs."""
import struct
from schema import *


class Obj:
    def __init__(self, data, align, fix=()):
        self.data, self.align, self.fix, self.vt, self.pos, self.vec = bytearray(data), align, list(fix), None, None, False

    def isvec(self):
        self.vec = True
        return self


def slots_of(S, T):
    out, n = [], 0
    for f in T["f"]:
        w = 2 if is_union(S, f["t"]) else 1
        out.append(f["id"] + 1 - w if f["id"] >= 0 else n)
        n += w
    return out


def struct_bytes(S, j, v, r=None):
    d = S.decls[j - 1]
    out = bytearray()
    al = struct_align(S.decls, j)
    for f, x in zip(d["f"], v[1]):
        k = S.kind(f["t"])
        if k == "struct":
            b, a = struct_bytes(S, f["t"][1], x, r), struct_align(S.decls, f["t"][1])
        else:
            b = bytes(x[1])
            a = len(b)
        while len(out) % a:
            out.append(r.randrange(256) if r else 0)
        out += b
    while len(out) % al:
        out.append(r.randrange(256) if r else 0)
    return bytes(out)


class Foreign:
    def __init__(self, r, S, junk=True, extra=True, aligned=True, vt_before=False, none=0):
        self.r, self.S, self.junk, self.extra, self.aligned, self.vt_before, self.none = r, S, junk, extra, aligned, vt_before, none

    def obj(self, t, v):
        """out-of-line object of value v of type t"""
        S, r = self.S, self.r
        k = S.kind(t)
        if k == "str":
            return Obj(struct.pack("<I", len(v[1])) + bytes(v[1]) + b"\0", 4)
        if k == "struct":
            return Obj(struct_bytes(S, t[1], v, r), struct_align(S.decls, t[1]))
        if k == "vec":
            ek = S.kind(t[1])
            n = len(v[2])
            if ek in ("scalar", "enum"):
                b = b"".join(bytes(x[1]) for x in v[2])
                return Obj(struct.pack("<I", n) + b, max(4, len(b) // n if n else 4)).isvec()
            if ek == "struct":
                return Obj(struct.pack("<I", n) + b"".join(struct_bytes(S, t[1][1], x, r) for x in v[2]), max(4, struct_align(S.decls, t[1][1]))).isvec()
            o = Obj(struct.pack("<I", n) + bytes(4 * n), 4)
            o.fix = [(4 + 4 * i, self.obj(t[1], x)) for i, x in enumerate(v[2])]
            return o
        if k == "table":
            return self.table(t[1], v)
        raise Exception(k)

    def uval(self, t, v):
        u = self.S.d(t)["v"][v[1] - 1]["t"]
        return self.obj(u, v[2])

    def table(self, j, v):
        S, r = self.S, self.r
        T = S.decls[j - 1]
        sl = slots_of(S, T)
        items = []  # slot, bytes, align, child
        q = 0
        for f, s in zip(T["f"], sl):
            if f["dep"]:
                # an old writer may still have written it
                if S.kind(f["t"]) == "scalar" and r.random() < 0.5:
                    n = size(f["t"][0])
                    items.append((s, bytes(r.randrange(256) for _ in range(n)), n, None))
                continue
            x = v[2][q]
            q += 1
            if x[0] == "none":
                continue
            k = S.kind(f["t"])
            fa = f.get("fa", 1)
            if k in ("scalar", "enum"):
                if f["o"] != "null" and x == self.default(f) and r.random() < 0.5:
                    continue
                items.append((s, bytes(x[1]), max(fa, len(x[1])), None))
            elif k == "struct":
                items.append((s, struct_bytes(S, f["t"][1], x, r), max(fa, struct_align(S.decls, f["t"][1])), None))
            elif k == "union":
                if self.none and r.random() < self.none:   # the tag NONE spelled out
                    items.append((s, b"\0", 1, None))
                    continue
                items.append((s, bytes([x[1]]), 1, None))
                items.append((s + 1, bytes(4), max(fa, 4), self.uval(f["t"], x)))
            elif is_union(S, f["t"]):
                tags = [0 if self.none and r.random() < self.none else y[1] for y in x[2]]
                tv = Obj(struct.pack("<I", len(x[2])) + bytes(tags), 4)
                vv = Obj(struct.pack("<I", len(x[2])) + bytes(4 * len(x[2])), 4)
                vv.fix = [(4 + 4 * i, self.uval(f["t"][1], y)) for i, y in enumerate(x[2]) if tags[i]]
                items.append((s, bytes(4), max(fa, 4), tv))
                items.append((s + 1, bytes(4), max(fa, 4), vv))
            else:
                items.append((s, bytes(4), max(fa, 4), self.obj(f["t"], x)))
        top = max([s for s, *_ in items], default=-1) + 1
        nsl = max([s + (2 if is_union(S, f["t"]) else 1) for f, s in zip(T["f"], sl)], default=0)
        if self.extra and r.random() < 0.4:
            for e in range(r.randint(1, 3)):
                n = r.choice([1, 2, 4, 8])
                items.append((nsl + e, bytes(r.randrange(256) for _ in range(n)), n, None))
                top = nsl + e + 1
        elif r.random() < 0.3:
            top = max(top, nsl) + r.randint(0, 2)
        r.shuffle(items)
        o = Obj(bytes(4), 4)
        vt = [0] * top
        for s, b, a, child in items:
            while len(o.data) % a and self.aligned:
                o.data.append(r.randrange(256) if self.junk else 0)
            vt[s] = len(o.data)
            if child is not None:
                o.fix.append((len(o.data), child))
            o.data += b
            o.align = max(o.align, a)
        o.vt = struct.pack("<%dH" % (top + 2), 4 + 2 * top, len(o.data), *vt)
        return o

    def default(self, f):
        S = self.S
        if not f["d"]:
            return ["sc", [0] * (size(f["t"][0]) if S.kind(f["t"]) == "scalar" else size(S.d(f["t"])["base"]))]
        if f["d"][0] == "ev":
            e = S.d(f["t"])
            return ["sc", le(e["base"], S.enum_vals(e)[[v["n"] for v in e["vars"]].index(f["d"][1])])]
        return f["d"]

    def write(self, j, v):
        """bytes of a buffer whose root is v"""
        r = self.r
        root = Obj(bytes(4), 4)
        root.fix = [(0, self.table(j, v))]
        if r.random() < 0.5:
            root.data += bytes(r.randrange(256) for _ in range(4))
        out = bytearray()
        vts = {}
        ready, todo, placed = [root], [], []
        later = []  # (table, vtable bytes) whose vtable comes after

        def pad(a):
            if self.junk and r.random() < 0.2:
                out.extend(r.randrange(256) for _ in range(r.randint(1, 6)))
            while len(out) % a and self.aligned:
                out.append(r.randrange(256) if self.junk else 0)

        def put_vt(vt):
            pad(2)
            vts.setdefault(vt, []).append(len(out))
            out.extend(vt)

        while ready:
            o = ready.pop(r.randrange(len(ready)))
            if o.vt is not None:
                reach = [p for p in vts.get(o.vt, []) if self.vt_before or p >= o.low]
                if reach and r.random() < 0.7:
                    later.append((o, r.choice(reach)))
                elif r.random() < 0.5:
                    put_vt(o.vt)
                    later.append((o, vts[o.vt][-1]))
                else:
                    later.append((o, None))
            if out:
                pad(4)
            if o.align > 4 and self.aligned:
                # vectors of wide elements are aligned after their length
                off = 4 if o.vec else 0
                while (len(out) + off) % o.align:
                    out.append(0)
            o.pos = len(out)
            out.extend(o.data)
            placed.append(o)
            for at, c in o.fix:
                c.low = o.pos
                ready.append(c)
        for o, p in later:
            if p is None:
                put_vt(o.vt)
                p = len(out) - len(o.vt)
            out[o.pos:o.pos + 4] = struct.pack("<i", o.pos - p)
        for o in placed:
            for at, c in o.fix:
                out[o.pos + at:o.pos + at + 4] = struct.pack("<I", c.pos - (o.pos + at))
        return list(out)
