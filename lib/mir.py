"""Loads the JSON dump of the type-checked program written by driver/mirdump."""
import json


class Body:
    def __init__(self, prog, d, promoted_of=None, idx=None):
        self.prog = prog
        self.d = d
        self.promoted_of = promoted_of
        self.id = d["id"] if promoted_of is None else "%s#p%d" % (promoted_of.id, idx)
        self.path = d.get("path", self.id)
        self.name = d.get("name", "")
        self.kind = d.get("kind", "promoted")
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.span = d.get("span", "")
        self.impl = d.get("impl")
        self.pub = d.get("pub", False)
        self.reach = d.get("reach", False)
        self.is_unsafe = d.get("unsafe", False)
        self.gens = d.get("gens", [])
        self.parent = d.get("parent")
        self.promoted = [Body(prog, p, self, i) for i, p in enumerate(d.get("promoted", []))]
        self._succ = None
        self._back = None

    # ---- control flow -------------------------------------------------
    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succ_of(t) for (_, _, t) in self.blocks]
        return self._succ[b]

    @staticmethod
    def _succ_of(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[3]] + [t[4]]))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def back_edges(self):
        """(source, header) pairs found by a depth first search over normal edges."""
        if self._back is None:
            color, back = {}, set()
            stack = [(0, iter(self.succ(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s, 0) == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succ(s))))
                        break
                    elif color[s] == 1:
                        back.add((b, s))
                else:
                    color[b] = 2
                    stack.pop()
            self._back = back
        return self._back

    def headers(self):
        return {h for _, h in self.back_edges()}

    def loop_blocks(self, h):
        pred = {}
        for b in range(len(self.blocks)):
            for s in self.succ(b):
                pred.setdefault(s, []).append(b)
        body = {h}
        work = [b for b, x in self.back_edges() if x == h]
        while work:
            b = work.pop()
            if b in body:
                continue
            body.add(b)
            work += pred.get(b, [])
        return body

    def reachable(self):
        seen, work = {0}, [0]
        while work:
            b = work.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return seen

    def calls(self):
        for b in sorted(self.reachable()):
            t = self.blocks[b][2]
            if t[0] == "call":
                yield b, t

    def __repr__(self):
        return "<%s>" % self.id


class Program:
    def __init__(self, path):
        d = path if isinstance(path, dict) else json.load(open(path))
        self.crate = d["crate"]
        self.tys = d["tys"]
        self.adts = {a["id"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = d["traits"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = Body(self, b)

    def ty(self, i):
        return self.tys[i]

    def tys_s(self, i):
        return self.tys[i]["s"]

    def by_name(self, name):
        return [b for b in self.bodies.values() if b.name == name]

    def self_adt(self, body):
        """path of the ADT an inherent/trait method belongs to"""
        if body.impl and "self" in body.impl:
            t = self.ty(body.impl["self"])
            return t.get("path") or t["s"]
        return None

    def fn(self, name, self_path=None, trait=None):
        r = []
        for b in self.by_name(name):
            if self_path is not None and self.self_adt(b) != self_path:
                continue
            if self_path is None and b.impl and "self" in (b.impl or {}):
                continue
            tr = (b.impl or {}).get("trait")
            if trait is None and tr:
                continue
            if trait is not None and (not tr or tr[0].split("::")[-1] != trait):
                continue
            r.append(b)
        return r


def fmt_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%s" % e[2]
        elif e[0] == "v":
            s += " as %s" % (e[2] or e[1])
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def fmt_op(o):
    if o[0] in "cm" and len(o) == 2 and o[0] != "k":
        return ("move " if o[0] == "m" else "") + fmt_place(o[1])
    if o[0] == "k":
        c = o[1]
        if "fn" in c:
            r = c["fn"].get("res")
            return "fn<%s%s>" % (c["fn"]["path"], " => " + r["path"] if r and r["id"] != c["fn"]["id"] else "")
        return "const(%s)" % (c.get("val", c.get("str", c.get("dbg"))))
    return "?"


def fmt_rv(r):
    k = r[0]
    if k == "use":
        return fmt_op(r[1])
    if k == "ref":
        return "&%s%s" % ("mut " if r[1] else "", fmt_place(r[2]))
    if k == "rawptr":
        return "&raw %s %s" % (r[1], fmt_place(r[2]))
    if k == "cast":
        return "%s as[%s]" % (fmt_op(r[2]), r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], fmt_op(r[2]), fmt_op(r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], fmt_op(r[2]))
    if k == "discr":
        return "discr(%s)" % fmt_place(r[1])
    if k == "agg":
        n = r[2]["path"] + "::" + r[2]["vname"] if isinstance(r[2], dict) else r[1]
        return "%s{%s}" % (n, ", ".join(fmt_op(o) for o in r[3]))
    return str(r)


def fmt_body(b, cleanup=False):
    o = ["fn %s  (%s) argc=%d" % (b.id, b.span, b.argc)]
    for i, l in enumerate(b.locals):
        o.append("  let _%d: %s %s" % (i, b.prog.tys_s(l[0]), l[1] or ""))
    for i, (c, st, t) in enumerate(b.blocks):
        if c and not cleanup:
            continue
        o.append(" bb%d:" % i)
        for s in st:
            if s[0] == "=":
                o.append("   %s = %s" % (fmt_place(s[1]), fmt_rv(s[2])))
            else:
                o.append("   %s" % s)
        k = t[0]
        if k == "call":
            o.append("   %s = %s(%s) -> bb%s   %s" % (fmt_place(t[3]), fmt_op(t[1]), ", ".join(fmt_op(a) for a in t[2]), t[4], t[6]))
        elif k == "switch":
            o.append("   switch %s %s else bb%d" % (fmt_op(t[1]), ["%s->bb%d" % tuple(x) for x in t[3]], t[4]))
        elif k == "drop":
            o.append("   drop %s -> bb%d" % (fmt_place(t[1]), t[2]))
        elif k == "assert":
            o.append("   assert %s == %s -> bb%d" % (fmt_op(t[1]), t[2], t[4]))
        else:
            o.append("   %s" % t)
    return "\n".join(o)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    for b in p.bodies.values():
        if b.name in sys.argv[2:] or b.id in sys.argv[2:]:
            print(fmt_body(b))
            for q in b.promoted:
                print(fmt_body(q))
