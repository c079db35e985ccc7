"""C22 names are opaque."""
import os

from .. import gen as G, spec
from ..monitor import Session, doc_diff, ensure
from .c21 import reports

QUICK, THOROUGH = 8000, 130000
RULE = ("random documents whose bones, slots, skins, animations, attachments, image paths, events and constraints are renamed "
        "injectively (to names of other kinds of parts, prefixes of each other, look-alikes, very long or odd names); the history on "
        "the renamed document must give the renamed result, images and reports; non-trivial: the history changed the document and "
        "something it removed had a new name")
REQUIRED = {"distinct_nontrivial": 1200, "operations_compared": 5000, "names_changed": 60000, "names_shared_between_kinds": 4000,
            "removed_under_new_name": 2500}
KINDS = ("bone", "slot", "skin", "animation", "attachment", "event", "constraint")
FIXED = {"bone": {"root"}, "skin": {"default"}}
ODD = ["-", "+", "*", ".*", "^a", "a$", "(", ")", "a|b", "\\d", "a\\b", "%(x)s", "{}", "{name}", "'", '"', "''", " ", "  ", "\t", "a\nb", "\u00a0",
       "\u200b", "\u202e", "A", "a", "Á", "á", "a\u0301", "ı", "I", "i", "K", "\u212a", "０", "0", "00", "1", "1.0", "1e3", "True", "None", "null",
       "NaN", "time", "name", "type", "attachments", "attachment", "slot", "slots", "bone", "bones", "skin", "default", "root", "mesh",
       "region", "linkedmesh", "path", "deform", "drawOrder", "color", "twoColor", "rotate", "__class__", "__dict__", "self", "keys", "items",
       "scaleX", "SLOT", "BONE", "ATTACHMENT", "IMAGE", "_SLOT", "_BONE", "_ATTACHMENT", "default_SLOT", "root_BONE", "root_SLOT", "a_SLOT",
       "a_SLOT_SLOT", "b_ATTACHMENT", "a_BONE_SLOT", "[x]", "[scale]", "#", "//", "\U0001f600\u200d", "e" * 300]


def collect(doc):
    """{kind: names}, the attachment kind covering keys, names and paths alike."""
    out = {k: set() for k in KINDS}
    out["bone"] |= {b["name"] for b in doc["bones"]}
    out["slot"] |= {s["name"] for s in doc.get("slots", [])}
    out["attachment"] |= {s["attachment"] for s in doc.get("slots", []) if s.get("attachment") is not None}
    out["skin"] |= {s["name"] for s in doc["skins"]}
    out["event"] |= set(doc.get("events", {}))
    for k in ("ik", "transform", "path"):
        out["constraint"] |= {c["name"] for c in doc.get(k, [])}
    for s in doc["skins"]:
        for x in (s.get("attachments") or {}).values():
            for k, a in x.items():
                out["attachment"] |= {v for v in (k, a.get("name"), a.get("path"), a.get("parent")) if v is not None}
    for n, a in doc.get("animations", {}).items():
        out["animation"].add(n)
        for tl in a.get("slots", {}).values():
            out["attachment"] |= {k["name"] for k in tl.get("attachment", []) if k.get("name") is not None}
    return out


def fresh_name(r, pool):
    k = r.random()
    if k < 0.35:
        n = r.choice(pool)              # a name of this document, perhaps of another kind
    elif k < 0.75:
        n = r.choice(ODD)
    else:
        n = r.choice(pool) + r.choice(["", "2", "_", " ", "x", ".", "/", "é"]) + r.choice(G.SUFFIX + [""])
    if r.random() < 0.15:
        n = r.choice([n.upper(), n.lower(), n * 2, n[:1], n + n[:1], " " + n, n[::-1]])
    if r.random() < 0.01:
        n = n + "long" * 500
    return n


def gen(r, i, tier):
    case = G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.4]), skins=(1, 4), anims=(1, 4)),
                      kinds=("anims", "anims", "skins", "clean", "scale"), n=(1, 4), safe=0.25, keep_anim=r.random() < 0.8)
    names = collect(case["doc"])
    if "None" in names["attachment"]:   # where no attachment has that name, it means none
        return None
    pool = sorted(n for v in names.values() for n in v)
    if r.random() < 0.3:                # a pool few enough that kinds share names
        pool = r.sample(pool, min(len(pool), 6))
    case["map"] = {}
    for kind in KINDS:
        fixed = FIXED.get(kind, set())
        m, taken = {}, set(fixed)
        alike = r.random() < 0.25       # names that careless code could take for each other
        for n in sorted(names[kind]):
            if n in fixed:
                continue
            for _ in range(200):
                v = G.twin(r, r.choice(sorted(taken))) if alike and taken and r.random() < 0.6 else fresh_name(r, pool)
                if v and v not in taken and ":" not in v and (kind, v) != ("attachment", "None"):
                    break
            else:
                return None
            m[n] = v
            taken.add(v)
        case["map"][kind] = m
    return case


class Renamer:
    def __init__(self, maps):
        self.m = maps

    def n(self, kind, name):
        return name if name is None else self.m[kind].get(name, name)

    def keys(self, kind, d, f=lambda x: x):
        return {self.n(kind, k): f(v) for k, v in d.items()}

    def named(self, kind, d, *more):
        """A copy of d with its name, and the other (member, kind) references, renamed."""
        d = dict(d)
        for member, k in (("name", kind),) + more:
            if member in d:
                v = d[member]
                d[member] = [self.n(k, x) for x in v] if isinstance(v, list) else self.n(k, v)
        return d

    def doc(self, doc):
        d = dict(doc)
        d["bones"] = [self.named("bone", b, ("parent", "bone")) for b in doc["bones"]]
        if "slots" in doc:
            d["slots"] = [self.named("slot", s, ("bone", "bone"), ("attachment", "attachment")) for s in doc["slots"]]
        if "skins" in doc:
            d["skins"] = []
            for s in doc["skins"]:
                s = self.named("skin", s)
                if s.get("attachments"):
                    s["attachments"] = self.keys("slot", s["attachments"], lambda x: self.keys("attachment", x, self.att))
                d["skins"].append(s)
        if "events" in doc:
            d["events"] = self.keys("event", doc["events"])
        for k in ("ik", "transform", "path"):
            if k in doc:
                d[k] = [self.named("constraint", c, ("bones", "bone"), ("bone", "bone"), ("target", "slot" if k == "path" else "bone"))
                        for c in doc[k]]
        if "animations" in doc:
            d["animations"] = self.keys("animation", doc["animations"], self.anim)
        return d

    def att(self, a):
        return self.named("attachment", a, ("path", "attachment"), ("parent", "attachment"), ("skin", "skin"), ("end", "slot"))

    def anim(self, a):
        a = dict(a)
        if "bones" in a:
            a["bones"] = self.keys("bone", a["bones"])
        if "slots" in a:
            a["slots"] = self.keys("slot", a["slots"], lambda tl: {
                k: ([self.named("attachment", x) for x in v] if k == "attachment" else v) for k, v in tl.items()})
        for k in ("ik", "transform", "path"):
            if k in a:
                a[k] = self.keys("constraint", a[k])
        if "deform" in a:
            a["deform"] = self.keys("skin", a["deform"], lambda y: self.keys("slot", y, lambda z: self.keys("attachment", z)))
        if "drawOrder" in a:
            a["drawOrder"] = [dict(k, offsets=[dict(o, slot=self.n("slot", o["slot"])) for o in k["offsets"]]) if k.get("offsets")
                              else k for k in a["drawOrder"]]
        if "events" in a:
            a["events"] = [self.named("event", e) for e in a["events"]]
        return a

    def op(self, op):
        if op[0] == "anims":
            return ["anims", [self.n("animation", x) for x in op[1]]] + op[2:]
        if op[0] == "skins":
            return ["skins", [self.n("skin", x) for x in op[1]]] + op[2:]
        return op

    def reports(self, rep):
        """reports() with names mapped: slots, attachments and, of skins, images."""
        if rep is None:
            return None
        kinds = ("slot", "attachment", "attachment")
        return [sorted((self.n(k, x) for x in v), key=str) for k, v in zip(kinds, rep)]

    def images(self, images, folder):
        return {self.n("attachment", k): dict(v, path=os.path.join(folder, self.n("attachment", k))) for k, v in images.items()}


def check(case, stats):
    doc, f = case["doc"], Renamer(case["map"])
    taken = collect(doc)
    for kind in KINDS:
        values = [f.n(kind, n) for n in taken[kind]]
        if len(set(values)) != len(values):         # (only a shrunken case)
            return False
    used = [set(m.values()) for m in case["map"].values()]
    stats["names_changed"] += sum(k != v for m in case["map"].values() for k, v in m.items())
    stats["names_shared_between_kinds"] += sum(len(a & b) for i, a in enumerate(used) for b in used[:i])
    folder = doc["skeleton"].get("images", "./images/")
    s, t = Session(doc), Session(f.doc(doc))
    nontrivial = False
    for i, op in enumerate([None] + case["ops"]):
        if op is not None:
            a, b = s.do(op), t.do(f.op(op))
            x, y = f.reports(reports(op, a["value"])), reports(op, b["value"])
            ensure(x == y, "%r: reports %r, on the document with other names %r", op, x, y)
            stats["operations_compared"] += 1
            gone = [n for v in reports(op, a["value"]) or [] for n in v]
            stats["removed_under_new_name"] += bool(gone)
            nontrivial |= bool(gone) or a["before"] != a["after"]
        d = doc_diff(f.doc(s.doc), t.doc)
        ensure(not d, "%s: with other names, the document differs: %s", "after %r" % (op,) if op else "after loading", d)
        ensure(spec.same(f.images(s.images, folder), t.images), "%s: with other names, images_references differs: %s",
               "after %r" % (op,) if op else "after loading", spec.Diff(f.images(s.images, folder), t.images))
    return nontrivial
