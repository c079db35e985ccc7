"""C23 unrelated content does not matter."""
import copy

from .. import gen as G, spec
from ..monitor import Session, ensure
from .c21 import reports
from .c22 import ODD, collect

QUICK, THOROUGH = 7000, 120000
RULE = ("random documents and the same documents with unrelated parts added (bones, shown or hidden slots with attachments of their own "
        "in existing or new skins, events, constraints among the added parts, timelines of the added parts, copies of animations and "
        "skins that stay): after the same history the result, the images and the reports must differ by the added parts only; "
        "non-trivial: something was added and the history changed the document")
REQUIRED = {"distinct_nontrivial": 1200, "operations_compared": 4500, "extra_slots": 2500, "extra_bones": 2500, "copied_animations": 500,
            "copied_skins": 400, "crowds": 100, "extra_events": 800, "extra_constraints": 800, "extra_skins": 400, "extra_parts_removed": 1000}


def new(r, taken, pool):
    while True:
        if len(taken) > 60:
            n = r.choice(pool) + str(r.randint(0, 999))
        else:
            n = r.choice(pool) if r.random() < 0.4 else r.choice(ODD) if r.random() < 0.3 else r.choice(pool) + r.choice(["", "2", "_SLOT", "x", "_BONE"])
        if n not in taken and ":" not in n:
            taken.add(n)
            return n


def gen(r, i, tier):
    doc = G.gen_doc(r, nonimage=r.choice([0, 0.1, 0.4]), skins=(1, 4), anims=(1, 4))
    ops = G.gen_ops(r, doc, kinds=("anims", "anims", "skins", "clean", "scale"), n=(1, 4), safe=0.25)
    names = collect(doc)
    pool = sorted(n for v in names.values() for n in v)
    big = copy.deepcopy(doc)
    ex = {k: [] for k in ("bone", "slot", "skin", "animation", "attachment", "image", "event", "constraint")}
    taken = {k: set(v) for k, v in names.items()}
    taken["attachment"].add("None")     # where no attachment has that name, it means none

    def add(kind, space=None):
        n = new(r, taken[space or kind], pool)
        ex[kind].append(n)
        return n
    crowd = r.choice(["bone", "skin", "slot", "event", "animation", "copied skin"]) if r.random() < 0.08 else None

    def count(kind, choices):
        return r.choice([10, 20, 30]) if kind == crowd else r.choice(choices)
    for _ in range(count("bone", [0, 1, 1, 2])):
        b = {"name": add("bone"), "parent": r.choice(big["bones"])["name"]}
        for k in ("x", "rotation", "scaleX"):
            G.opt(r, b, k, lambda: G.num(r), 0.3)
        m = r.choice(G.MODES)
        if m:
            b["transform"] = m
        big["bones"].append(b)
    for _ in range(count("skin", [0, 0, 1])):
        s = {"name": add("skin")}
        if r.random() < 0.8:
            s["attachments"] = {}
        big["skins"].insert(r.randint(0, len(big["skins"])), s)
    for _ in range(count("slot", [0, 1, 1, 2, 3])):
        bone = r.choice(ex["bone"]) if ex["bone"] and r.random() < 0.5 else r.choice(big["bones"])["name"]
        s = {"name": add("slot"), "bone": bone}
        c = r.choice(G.COLORS)
        if c:
            s["color"] = c
        if "slots" not in big:
            big["slots"] = []
        big["slots"].insert(r.choice([0, len(big["slots"])]), s)
        keys = []
        for _ in range(r.choice([0, 1, 1, 2])):
            k = add("attachment")
            kind = r.choice(["region", "region", "mesh", "path", "clipping", "point", "boundingbox"])
            a = G.gen_att(r, kind, k, [k])
            if kind in spec.IMAGE_TYPES:
                ex["image"].append(spec.image_of(a, k))
            sk = r.choice(big["skins"])
            sk.setdefault("attachments", {}).setdefault(s["name"], {})[k] = a
            keys.append((sk["name"], k, kind))
        if keys and r.random() < 0.7:
            s["attachment"] = r.choice(keys)[1]
        for an in big.get("animations", {}).values():
            if r.random() < 0.3:
                tl = an.setdefault("slots", {}).setdefault(s["name"], {})
                if r.random() < 0.8:
                    tl["attachment"] = [G.key(r, t, name=(r.choice(keys)[1] if keys and r.random() < 0.6 else None))
                                        for t in G.times(r, r.randint(1, 2))]
                else:
                    tl["color"] = [{"time": 0, "color": r.choice(["ffffff00", "ffffffff"])}]
            if keys and r.random() < 0.2:
                sk, k, kind = r.choice(keys)
                if kind not in ("region", "point"):
                    an.setdefault("deform", {}).setdefault(sk, {}).setdefault(s["name"], {})[k] = [{"time": 0.5, "vertices": [1, 2]}]
    for b in ex["bone"]:
        for an in big.get("animations", {}).values():
            if r.random() < 0.2:
                an.setdefault("bones", {})[b] = {"rotate": [{"time": 0, "angle": 5}]}
    for kind in ("ik", "transform", "path"):
        if ex["bone"] and r.random() < 0.3 and (kind != "path" or ex["slot"]):
            c = {"name": add("constraint"), "bones": [r.choice(ex["bone"])], "target": "root"}
            if kind == "path":
                c["target"] = r.choice(ex["slot"])
            big.setdefault(kind, [])
            big[kind].insert(r.randint(0, len(big[kind])), c)
            for an in big.get("animations", {}).values():
                if r.random() < 0.2:
                    an.setdefault(kind, {})[c["name"]] = {"position": [{"time": 0.5, "position": 2}]} if kind == "path" else [{"time": 1}]
    for _ in range(count("event", [0, 0, 1, 2])):
        n = add("event")
        big.setdefault("events", {})[n] = {"int": 3}
        for an in big.get("animations", {}).values():
            if r.random() < 0.3:
                an.setdefault("events", []).append({"time": 99, "name": n})
    erased = {n for o in ops if o[0] == "anims" for n in o[1]}
    stays = [n for n in doc.get("animations", {}) if n not in erased]
    for _ in range(count("animation", [0, 0, 0, 1, 1]) if stays else 0):
        n, copied = add("animation"), copy.deepcopy(big["animations"][r.choice(stays)])
        anims = list(big["animations"].items())
        anims.insert(r.randint(0, len(anims)), (n, copied))
        big["animations"] = dict(anims)
    erased = {n for o in ops if o[0] == "skins" for n in o[1]}
    stays = [s for s in doc["skins"] if s["name"] not in erased]
    for _ in range(count("copied skin", [0, 0, 1]) if stays else 0):
        src = r.choice(stays)["name"]
        s = copy.deepcopy(next(s for s in big["skins"] if s["name"] == src))
        s["name"] = add("skin")
        big["skins"].insert(r.randint(0, len(big["skins"])), s)
        for an in big.get("animations", {}).values():
            if src in an.get("deform", {}):
                an["deform"][s["name"]] = copy.deepcopy(an["deform"][src])
        ex.setdefault("copied", []).append(s["name"])
    return {"doc": doc, "other": big, "extra": ex, "ops": ops}


def minus(doc, ex):
    """The canonical document without the added parts, draw orders written out as orders."""
    d = spec.canon(doc)
    names = [s["name"] for s in d["slots"]]
    drop = lambda x, kind: {k: v for k, v in x.items() if k not in ex[kind]}
    lack = lambda x, kind: [v for v in x if v["name"] not in ex[kind]]
    d["bones"], d["slots"], d["skins"], d["events"] = lack(d["bones"], "bone"), lack(d["slots"], "slot"), lack(d["skins"], "skin"), drop(d["events"], "event")
    for k in ("ik", "transform", "path"):
        d[k] = lack(d[k], "constraint")
    for s in d["skins"]:
        s["attachments"] = drop(s["attachments"], "slot")
    d["animations"] = drop(d["animations"], "animation")
    for a in d["animations"].values():
        if "bones" in a:
            a["bones"] = drop(a["bones"], "bone")
        if "slots" in a:
            a["slots"] = drop(a["slots"], "slot")
        for k in ("ik", "transform", "path"):
            if k in a:
                a[k] = drop(a[k], "constraint")
        if "deform" in a:
            a["deform"] = spec.drop_empty({k: drop(v, "slot") for k, v in drop(a["deform"], "skin").items()})
        if "events" in a:
            a["events"] = lack(a["events"], "event")
        a["drawOrder"] = [dict(k, offsets=[n for n in spec.draw_order(names, k) if n not in ex["slot"]]) for k in a.get("drawOrder", [])]
        for k in list(a):
            if a[k] in ({}, []):
                del a[k]
    return d


def check(case, stats):
    ex = case["extra"]
    try:
        spec.load(case["other"])
        if not spec.same(minus(case["other"], ex), minus(case["doc"], ex)):
            return False            # only a shrunken case
    except spec.Invalid:
        return False
    stats["extra_slots"] += len(ex["slot"])
    stats["extra_bones"] += len(ex["bone"])
    stats["extra_events"] += len(ex["event"])
    stats["extra_skins"] += len(ex["skin"]) - len(ex.get("copied", []))
    stats["copied_skins"] += len(ex.get("copied", []))
    stats["copied_animations"] += len(ex["animation"])
    stats["extra_constraints"] += len(ex["constraint"])
    stats["crowds"] += max(len(v) for v in ex.values()) >= 10
    s, t = Session(case["doc"]), Session(case["other"])
    nontrivial = False
    lists = ("slot", "attachment", "image")
    for op in [None] + case["ops"]:
        what = "after %r" % (op,) if op else "after loading"
        if op is not None:
            a, b = s.do(op), t.do(op)
            ra, rb = reports(op, a["value"]), reports(op, b["value"])
            if ra is not None:
                less = [[x for x in v if x not in ex[k]] for k, v in zip(lists, rb)]
                ensure(ra == less, "%s reports %r, with unrelated parts added %r", what, ra, rb)
                stats["extra_parts_removed"] += less != rb
            stats["operations_compared"] += 1
            nontrivial |= a["before"] != a["after"]
        x, y = minus(s.doc, ex), minus(t.doc, ex)
        ensure(spec.same(x, y), "%s: with unrelated parts added, the rest of the document differs: %s", what, spec.Diff(x, y))
        want = {k: v for k, v in t.images.items() if k not in ex["image"]}
        ensure(spec.same(s.images, want), "%s: with unrelated parts added, images_references differs: %s", what,
               spec.Diff(s.images, want))
    return nontrivial and any(ex.values())
