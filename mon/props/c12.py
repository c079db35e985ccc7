"""C12 a refused operation changes nothing."""
import copy

from .. import gen as G, spec
from ..lib import quiet
from ..monitor import Session, Violation, describe, ensure, read

QUICK, THOROUGH = 8000, 140000
RULE = ("random documents and histories with refused calls (strict erasing with unknown names mixed with known ones in every "
        "position, wrong argument types, unknown skins mixed with known ones) at random points; the document and image list are "
        "compared before and after each refused call, and the whole continuation with an editor that never saw them; non-trivial: "
        "a refused call named at least one existing animation or skin")
REQUIRED = {"distinct_nontrivial": 1500, "refused": 6000, "refused_mixed": 2500, "continuations_compared": 3000}

STRANGE = ["str", "none", "tuple", "dict", "set", "int"]


def gen(r, i, tier):
    doc = G.gen_doc(r, nonimage=r.choice([0, 0.2]), anims=(1, 4), skins=(1, 4))
    ops = G.gen_ops(r, doc, n=(0, 3))
    out = []
    anims, skins = list(doc.get("animations", {})), [s["name"] for s in doc["skins"]]
    bad = 0
    for op in ops + [None]:
        while r.random() < 0.6 or (op is None and not bad):
            out.append(bad_op(r, anims, skins))
            bad += 1
        if op is None:
            break
        out.append(op)
        if op[0] == "anims":
            anims = [a for a in anims if a not in op[1]]
        if op[0] == "skins":
            skins = [a for a in skins if a not in op[1]]
    return {"doc": doc, "mixed": out}


def shrinkable(path):
    return path[0] == "mixed" and len(path) == 2


def unknown(r, have, all_kinds):
    while True:
        n = r.choice(["nope", "", "Default", "default ", "root", "walk", "None", "0"] + all_kinds + [x + " " for x in have] +
                     [x.upper() for x in have] + [x[:-1] for x in have])
        if n not in have:
            return n


def bad_op(r, anims, skins):
    k = r.random()
    safe = r.random() < 0.4
    if k < 0.45:
        known = r.sample(anims, r.randint(0, len(anims)))
        req = known + [unknown(r, anims, skins) for _ in range(r.randint(1, 2))]
        r.shuffle(req)
        return ["bad anims", req, safe]
    if k < 0.85:
        known = r.sample(skins, r.randint(0, len(skins)))
        req = known + [unknown(r, skins, anims) for _ in range(r.randint(1, 2))]
        r.shuffle(req)
        return ["bad skins", req, safe]
    if k < 0.92:
        return ["strange anims", r.choice(STRANGE), r.sample(anims, r.randint(0, len(anims))), r.random() < 0.6, safe]
    if k < 0.96:
        # something that is no name at all among the names
        have = anims if r.random() < 0.5 else skins
        req = r.sample(have, r.randint(0, len(have)))
        req.insert(r.randint(0, len(req)), r.choice([0, 5, None, ["x"], [], {"a": 1}, True, 1.5]))
        return ["odd " + ("anims" if have is anims else "skins"), req, safe]
    # a name listed twice: only compared when it is refused
    if r.random() < 0.5 and anims:
        n = r.sample(anims, r.randint(1, len(anims)))
        return ["maybe anims", n + [n[0]], safe]
    n = r.sample(skins, r.randint(1, len(skins))) if skins else []
    return ["maybe skins", n + n[:1], safe] if n else ["bad skins", ["nope"], safe]


def strange(kind, names):
    return {"str": names[0] if names else "x", "none": None, "tuple": tuple(names), "dict": {n: 1 for n in names}, "set": set(names),
            "int": 3}[kind]


def check(case, stats):
    doc = case["doc"]
    good = [o for o in case["mixed"] if o[0] in ("anims", "skins", "clean", "scale")]
    if not G.valid_ops(good, doc):
        return False
    s, control = Session(doc), Session(doc)
    mixed = False
    anims, skins = set(doc.get("animations", {})), {x["name"] for x in doc["skins"]}
    for op in case["mixed"]:
        if op[0] in ("anims", "skins", "clean", "scale"):
            ev, ec = s.do(op), control.do(op)
            ensure(spec.same(ev["after"], ec["after"]), "after %r: differs from an editor that saw no refused call: %s", op,
                   spec.Diff(ec["after"], ev["after"]))
            ensure(spec.same(ev["iafter"], ec["iafter"]), "after %r: images_references differ from an editor that saw no refused call", op)
            stats["continuations_compared"] += 1
            anims, skins = set(s.doc.get("animations", {})), {x["name"] for x in s.doc["skins"]}
            continue
        kind, what = op[0].split()
        arg = strange(op[1], op[2]) if kind == "strange" else copy.deepcopy(op[1])
        if kind == "bad" and set(op[1]) <= (anims if what == "anims" else skins):
            continue
        if kind == "maybe" and not set(op[1]) <= (anims if what == "anims" else skins):
            continue
        err = None
        with quiet():
            try:
                if what == "anims":
                    s.ed.erase_animations(arg, strict_mode=op[3] if kind == "strange" else True, is_safe_mode=op[-1])
                else:
                    s.ed.erase_skins(arg, is_safe_mode=op[-1])
            except Exception as e:
                err = e
        if kind == "maybe" and err is None:
            # accepted: the histories part here
            stats["repeated_name_accepted"] += 1
            return mixed
        ensure(err is not None, "%r was not refused", op)
        stats["refused"] += 1
        named = {x for x in (op[1] if kind != "strange" else op[2]) if isinstance(x, str)} & (anims | skins)
        stats["refused_mixed"] += bool(named)
        mixed |= bool(named)
        now = read(s.ed)
        ensure(spec.same(now, s.doc), "refused %r (%s) changed the document: %s", op, type(err).__name__, spec.Diff(s.doc, now))
        ensure(spec.same(s.ed.images_references, s.images), "refused %r (%s) changed images_references: %s", op, type(err).__name__,
               spec.Diff(s.images, s.ed.images_references))
    return mixed
