"""C21 an editor has no memory beyond its document."""
from .. import gen as G, spec
from ..monitor import Session, base, doc_diff, ensure, fixture_case

QUICK, THOROUGH = 4400, 70000
RULE = ("random documents under random histories; before every operation a second editor is built from the document the first one "
        "serialises, the operation is done on both and the documents, image lists and reports are compared; at the end both lines "
        "are compared again with an editor that saved and reloaded after every operation; non-trivial: an operation after the first "
        "changed the document")
REQUIRED = {"distinct_nontrivial": 900, "steps_compared": 5000, "later_steps": 3000, "removals_compared": 1500}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.4]), tags=r.choice([0, 0, 0.3]), extras=r.choice([0, 0, 0.3]),
                              skins=(1, 5), anims=(1, 5)),
                      kinds=("anims", "anims", "skins", "skins", "clean", "scale"), n=(2, 5), safe=0.35,
                      keep_anim=r.random() < 0.7)


def reports(op, value):
    """What an operation says it removed, without the order (which is not promised)."""
    pair = lambda v: [sorted(set(v[0]), key=str), sorted(set(v[1]), key=str)]
    if op[0] == "anims":
        return pair(value.result_summary)
    if op[0] == "skins":
        return pair(value[0]) + [sorted(set(value[1]), key=str)]
    if op[0] == "clean":
        return pair(value)
    return None


def check(case, stats):
    s = Session(base(case))
    nontrivial = False
    reloaded = Session(base(case))
    for i, op in enumerate(case["ops"]):
        fresh = Session(s.doc)
        ensure(spec.same(fresh.images, s.images), "after %d operations images_references differs from that of an editor loading the "
               "saved document: %s", i, spec.Diff(s.images, fresh.images))
        d = doc_diff(s.doc, fresh.doc)
        ensure(not d, "after %d operations the saved document loads differently: %s", i, d)
        ev, fe = s.do(op), fresh.do(op)
        d = doc_diff(fe["after"], ev["after"])
        ensure(not d, "%r after %r does something else than on the saved and reloaded document: %s", op, case["ops"][:i], d)
        ensure(spec.same(fe["iafter"], ev["iafter"]), "%r after %r leaves other images than on the saved and reloaded document: %s",
               op, case["ops"][:i], spec.Diff(fe["iafter"], ev["iafter"]))
        a, b = reports(op, ev["value"]), reports(op, fe["value"])
        ensure(a == b, "%r after %r reports %r, on the saved and reloaded document %r", op, case["ops"][:i], a, b)
        reloaded = Session(reloaded.doc)
        reloaded.do(op)
        stats["steps_compared"] += 1
        stats["later_steps"] += i > 0
        stats["removals_compared"] += bool(a and any(a))
        nontrivial |= i > 0 and not spec.same(ev["before"], ev["after"])
    d = doc_diff(reloaded.doc, s.doc)
    ensure(not d, "an editor reloading after every operation ends differently: %s", d)
    return nontrivial
