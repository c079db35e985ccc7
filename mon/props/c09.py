"""C09 scaling."""
import math

from .. import gen as G, spec
from ..monitor import Session, Violation, doc_diff, ensure

QUICK, THOROUGH = 12000, 220000
RULE = ("random bone hierarchies with every mix of transform modes; histories of scalings (zero, negative and non-uniform factors "
        "included) interleaved with erase and clean operations; every factor is checked exactly, every world matrix (uniform "
        "positive factors) against an independent implementation, and the final document against erasing first and scaling "
        "afterwards; non-trivial: at least one bone besides the root had to be scaled and one scaling happened")
REQUIRED = {"distinct_nontrivial": 1500, "scalings": 5000, "bones_scaled": 8000, "world_matrices_compared": 5000,
            "orders_compared": 1200, "root_without_scale_inheritance": 300}
ASSUMPTIONS = ["world transforms of bones whose parent matrix is numerically degenerate are not compared"]
EVENT = ("noScale", "noScaleOrReflection", "onlyTranslation")
FREE_OPS = False


def factor(r, nice):
    if nice:
        return r.choice([2, 0.5, 1, 3, 1.5, 0.1, 7.25])
    return r.choice([2, 0.5, 1, 3, -1, -2.5, 0, 0.0, 0.3, 100, 1e-3])


def gen(r, i, tier):
    nice = r.random() < 0.6
    doc = G.gen_doc(r, bones=(1, 9), slots=(0, 4), skins=(1, 3), anims=(1, 3), scale_nonzero=nice, rich=0.9, deep=r.random() < 0.3,
                    nonimage=0.1)
    ops = []
    for op in G.gen_ops(r, doc, kinds=("scale", "scale", "anims", "skins", "clean"), n=(1, 5), safe=0.2):
        if op[0] == "scale":
            x = factor(r, nice)
            op = ["scale", x, x if nice and r.random() < 0.7 else factor(r, nice)]
        ops.append(op)
    if not any(o[0] == "scale" for o in ops):
        ops.insert(r.randint(0, len(ops)), ["scale", factor(r, nice), factor(r, nice)])
    return {"doc": doc, "ops": ops}


def close(a, b, tol=1e-12):
    return a == b or math.isclose(a, b, rel_tol=tol, abs_tol=1e-300)


def near(a, b, path=""):
    """'' or where two canonical documents differ by more than rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: members %r and %r" % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in a:
            d = near(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %r and %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return ""
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if num(a) and num(b):
        return "" if close(a, b, 1e-9) else "%s: %r and %r" % (path, a, b)
    return "" if spec.same(a, b) else "%s: %r and %r" % (path, a, b)


def degenerate(bones, W):
    """Bones whose world matrix is numerically ill-defined, with everything below them."""
    bad = set()
    for raw in bones:
        b = spec.fill(raw, spec.D_BONE)
        p = b.get("parent")
        if p is None:
            continue
        if p in bad:
            bad.add(b["name"])
            continue
        pa, pb, pc, pd = W[p][:4]
        size = max(abs(x) for x in W[p][:4])
        if b["transform"] in ("noScale", "noScaleOrReflection"):
            t = math.radians(b["rotation"])
            if math.hypot(pa * math.cos(t) + pb * math.sin(t), pc * math.cos(t) + pd * math.sin(t)) < 1e-3 \
                    or abs(pa * pd - pb * pc) < 1e-6 * max(1, size * size):
                bad.add(b["name"])
        elif b["transform"] == "noRotationOrReflection":
            if pa * pa + pc * pc < 1e-3 * max(1, size * size):
                bad.add(b["name"])
    return bad


def check(case, stats):
    doc = case["doc"]
    s = Session(doc, raw=True)
    other = False
    for op in case["ops"]:
        ev = s.do(op)
        if op[0] != "scale":
            continue
        stats["scalings"] += 1
        sx, sy = op[1], op[2]
        ca, cb = spec.canon(ev["before"]), spec.canon(ev["after"])
        ensure([b["name"] for b in ca["bones"]] == [b["name"] for b in cb["bones"]], "bones changed")
        for x, y in zip(ca["bones"], cb["bones"]):
            scaled = x["name"] == "root" or x["transform"] in EVENT
            wx, wy = (x["scaleX"] * sx, x["scaleY"] * sy) if scaled else (x["scaleX"], x["scaleY"])
            ensure(close(y["scaleX"], wx) and close(y["scaleY"], wy),
                   "bone %r (%s) with scale (%r, %r) scaled by (%r, %r): should be (%r, %r), is (%r, %r)", x["name"], x["transform"],
                   x["scaleX"], x["scaleY"], sx, sy, wx, wy, y["scaleX"], y["scaleY"])
            y["scaleX"], y["scaleY"] = x["scaleX"], x["scaleY"]
            stats["bones_scaled"] += scaled
            other |= scaled and x["name"] != "root"
            stats["root_without_scale_inheritance"] += x["name"] == "root" and x["transform"] in EVENT
        ensure(spec.same(ca, cb), "scaling changed something else: %s", spec.Diff(ca, cb))
        ensure(spec.same(ev["ibefore"], ev["iafter"]), "scaling changed images_references")
        if sx == sy and sx > 0:
            A, B = spec.world(ev["before"]["bones"]), spec.world(ev["after"]["bones"])
            bad = degenerate(ev["before"]["bones"], A) | degenerate(ev["after"]["bones"], B)
            rx, ry = A["root"][4:]
            for n in A:
                if n in bad:
                    stats["degenerate_matrices_skipped"] += 1
                    continue
                want = [v * sx for v in A[n][:4]] + [rx + (A[n][4] - rx) * sx, ry + (A[n][5] - ry) * sx]
                size = 1 + max(abs(v) for v in want + list(A[n]))
                ensure(all(abs(p - q) <= 1e-6 * size for p, q in zip(want, B[n])),
                       "world transform of bone %r scaled by %r: should be %r, is %r", n, sx, want, B[n])
                stats["world_matrices_compared"] += 1
    rest = [o for o in case["ops"] if o[0] != "scale"]
    scales = [o for o in case["ops"] if o[0] == "scale"]
    if rest:
        t = Session(doc)
        for op in rest + scales:
            t.do(op)
        d = near(spec.canon(s.doc), spec.canon(t.doc))
        ensure(not d, "scaling before erasing and after erasing differ: %s", d)
        ensure(spec.same(s.images, t.images), "images_references depend on when the skeleton was scaled")
        stats["orders_compared"] += 1
    return other
