"""Seeded generator of supported Spine 3.8 documents and editing histories."""
import copy
import math
import unicodedata

from . import spec

STEMS = ["a", "b", "x", "1", "arm", "arm_l", "arm_l2", "hand", "eye", "eye_r", "head", "über", "日本", "fx/smoke",
         "a b", "Arm", "é", "ß", "ss", "root", "root2", "roots", "my root", "default_2", "leg.l", "tail-3", "mouth", "default", "e\u0301", "😀", 'q"uote', "back\\slash", "NaN", "true", " lead", "trail ", "new\nline", "%s", "{0}", "[x]", "../up", "0", "-1", "null", "None",
         "_hidden", "__class__", "end_", "Slot1", "10", "007", "UPPER", "name", "attachments", "color", "slots", ".", "#1", "a,b", "a:b",
         "a=b;c", "{name}", "<b>", "\t", "1.0", "1e5", "True", "*", "(x)"]
SUFFIX = ["_SLOT", "_IMAGE", "_ATTACHMENT", "_BONE", "_IK", "_PATH", "_SLOT_2", "_IMAGE_x", "_ATTACHMENT_ATTACHMENT"]
ODD_IMAGES = ["/abs/img", "//x", "./a", "a/", "a//b", "a/../b", "a/b/../c", "../../q", "C:\\a", "~/a", "a.png", "a.PNG", "$HOME/x", "a%20b", "img/", ".",
              "a?b#c", "/", "http://h/a"]
COLORS = [None, None, None, "ffffffff", "ff00ff80", "ffffff00", "00000000", "000000ff", "FFFFFF00", "12345601", "FFFFFFFF", "Ab12cDeF"]
MODES = [None, None, None, "normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection"]


def chance(r, p):
    return r.random() < p


def num(r, lo=-50, hi=50):
    k = r.random()
    if k < 0.15:
        return 0
    if k < 0.28:
        return 1
    if k < 0.34:
        return 1.0
    if k < 0.38:
        return 0.0
    if k < 0.42:
        return -1
    if k < 0.45:
        return r.choice([0.30000000000000004, 1e-07, 98765.4321, -0.00012, 360, -180.0, 100000, 0.5, 2, 1e-10, -1e-12, 1.0000000001, 0.9999999999])
    if k < 0.55:
        return r.randint(lo, hi)
    return round(r.uniform(lo, hi), r.choice([1, 2, 4, 6]))


class Names:
    def __init__(self, r, hostile=0.3, tags=0.0):
        self.r, self.hostile, self.tags = r, hostile, tags
        self.alike = 0.5 if chance(r, 0.08) else 0.06
        self.long = r.choice(["x" * 130, "long " * 60]) if chance(r, 0.02) else ""

    def one(self):
        r = self.r
        n = self.long + r.choice(STEMS)
        if chance(r, 0.3):
            n += str(r.randint(1, 12))
        if chance(r, self.hostile):
            n += r.choice(SUFFIX)
        if chance(r, self.tags):
            n += tag(r)
        return n

    def unique(self, taken):
        while True:
            n = self.one()
            if taken and chance(self.r, self.alike):
                n = twin(self.r, self.r.choice(sorted(taken)))
            if n not in taken:
                taken.add(n)
                return n


ACCENTED = ("\u00e9", "\u00c5", "\ufb01", "\u00df", "\u0130", "\uff10", "\u1e9e", "\uac00", "\u2126", "\u00b2", "\u01c5")


def twin(r, n):
    """A name that careless code could take for n."""
    k = r.randint(0, 19)
    if k > 15:                          # (what Unicode calls equivalent, in one way or another)
        f = r.choice(("NFC", "NFD", "NFKC", "NFKD", None, None))
        out = unicodedata.normalize(f, n) if f else n.casefold()
        if out == n:
            out = n + r.choice(ACCENTED)
    else:
        out = (n + " ", " " + n, n.swapcase(), n.upper(), n[:-1], n[1:], n + n[-1:], n[::-1], n + "\u200b", n.replace("_", "-"),
               n + "/", "./" + n, "x/../" + n, n.replace("/", "\\"), n.title(), n + "\u0000")[k]
    return out if out and "[" not in out and ":" not in out else n + "2"


def tag(r):
    v = r.choice(["0.5", "2", "1", "1.0", "0.25", "1.5", ".5", "3.", "1.005", "0.999", "1.00001", "0.01", "100", "0.1", "1.1", "0"])
    sp = lambda: r.choice(["", "", "", " ", " ", "  ", "\t", "\u00a0", "\n"])
    return "[%sscale%s:%s%s%s]" % (sp(), sp(), sp(), v, sp())


def color(r, n=8):
    """A colour, mostly not a special one, in either case."""
    c = "".join(r.choice("0123456789abcdef") for _ in range(n))
    if chance(r, 0.3):
        c = r.choice(["ffffffff", "ffffff00", "00000000", "000000ff"])[:n]
    k = r.random()
    return c.upper() if k < 0.15 else "".join(r.choice([x, x.upper()]) for x in c) if k < 0.25 else c


def opt(r, d, key, value, p=0.5):
    if chance(r, p):
        d[key] = value() if callable(value) else value


def size(r):
    return r.choice([r.randint(1, 200)] * 6 + [0, 1, 32, 0.5, round(r.uniform(1, 99), 2), 4096, 360])


def mix(r):
    return r.choice([0, 1, 0.5, 0, 1, 0.5, 0, 1, 0.5, 0.0, 1.0, -1, 2, 1e-05, round(r.random(), 3)])


def curve(r, d):
    k = r.random()
    if k < 0.5:
        return
    if k < 0.7:
        d["curve"] = "stepped"
        return
    d["curve"] = r.choice([0, 0.25, 0.5, 1, round(r.random(), 3)])
    opt(r, d, "c2", lambda: r.choice([0, 0.3, 1, -0.5, 1.7, 0.0, 1e-06]))
    opt(r, d, "c3", lambda: r.choice([1, 0.75, 0, 1.0, 0.5]))
    opt(r, d, "c4", lambda: r.choice([1, 0.9, 0, -0.4, 2.25, 1.0]))


def long(r, top=260):
    """A length far beyond the usual, each order of magnitude as likely as the next."""
    return int(math.exp(r.uniform(math.log(16), math.log(top))))


def many(r, n, p=0.012):
    """n, and rarely a lot more."""
    if not n or not chance(r, p):
        return n
    return n + r.randint(3, 12) if chance(r, 0.88) else long(r)


def times(r, n, ties=0.0):
    """Increasing times, some of them equal with `ties` (only events may share a time)."""
    t, out = 0.0, []
    n = many(r, n)
    for i in range(n):
        if i == 0:
            t = r.choice([0, 0, 0, 0, 0.0, 0.1667, 0.5, r.choice([0.0333, 0.001, 1e-10, 1, 59.9667])])
        else:
            t = t if chance(r, ties) else round(t + r.choice([0.1, 0.2667, 0.5, 1, 0.0333]), 4)
        out.append(t)
    return out


def key(r, t, **kw):
    d = {}
    if t != 0 or chance(r, 0.5):
        d["time"] = t
    d.update(kw)
    return d


# ---------------------------------------------------------------- attachments
def vertices(r, n=3):
    return [num(r, -9, 9) for _ in range(2 * n)]


def weighted(r, n):
    """Vertices bound to bones: per vertex the number of bones, then bone index, position and weight of each."""
    out = []
    for _ in range(n):
        m = r.randint(1, 3)
        out.append(m)
        for j in range(m):
            out += [0, num(r, -9, 9), num(r, -9, 9), round(1 / m, 5)]
    return out


def gen_att(r, kind, key_name, images):
    d = {}
    if kind != "region":
        d["type"] = kind
    elif chance(r, 0.05):
        d["type"] = "region"
    if chance(r, 0.25):
        d["name"] = r.choice(images + [key_name])
    if kind in spec.IMAGE_TYPES and chance(r, 0.35):
        d["path"] = r.choice(images + [key_name])
    opt(r, d, "color", lambda: r.choice(["ffffffff", "ff0000ff", "80808080", "ffffff00", "FFFFFFFF", "A0b0C0ff", "fffffffe", color(r)]), 0.2)
    if kind == "region":
        for k in ("x", "y", "rotation", "scaleX", "scaleY"):
            opt(r, d, k, lambda: num(r), 0.4)
        d["width"], d["height"] = size(r), size(r)
    elif kind == "mesh":
        n = r.randint(3, 5)
        d["uvs"] = [r.choice([0, 1, 0.5, round(r.random(), 4)]) for _ in range(2 * n)]
        d["triangles"] = [1, 2, 0] * (n - 2)
        d["vertices"] = vertices(r, n) if chance(r, 0.75) else weighted(r, n)
        d["hull"] = n
        opt(r, d, "edges", lambda: [0, 2, 2, 4, 4, 0])
        opt(r, d, "width", lambda: size(r), 0.6)
        opt(r, d, "height", lambda: size(r), 0.6)
    elif kind == "path":
        d["vertexCount"] = 3
        d["vertices"] = vertices(r)
        d["lengths"] = [num(r, 1, 99) for _ in range(many(r, 1, 0.2))]
        opt(r, d, "closed", lambda: chance(r, 0.5), 0.4)
        opt(r, d, "constantSpeed", lambda: chance(r, 0.5), 0.4)
        d.pop("path", None)
    elif kind in ("boundingbox", "clipping"):
        d["vertexCount"] = 3
        d["vertices"] = vertices(r) if chance(r, 0.8) else weighted(r, 3)
    elif kind == "point":
        for k in ("x", "y", "rotation"):
            opt(r, d, k, lambda: num(r))
    return d


# ------------------------------------------------------------------- document
DEFAULTS = dict(bones=(1, 8), slots=(0, 8), skins=(1, 4), anims=(0, 4), nonimage=0.25, tags=0.0, hostile=0.3,
                constraints=0.5, common_names=4, draworder=0.5, strange=0.15, deep=False, rich=0.5,
                scale_nonzero=False, ik_acyclic=True, missing=0.1, extras=0.0, big=0.012)


def gen_doc(r, **kw):
    o = dict(DEFAULTS, **kw)
    if "ik_acyclic" not in kw:
        o["ik_acyclic"] = chance(r, 0.75)
    if chance(r, o["big"]):
        o.update(bones=(8, 24), slots=(max(o["slots"][0], 8), max(o["slots"][1], 24)), skins=(o["skins"][0], o["skins"][1] + 4),
                 anims=(o["anims"][0], o["anims"][1] + 5 if o["anims"][1] else 0))
    elif chance(r, o["big"] / 8):
        o.update(bones=(30, 120), slots=(max(o["slots"][0], 30), max(o["slots"][1], 120)), deep=chance(r, 0.5))
    elif chance(r, o["big"] / 2):  # small but for one long list
        n, kind = long(r), r.choice([k for k in ("bones", "slots", "skins", "anims") if o[k][1] > 1])
        for k in ("bones", "slots", "skins", "anims"):
            o[k] = (n, n) if k == kind else (o[k][0], max(o[k][0], min(o[k][1], 3)))
        o["deep"] = o["deep"] and kind != "bones"
    if chance(r, 0.05):  # a document dominated by one thing
        o.update(r.choice([dict(kind=r.choice(["clipping", "path", "boundingbox", "point", "region", "mesh"])), dict(color=r.choice(COLORS)),
                           dict(key=r.choice([0.05, 0.98])), dict(setup=r.choice([0.05, 0.98]))]))
    nm = Names(r, o["hostile"] if chance(r, 0.5) else 0.05, o["tags"])
    doc = {"skeleton": {"spine": r.choice(["3.8.75", "3.8.99", "3.8", "3.8.59", "3.8.0"])}}
    opt(r, doc["skeleton"], "hash", "zXy+/=")
    opt(r, doc["skeleton"], "width", lambda: num(r))
    opt(r, doc["skeleton"], "images", lambda: r.choice(["./images/", "images", "../art/imágenes", "", "/abs/img/"]))
    opt(r, doc["skeleton"], "audio", "", 0.2)
    opt(r, doc["skeleton"], "fps", lambda: r.choice([24, 30.0, 0]), 0.1)
    for k in ("x", "y", "height"):
        opt(r, doc["skeleton"], k, lambda: num(r), 0.2)
    opt(r, doc["skeleton"], r.choice(["custom", "ünknown", "spineX"]), lambda: r.choice([None, [1, {"a": []}], {"b": {"c": 0}}, "", False]), 0.05)

    # bones
    bones = [{"name": "root"}]
    taken = {"root"}
    for _ in range(r.randint(*o["bones"]) - 1):
        b = {"name": nm.unique(taken)}
        b["parent"] = bones[-1]["name"] if (o["deep"] or chance(r, 0.3)) else r.choice(bones)["name"]
        bones.append(b)
    for b in bones:
        if not chance(r, o["rich"]) and b["name"] != "root":
            continue
        for k in ("x", "y", "rotation", "shearX", "shearY", "length"):
            opt(r, b, k, lambda: num(r), 0.35)
        for k in ("scaleX", "scaleY"):
            opt(r, b, k, lambda: (r.choice([1, 1.0, 0.5, 2, -1, 1.25]) if o["scale_nonzero"] else num(r, -3, 3)), 0.35)
        m = r.choice(MODES)
        if m:
            b["transform"] = m
        opt(r, b, "color", lambda: r.choice(["d63f07ff", "9b9b9bff", color(r)]), 0.2)
        for k in ("inheritRotation", "inheritScale"):
            opt(r, b, k, True, o["extras"] * 0.3)
    doc["bones"] = bones
    bn = [b["name"] for b in bones]

    # slots
    slots = []
    taken = set()
    same_names = chance(r, 0.15)
    att_pool = [Names(r, 0.2).one() for _ in range(o["common_names"])]
    if chance(r, 0.15):
        att_pool[-1] = twin(r, att_pool[0])
    for _ in range(r.randint(*o["slots"])):
        s = {"bone": r.choice(bn)}
        if same_names and s["bone"] not in taken and chance(r, 0.7):
            s = {"name": s["bone"], "bone": s["bone"]}      # (often so in practice)
            taken.add(s["name"])
        else:
            s = {"name": nm.unique(taken), "bone": s["bone"]}
        c = color(r) if chance(r, 0.06) else r.choice(COLORS)
        if "color" in o and chance(r, 0.9):
            c = o["color"]
        if c is not None:
            s["color"] = c
        opt(r, s, "dark", lambda: r.choice(["a0b0c0", color(r, 6)]), 0.1)
        opt(r, s, "blend", lambda: r.choice(["additive", "normal", "screen", "multiply"]), 0.12)
        slots.append(s)
    sn = [s["name"] for s in slots]

    # skins
    images = att_pool + ["img/" + n for n in att_pool[:2]] + [Names(r, 0.3).one()]
    if chance(r, 0.2):
        images += r.sample(ODD_IMAGES, 2)
    skins = [{"name": "default", "attachments": {}}]
    stak = {"default"}
    nskins = r.randint(*o["skins"])
    for _ in range(many(r, nskins) - 1 if nskins > 1 else 0):
        skins.append({"name": nm.unique(stak), "attachments": {}})
    per_slot = {}
    for s in slots:
        pool = list(dict.fromkeys(att_pool + [s["name"], Names(r, 0.2).one()]))
        if chance(r, 0.12):
            continue
        crowded = chance(r, 0.012)
        if crowded:
            pool = list(dict.fromkeys(pool + ["%s %d" % (pool[-1], j) for j in range(r.randint(6, 14) if chance(r, 0.85) else long(r))]))
        for sk in skins:
            if not chance(r, 0.6):
                continue
            x = sk["attachments"].setdefault(s["name"], {})
            for k in r.sample(pool, len(pool) - r.randint(0, 3) if crowded else r.randint(1, min(3, len(pool)))):
                kind = r.choice(["region", "region", "mesh"])
                if chance(r, o["nonimage"]):
                    kind = r.choice(["path", "boundingbox", "clipping", "point", "path"])
                if "kind" in o and chance(r, 0.6):
                    kind = o["kind"]
                a = gen_att(r, kind, k, images)
                if kind == "clipping" and chance(r, 0.7):
                    a["end"] = r.choice(sn)
                x[k] = a
        # linked meshes: any skin, any free key, parent mesh of the same slot in any skin
        meshes = [(sk, k) for sk in skins for k, a in sk["attachments"].get(s["name"], {}).items()
                  if a.get("type") == "mesh"]
        if meshes:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                psk, pk = r.choice(meshes)
                sk = r.choice(skins)
                k = pk if chance(r, 0.5) else r.choice(pool)
                x = sk["attachments"].setdefault(s["name"], {})
                if k in x:
                    continue
                a = {"type": "linkedmesh", "parent": pk}
                if psk["name"] != "default" or chance(r, 0.3):
                    a["skin"] = psk["name"]
                opt(r, a, "name", lambda: r.choice(images), 0.4)
                opt(r, a, "path", lambda: r.choice(images), 0.4)
                opt(r, a, "color", lambda: r.choice(["ffffffff", "00ff00ff", "11223344", color(r)]), 0.35)
                opt(r, a, "deform", lambda: chance(r, 0.5), 0.5)
                opt(r, a, "width", lambda: size(r), 0.6)
                opt(r, a, "height", lambda: size(r), 0.6)
                x[k] = a
        names = sorted({k for sk in skins for k in sk["attachments"].get(s["name"], {})})
        per_slot[s["name"]] = names
        if names and chance(r, o.get("setup", 0.55)):
            s["attachment"] = r.choice(names)
        elif chance(r, o["missing"]):
            s["attachment"] = r.choice(att_pool)
    # clipping whose end slot does not exist yet cannot happen: ends were drawn from the full list
    for sk in skins:
        if not sk["attachments"] and chance(r, 0.5):
            del sk["attachments"]
    if chance(r, o["strange"]):
        r.shuffle(skins)
    doc["slots"] = slots
    doc["skins"] = skins
    if not slots and chance(r, 0.5):
        del doc["slots"]

    parent = {b["name"]: b.get("parent") for b in bones}

    def above(b):
        out = []
        while b is not None:
            out.append(b)
            b = parent[b]
        return out

    if len(bn) > 2 and chance(r, o["constraints"]):
        iks = []
        tk = set()
        for _ in range(many(r, r.randint(1, 2))):
            target = r.choice(bn)
            cands = [b for b in bn if not (o["ik_acyclic"] and b in above(target))]
            if o["ik_acyclic"] and iks:
                break
            if not cands:
                continue
            bs = r.sample(cands, min(len(cands), r.randint(1, 2)))
            c = {"name": nm.unique(tk), "bones": bs, "target": target}
            opt(r, c, "order", lambda: r.choice([r.randint(0, 5), r.randint(0, 5), 12, -1]))
            opt(r, c, "mix", lambda: mix(r))
            opt(r, c, "softness", lambda: r.choice([0, 12.5]), 0.3)
            for k in ("bendPositive", "compress", "stretch", "uniform"):
                opt(r, c, k, lambda: chance(r, 0.5), 0.35)
            iks.append(c)
        if iks:
            doc["ik"] = iks
    if len(bn) > 1 and chance(r, o["constraints"]):
        tk = set()
        doc["transform"] = []
        for _ in range(many(r, r.randint(1, 2))):
            c = {"name": nm.unique(tk), "bones": r.sample(bn, min(len(bn), many(r, 1))), "target": r.choice(bn)}
            opt(r, c, "order", lambda: r.choice([r.randint(0, 5), r.randint(0, 5), 12, -1]))
            for k in ("rotation", "x", "y", "scaleX", "scaleY", "shearY"):
                opt(r, c, k, lambda: num(r), 0.4)
            for k in ("rotateMix", "translateMix", "scaleMix", "shearMix"):
                opt(r, c, k, lambda: mix(r), 0.4)
            for k in ("local", "relative"):
                opt(r, c, k, lambda: chance(r, 0.5), 0.3)
            opt(r, c, "shearX", lambda: num(r), o["extras"])
            opt(r, c, "bone", lambda: r.choice(bn), o["extras"])
            doc["transform"].append(c)
    if slots and chance(r, o["constraints"] * 0.8):
        tk = set()
        doc["path"] = []
        pslots = [s for s in sn if any(a.get("type") == "path" for sk in skins
                                       for a in (sk.get("attachments") or {}).get(s, {}).values())] or sn
        for _ in range(many(r, r.randint(1, 2))):
            c = {"name": nm.unique(tk), "bones": r.sample(bn, min(len(bn), many(r, 1))), "target": r.choice(pslots if chance(r, 0.8) else sn)}
            opt(r, c, "order", lambda: r.choice([r.randint(0, 5), r.randint(0, 5), 12, -1]))
            opt(r, c, "positionMode", lambda: r.choice(["percent", "fixed"]), 0.4)
            opt(r, c, "spacingMode", lambda: r.choice(["length", "fixed", "percent"]), 0.4)
            opt(r, c, "rotateMode", lambda: r.choice(["tangent", "chain", "chainScale"]), 0.4)
            for k in ("rotation", "position", "spacing"):
                opt(r, c, k, lambda: num(r), 0.5)
            for k in ("rotateMix", "translateMix"):
                opt(r, c, k, lambda: mix(r), 0.4)
            opt(r, c, "skin", lambda: chance(r, 0.5), 0.2)
            doc["path"].append(c)
    if chance(r, 0.5):
        tk = set()
        doc["events"] = {}
        for _ in range(many(r, r.randint(1, 3))):
            e = {}
            opt(r, e, "int", lambda: r.choice([r.randint(-2, 3), 16777217, 2147483647, -2147483648]), 0.5)
            opt(r, e, "float", lambda: num(r), 0.5)
            opt(r, e, "string", lambda: r.choice(["", "s", "hé", " ", "0", "ffffffff", "a\nb"]), 0.5)
            doc["events"][nm.unique(tk)] = e

    tk = set()
    n = r.randint(*o["anims"])
    n = many(r, n) if n > 1 else n
    if n or chance(r, 0.5):
        doc["animations"] = {}
        for _ in range(n):
            doc["animations"][nm.unique(tk)] = gen_anim(r, doc, per_slot, att_pool, o)
    if chance(r, 0.3):
        doc = shuffle_keys(r, doc)
    return doc


def gen_anim(r, doc, per_slot, att_pool, o):
    a = {}
    if chance(r, 0.06):
        return a
    slots = doc.get("slots", [])
    # slot timelines
    tls = {}
    for s in slots:
        if not chance(r, o.get("key", 0.55)):
            continue
        tl = {}
        names = per_slot.get(s["name"], []) or att_pool[:1]
        k = r.random()
        if k < 0.06:
            tl = {} if chance(r, 0.5) else {"attachment": []}
        elif k < 0.38:
            tl["attachment"] = [key(r, r.choice([0, 0, 0, 0, 0, 0.5, r.choice([0.0333, 0.001, 1e-10])]), name=None)]
        elif k < 0.75:
            tl["attachment"] = [key(r, t, name=(None if chance(r, 0.3) else r.choice(names)))
                                for t in times(r, r.randint(1, 4))]
            if len(tl["attachment"]) > 4 and chance(r, 0.5):  # the same again and again, and then something else
                usual, rest = r.choice([None] + names), r.randint(1, 3)
                for kk in tl["attachment"][:-rest]:
                    kk["name"] = usual
        if chance(r, 0.22):
            tl["color"] = []
            for t in times(r, r.randint(1, 3)):
                d = key(r, t, color=r.choice(["ffffff00", "ffffffff", "ff00ff80", color(r)]))
                curve(r, d)
                tl["color"].append(d)
        elif chance(r, 0.07):
            tl["twoColor"] = [key(r, t, light=r.choice(["ffffff00", "ffffffff", color(r)]), dark=r.choice(["102030", color(r, 6)]))
                              for t in times(r, r.randint(1, 2))]
        for kk in tl.get("attachment", []):
            if kk["name"] is None and chance(r, 0.3):
                del kk["name"]
        if tl or chance(r, 0.5):
            tls[s["name"]] = tl
    if tls or chance(r, 0.2):
        a["slots"] = tls
    if chance(r, 0.5):
        bt = {}
        for b in doc["bones"]:
            if not chance(r, 0.4):
                continue
            tl = {}
            for k in ("rotate", "translate", "scale", "shear"):
                if chance(r, 0.35):
                    tl[k] = []
                    for t in times(r, r.randint(1, 3)):
                        d = key(r, t)
                        if k == "rotate":
                            opt(r, d, "angle", lambda: num(r), 0.7)
                        else:
                            opt(r, d, "x", lambda: num(r, -3, 3), 0.7)
                            opt(r, d, "y", lambda: num(r, -3, 3), 0.7)
                        curve(r, d)
                        tl[k].append(d)
            bt[b["name"]] = tl
        a["bones"] = bt
    for kind in ("ik", "transform"):
        if doc.get(kind) and chance(r, 0.5):
            a[kind] = {}
            for c in doc[kind]:
                ks = []
                for t in times(r, r.randint(1, 3)):
                    d = key(r, t)
                    if kind == "ik":
                        opt(r, d, "mix", lambda: mix(r))
                        for k in ("bendPositive", "compress", "stretch"):
                            opt(r, d, k, lambda: chance(r, 0.5), 0.35)
                    else:
                        for k in ("rotateMix", "translateMix", "scaleMix", "shearMix"):
                            opt(r, d, k, lambda: mix(r), 0.4)
                    curve(r, d)
                    ks.append(d)
                a[kind][c["name"]] = ks
    if doc.get("path") and chance(r, 0.6):
        a["path"] = {}
        for c in doc["path"]:
            tl = {}
            for k in ("position", "spacing", "mix"):
                if chance(r, 0.5):
                    tl[k] = []
                    for t in times(r, r.randint(1, 3)):
                        d = key(r, t)
                        if k == "mix":
                            opt(r, d, "rotateMix", lambda: mix(r), 0.6)
                            opt(r, d, "translateMix", lambda: mix(r), 0.6)
                        else:
                            opt(r, d, k, lambda: num(r), 0.8)
                        curve(r, d)
                        tl[k].append(d)
            a["path"][c["name"]] = tl
    if chance(r, 0.55):
        df = {}
        for sk in doc["skins"]:
            for sl, x in (sk.get("attachments") or {}).items():
                for k, att in x.items():
                    kind = spec.atype(att)
                    ok = kind in ("mesh", "path", "boundingbox", "clipping") or \
                        (kind == "linkedmesh" and att.get("deform") is False)
                    if ok and chance(r, 0.5):
                        ks = []
                        for t in times(r, r.randint(1, 2)):
                            d = key(r, t)
                            opt(r, d, "offset", lambda: r.choice([0, 2, 4, 1, 36]), 0.4)
                            opt(r, d, "vertices", lambda: [num(r, -5, 5) for _ in range(many(r, r.randint(1, 4)))], 0.8)
                            curve(r, d)
                            ks.append(d)
                        df.setdefault(sk["name"], {}).setdefault(sl, {})[k] = ks
        if df:
            a["deform"] = df
    if len(slots) > 1 and chance(r, o["draworder"]):
        a["drawOrder"] = []
        names = [s["name"] for s in slots]
        for t in times(r, r.randint(1, 3)):
            a["drawOrder"].append(gen_draw_order(r, names, t))
    if doc.get("events") and chance(r, 0.6):
        a["events"] = []
        for t in times(r, r.randint(1, 5), ties=0.3):
            d = key(r, t, name=r.choice(list(doc["events"])))
            opt(r, d, "int", lambda: r.randint(-1, 3), 0.4)
            opt(r, d, "float", lambda: r.choice([0, 0.0, 1, 2.5]), 0.4)
            opt(r, d, "string", lambda: r.choice(["", "s", "z"]), 0.4)
            opt(r, d, "volume", lambda: mix(r), 0.2)
            opt(r, d, "balance", lambda: r.choice([0, 1, -1]), 0.2)
            opt(r, d, "audio", "a/b.wav", o["extras"])
            a["events"].append(d)
    return a


def gen_draw_order(r, names, t):
    n = len(names)
    perm = list(range(n))
    k = r.random()
    if k < 0.12:
        d = key(r, t)
        if chance(r, 0.5):
            d["offsets"] = []
        return d
    if k < 0.6:  # move a few
        for _ in range(r.randint(1, 3)):
            i, j = r.randrange(n), r.randrange(n)
            perm.insert(j, perm.pop(i))
    elif k < 0.9:
        r.shuffle(perm)
    else:
        perm.reverse()
    pos = {x: i for i, x in enumerate(perm)}
    # the slots without an entry must keep their relative order: take an increasing subsequence
    if chance(r, 0.5):
        best = lis(perm)
    else:  # any increasing subsequence
        best, order = [], list(range(n))
        r.shuffle(order)
        for x in order:
            if all((x < y) == (pos[x] < pos[y]) for y in best):
                best.append(x)
    keep = [x for x in best if chance(r, r.choice([1.0, 1.0, 0.8, 0.5]))]
    changed = [x for x in range(n) if x not in keep]
    d = key(r, t, offsets=[{"slot": names[x], "offset": pos[x] - x} for x in changed])
    assert spec.draw_order(names, d) == [names[x] for x in perm]
    return d


def lis(seq):
    best = [[x] for x in seq]
    for i, x in enumerate(seq):
        for j in range(i):
            if seq[j] < x and len(best[j]) + 1 > len(best[i]):
                best[i] = best[j] + [x]
    return max(best, key=len) if best else []


def shuffle_keys(r, x):
    if isinstance(x, dict):
        ks = list(x)
        r.shuffle(ks)
        return {k: shuffle_keys(r, x[k]) for k in ks}
    if isinstance(x, list):
        return [shuffle_keys(r, v) for v in x]
    return x


# ------------------------------------------------------------------ histories
def gen_ops(r, doc, kinds=("anims", "skins", "clean", "scale"), n=(1, 3), safe=0.25, unknown=0.0, keep_anim=True):
    """A legal editing history.  With keep_anim, a cleaning operation never leaves the document without animations."""
    anims = list(doc.get("animations", {}))
    skins = [s["name"] for s in doc["skins"]]
    ops = []
    for _ in range(r.randint(*n) if chance(r, 0.97) else r.randint(4, 8) if chance(r, 0.93) else r.randint(9, 40)):
        k = r.choice(kinds)
        if k == "anims":
            m = r.randint(0, len(anims)) if not keep_anim else r.randint(0, max(0, len(anims) - 1))
            sel = r.sample(anims, m)
            strict = chance(r, 0.6)
            req = list(sel)
            if not strict and chance(r, 0.6):
                req.insert(r.randint(0, len(req)), "no such animation")
            if not strict and req and chance(r, 0.2):
                req.append(req[0])
            ops.append(["anims", req, strict, chance(r, safe)])
            anims = [a for a in anims if a not in sel]
        elif k == "skins":
            m = r.choice([0, 1, 1, 1, 2, 3]) if chance(r, 0.92) else r.randint(0, len(skins))
            sel = r.sample(skins, min(m, len(skins)))
            s = chance(r, safe)
            if keep_anim and not anims:
                s = True
            ops.append(["skins", sel, s])
            skins = [x for x in skins if x not in sel]
        elif k == "clean":
            if not keep_anim or anims:
                ops.append(["clean"])
        elif k == "scale":
            ops.append(["scale", r.choice([2, 0.5, 1, 3, 1.5, 2.0, 0.1, 1.01, -1, 10]), r.choice([2, 0.5, 1, 3, 1.5, 2.0, 0.1, 1.01, -1, 10])])
    if keep_anim and not doc.get("animations"):
        ops = [o for o in ops if not (o[0] == "clean")]
        ops = [(["anims", o[1], o[2], True] if o[0] == "anims" else o) for o in ops]
    return ops


def valid(doc):
    """In the supported domain: loadable, one root bone called "root", the lists the format always exports present."""
    try:
        spec.load(doc)
        return (doc["bones"][0]["name"] == "root" and "skins" in doc
                and all(b.get("parent") for b in doc["bones"][1:])
                and all(c.get("bones") for k in ("ik", "transform", "path") for c in doc.get(k, []))
                and isinstance(doc["skeleton"].get("spine"), str))
    except (spec.Invalid, KeyError, TypeError, AttributeError, ValueError, IndexError):
        return False


def valid_ops(ops, doc):
    """A legal history of `doc`: well-shaped operations naming only what exists at that point."""
    shapes = {"anims": (str, list, bool, bool), "skins": (str, list, bool), "clean": (str,), "scale": (str, (int, float), (int, float))}
    anims = set(doc.get("animations", {}))
    skins = {s["name"] for s in doc["skins"]}
    try:
        for o in ops:
            if len(o) != len(shapes[o[0]]) or not all(isinstance(x, t) for x, t in zip(o, shapes[o[0]])):
                return False
            if o[0] == "anims":
                if o[2] and not set(o[1]) <= anims:
                    return False
                anims -= set(o[1])
            if o[0] == "skins":
                if not set(o[1]) <= skins or len(set(o[1])) != len(o[1]):
                    return False
                skins -= set(o[1])
        return True
    except (KeyError, TypeError, IndexError):
        return False


def cleans_empty(ops, doc):
    """Does a cleaning operation of the history meet a document without animations?"""
    anims = set(doc.get("animations", {}))
    for o in ops:
        if o[0] == "anims":
            anims -= set(o[1])
        if not anims and (o[0] == "clean" or o[0] in ("anims", "skins") and not o[-1]):
            return True
    return False


def gen_case(r, doc_opts=None, **ops):
    doc = gen_doc(r, **(doc_opts or {}))
    return {"doc": doc, "ops": gen_ops(r, doc, **ops)}


def clone(x):
    return copy.deepcopy(x)
