"""An independent miniature Spine 3.8 runtime: what a document *means*.

Nothing here imports the library under test.  It states, from the Spine 3.8
JSON format, (1) the value a runtime assumes for every omitted attribute
(canon), (2) which references must resolve (load), (3) what a draw-order
keyframe does (draw_order), (4) what is drawn at a time of an animation with a
skin (Scene), and (5) the setup-pose world transform of every bone.
"""
import copy
import json
import math


class Invalid(Exception):
    """The document would be refused (or misread) by a Spine runtime."""


# --------------------------------------------------------------------------
# strict structural comparison: ints and floats are one kind, booleans another
# --------------------------------------------------------------------------
def norm(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return float(x) if abs(x) < 2 ** 53 else x
    if isinstance(x, float):
        return 0.0 if x == 0 else x
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    raise TypeError("not JSON: %r" % (type(x),))


def text(x):
    return json.dumps(norm(x), sort_keys=True, ensure_ascii=True)


def same(a, b):
    """Equality of JSON values, with booleans distinct from numbers."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, (dict, list, tuple)) or isinstance(a, bool) is not isinstance(b, bool):
        return False
    return a == b or (a != a and b != b)


def diff(a, b, path="", out=None, limit=6):
    """Human readable list of differences between two JSON values."""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s/%s: absent -> %s" % (path, k, _short(b[k])))
            elif k not in b:
                out.append("%s/%s: %s -> absent" % (path, k, _short(a[k])))
            else:
                diff(a[k], b[k], "%s/%s" % (path, k), out, limit)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append("%s: length %d -> %d: %s -> %s" % (path, len(a), len(b), _short(a), _short(b)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, "%s[%d]" % (path, i), out, limit)
    elif text(a) != text(b):
        out.append("%s: %s -> %s" % (path, _short(a), _short(b)))
    return out[:limit]


class Diff:
    """The differences as text, computed only when a message is needed."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __str__(self):
        return "; ".join(diff(self.a, self.b))


def _short(x):
    s = json.dumps(x, default=repr)
    return s if len(s) < 120 else s[:117] + "..."


# --------------------------------------------------------------------------
# canonical form: runtime defaults filled in, empty containers dropped
# --------------------------------------------------------------------------
CURVE = {"c2": 0, "c3": 1, "c4": 1}
D_BONE = {"length": 0, "x": 0, "y": 0, "rotation": 0, "scaleX": 1, "scaleY": 1,
          "shearX": 0, "shearY": 0, "transform": "normal"}
D_SLOT = {"color": "ffffffff", "blend": "normal"}
D_IK = {"order": 0, "mix": 1, "softness": 0, "bendPositive": True,
        "compress": False, "stretch": False, "uniform": False}
D_TRANSFORM = {"order": 0, "rotation": 0, "x": 0, "y": 0, "scaleX": 0, "scaleY": 0,
               "shearY": 0, "rotateMix": 1, "translateMix": 1, "scaleMix": 1,
               "shearMix": 1, "local": False, "relative": False}
D_PATH = {"order": 0, "positionMode": "percent", "spacingMode": "length",
          "rotateMode": "tangent", "rotation": 0, "position": 0, "spacing": 0,
          "rotateMix": 1, "translateMix": 1, "skin": False}
D_EVENT = {"int": 0, "float": 0, "string": ""}
D_ATT = {
    "region": {"x": 0, "y": 0, "rotation": 0, "scaleX": 1, "scaleY": 1, "color": "ffffffff"},
    "mesh": {"color": "ffffffff", "uvs": [], "triangles": [], "vertices": [], "edges": []},
    "linkedmesh": {"color": "ffffffff", "deform": True},
    "path": {"closed": False, "constantSpeed": True, "vertices": [], "lengths": [], "vertexCount": 0},
    "boundingbox": {"vertices": [], "vertexCount": 0},
    "clipping": {"vertices": [], "vertexCount": 0},
    "point": {"x": 0, "y": 0, "rotation": 0},
}
IMAGE_TYPES = ("region", "mesh", "linkedmesh")
D_KEY = {
    "rotate": {"time": 0, "angle": 0}, "translate": {"time": 0, "x": 0, "y": 0},
    "scale": {"time": 0, "x": 1, "y": 1}, "shear": {"time": 0, "x": 0, "y": 0},
    "attachment": {"time": 0}, "color": {"time": 0}, "twoColor": {"time": 0},
    "ik": {"time": 0, "mix": 1, "bendPositive": True, "compress": False, "stretch": False},
    "transform": {"time": 0, "rotateMix": 1, "translateMix": 1, "scaleMix": 1, "shearMix": 1},
    "position": {"time": 0, "position": 0}, "spacing": {"time": 0, "spacing": 0},
    "mix": {"time": 0, "rotateMix": 1, "translateMix": 1},
    "deform": {"time": 0, "offset": 0, "vertices": []},
}


def fill(obj, defaults):
    out = {k: v for k, v in obj.items() if v is not None}
    for k, v in defaults.items():
        if k not in out:
            out[k] = copy.copy(v)
    return out


def fill_key(obj, kind):
    out = fill(obj, D_KEY.get(kind, {"time": 0}))
    if kind != "attachment":
        c = out.get("curve")
        if c is None or c == []:
            out.pop("curve", None)
        if isinstance(out.get("curve"), (int, float)) and not isinstance(out.get("curve"), bool):
            for k, v in CURVE.items():
                out.setdefault(k, v)
        else:  # control values mean nothing without a Bezier curve, but their defaults may be omitted
            for k, v in CURVE.items():
                if k in out and same(out[k], v):
                    del out[k]
    return out


def canon_att(att, key):
    kind = att.get("type") or "region"
    out = fill(att, D_ATT.get(kind, {}))
    out["type"] = kind
    out["name"] = out.get("name") or key
    if kind in IMAGE_TYPES:
        out["path"] = out.get("path") or out["name"]
    if kind == "linkedmesh":
        out["skin"] = out.get("skin") or "default"
    return out


def drop_empty(x):
    """Remove empty containers from a mapping of timelines, recursively (dict levels only)."""
    if isinstance(x, dict):
        y = {k: drop_empty(v) for k, v in x.items()}
        return {k: v for k, v in y.items() if v not in ({}, [])}
    return x


def canon_anim(anim, events):
    out = {}
    known = ("bones", "slots", "ik", "transform", "path", "deform", "drawOrder", "events")
    for k, v in anim.items():
        if k not in known:
            out[k] = v
    def keys(lst, kind):
        return [fill_key(x, kind) for x in lst]
    out["bones"] = drop_empty({b: {k: keys(v, k) for k, v in tl.items()} for b, tl in anim.get("bones", {}).items()})
    out["slots"] = drop_empty({b: {k: keys(v, k) for k, v in tl.items()} for b, tl in anim.get("slots", {}).items()})
    out["ik"] = drop_empty({b: keys(v, "ik") for b, v in anim.get("ik", {}).items()})
    out["transform"] = drop_empty({b: keys(v, "transform") for b, v in anim.get("transform", {}).items()})
    out["path"] = drop_empty({b: {k: keys(v, k) for k, v in tl.items()} for b, tl in anim.get("path", {}).items()})
    out["deform"] = drop_empty({s: {b: {a: keys(v, "deform") for a, v in x.items()} for b, x in y.items()}
                                for s, y in anim.get("deform", {}).items()})
    out["drawOrder"] = [dict(fill(k, {"time": 0}), offsets=[dict(o) for o in (k.get("offsets") or [])])
                        for k in anim.get("drawOrder", [])]
    evs = []
    for e in anim.get("events", []):
        base = fill(events.get(e.get("name"), {}), D_EVENT)
        f = fill(e, {"time": 0, "int": base["int"], "float": base["float"], "string": base["string"],
                     "volume": 1, "balance": 0})
        if f.get("audio") == "":
            del f["audio"]
        evs.append(f)
    out["events"] = evs
    return {k: v for k, v in out.items() if v not in ({}, [])}


def canon(doc):
    known = ("skeleton", "bones", "slots", "skins", "ik", "transform", "path", "events", "animations")
    out = {k: v for k, v in doc.items() if k not in known}
    out["skeleton"] = doc.get("skeleton")
    out["bones"] = [fill(b, D_BONE) for b in doc.get("bones", [])]
    out["slots"] = [fill(b, D_SLOT) for b in doc.get("slots", [])]
    out["skins"] = []
    for s in doc.get("skins", []):
        t = {k: v for k, v in s.items() if k != "attachments" and v is not None}
        t["attachments"] = {sl: {k: canon_att(a, k) for k, a in x.items()}
                            for sl, x in (s.get("attachments") or {}).items() if x}
        out["skins"].append(t)
    out["ik"] = [fill(b, D_IK) for b in doc.get("ik", [])]
    out["transform"] = [fill(b, D_TRANSFORM) for b in doc.get("transform", [])]
    for t in out["transform"]:
        if t.get("shearX") == 0:
            del t["shearX"]
        if t.get("bone") == "":
            del t["bone"]
    out["path"] = [fill(b, D_PATH) for b in doc.get("path", [])]
    out["events"] = {k: fill(v, D_EVENT) for k, v in doc.get("events", {}).items()}
    out["animations"] = {k: canon_anim(v, doc.get("events", {})) for k, v in doc.get("animations", {}).items()}
    return out


# --------------------------------------------------------------------------
# references: what a runtime loader refuses
# --------------------------------------------------------------------------
def draw_order(slots, key):
    """slots: list of names.  The algorithm of SkeletonJson.readDrawOrder."""
    n = len(slots)
    offsets = key.get("offsets") or []
    index = {s: i for i, s in enumerate(slots)}
    order = [None] * n
    unchanged = []
    orig = 0
    for o in offsets:
        if o.get("slot") not in index:
            raise Invalid("draw order names unknown slot %r" % (o.get("slot"),))
        if isinstance(o.get("offset"), bool) or not isinstance(o.get("offset"), int):
            raise Invalid("draw order offset is not an integer: %r" % (o.get("offset"),))
        si = index[o["slot"]]
        if si < orig:
            raise Invalid("draw order entries not in slot order (or repeated): %r" % (offsets,))
        while orig != si:
            unchanged.append(orig)
            orig += 1
        at = orig + o["offset"]
        if not 0 <= at < n:
            raise Invalid("draw order offset out of range: %r with %d slots" % (o, n))
        if order[at] is not None:
            raise Invalid("draw order position used twice: %r" % (offsets,))
        order[at] = orig
        orig += 1
    unchanged.extend(range(orig, n))
    rest = iter(unchanged)
    return [slots[next(rest) if x is None else x] for x in order]


def load(doc):
    """Raise Invalid where a runtime would refuse the document."""
    def need(cond, msg, *a):
        if not cond:
            raise Invalid(msg % a)
    need(isinstance(doc.get("skeleton"), dict), "no skeleton block")
    bones = set()
    for b in doc.get("bones", []):
        need("name" in b, "bone without name")
        need(b["name"] not in bones, "duplicate bone %r", b["name"])
        if b.get("parent") is not None:
            need(b["parent"] in bones, "parent bone %r of %r not found", b["parent"], b["name"])
        bones.add(b["name"])
    slots = []
    for s in doc.get("slots", []):
        need(s.get("bone") in bones, "bone %r of slot %r not found", s.get("bone"), s.get("name"))
        need(s["name"] not in slots, "duplicate slot %r", s["name"])
        slots.append(s["name"])
    sset = set(slots)
    for kind, tslots in (("ik", False), ("transform", False), ("path", True)):
        names = set()
        for c in doc.get(kind, []):
            need(c["name"] not in names, "duplicate %s constraint %r", kind, c["name"])
            names.add(c["name"])
            for b in c.get("bones", []):
                need(b in bones, "bone %r of %s %r not found", b, kind, c["name"])
            if tslots:
                need(c.get("target") in sset, "target slot %r of path %r not found", c.get("target"), c["name"])
            else:
                need(c.get("target") in bones, "target bone %r of %s %r not found", c.get("target"), kind, c["name"])
    skins = {}
    for s in doc.get("skins", []):
        need(s["name"] not in skins, "duplicate skin %r", s["name"])
        skins[s["name"]] = s
        for sl in (s.get("attachments") or {}):
            need(sl in sset, "slot %r of skin %r not found", sl, s["name"])
    for s in skins.values():
        for sl, x in (s.get("attachments") or {}).items():
            for key, a in x.items():
                kind = a.get("type") or "region"
                if kind == "linkedmesh":
                    ps = skins.get(a.get("skin") or "default")
                    need(ps is not None, "skin %r of linked mesh %r not found", a.get("skin") or "default", key)
                    pa = ((ps.get("attachments") or {}).get(sl) or {}).get(a.get("parent"))
                    need(pa is not None, "parent mesh %r of linked mesh %r (slot %r) not found", a.get("parent"), key, sl)
                    need(pa.get("type") == "mesh", "parent %r of linked mesh %r is no mesh", a.get("parent"), key)
                elif kind == "clipping":
                    if a.get("end") is not None:
                        need(a["end"] in sset, "end slot %r of clipping %r not found", a["end"], key)
    cons = {k: {c["name"] for c in doc.get(k, [])} for k in ("ik", "transform", "path")}
    for an, a in doc.get("animations", {}).items():
        for b in a.get("bones", {}):
            need(b in bones, "animation %r: bone %r not found", an, b)
        for b in a.get("slots", {}):
            need(b in sset, "animation %r: slot %r not found", an, b)
        for kind in cons:
            for c in a.get(kind, {}):
                need(c in cons[kind], "animation %r: %s constraint %r not found", an, kind, c)
        for sk, y in a.get("deform", {}).items():
            if not y or not any(y.values()):
                continue
            need(sk in skins, "animation %r: deform skin %r not found", an, sk)
            for sl, z in y.items():
                if not z:
                    continue
                need(sl in sset, "animation %r: deform slot %r not found", an, sl)
                for key in z:
                    att = ((skins[sk].get("attachments") or {}).get(sl) or {}).get(key)
                    need(att is not None, "animation %r: deform attachment %r/%r/%r not found", an, sk, sl, key)
        for k in a.get("drawOrder", []):
            draw_order(slots, k)
        for e in a.get("events", []):
            need(e.get("name") in doc.get("events", {}), "animation %r: event %r not found", an, e.get("name"))


# --------------------------------------------------------------------------
# rendering
# --------------------------------------------------------------------------
def alpha_zero(color):
    return isinstance(color, str) and len(color) == 8 and color[6:] == "00"


def atype(att):
    return att.get("type") or "region"


def image_of(att, key):
    return att.get("path") or att.get("name") or key


class Scene:
    """Renders one document."""

    def __init__(self, doc):
        self.doc = doc
        self.slots = doc.get("slots", [])
        self.names = [s["name"] for s in self.slots]
        self.by_name = {s["name"]: s for s in self.slots}
        self.skins = {s["name"]: (s.get("attachments") or {}) for s in doc.get("skins", [])}
        self.anims = doc.get("animations", {})
        self._att = {}

    def lookup(self, skin, slot, name):
        if name is None:
            return None
        for sk in ([skin, "default"] if skin != "default" else ["default"]):
            if sk is None:
                continue
            a = self.skins.get(sk, {}).get(slot, {}).get(name)
            if a is not None:
                return sk, a
        return None

    def picture(self, anim, skin, slot, name):
        """What attachment `name` of `slot` shows with `skin` in `anim` (None: nothing)."""
        found = self.lookup(skin, slot, name)
        if found is None:
            return None
        sk, a = found
        kind = atype(a)
        c = canon_att(a, name)
        deform = anim.get("deform", {})
        own = deform.get(sk, {}).get(slot, {}).get(name)
        if kind == "region":
            sig = {k: c.get(k) for k in ("x", "y", "rotation", "scaleX", "scaleY", "width", "height", "color", "path")}
            sig["kind"] = "region"
            own = None
        elif kind in ("mesh", "linkedmesh"):
            geo = c
            if kind == "linkedmesh":
                ps = a.get("skin") or "default"
                parent = self.skins.get(ps, {}).get(slot, {}).get(a.get("parent"))
                if parent is None:
                    raise Invalid("linked mesh %r/%r has no parent" % (slot, name))
                geo = canon_att(parent, a.get("parent"))
                if c.get("deform") is not False:
                    own = deform.get(ps, {}).get(slot, {}).get(a.get("parent"))
            sig = {k: geo.get(k) for k in ("uvs", "triangles", "vertices", "hull", "edges")}
            sig.update(color=c["color"], path=c["path"], width=c.get("width"), height=c.get("height"), kind="mesh")
        else:
            sig = dict(c)
            sig["kind"] = kind
        if own:
            sig["deform_timeline"] = [fill_key(k, "deform") for k in own]
        return sig

    def times(self, anim):
        ts = {0.0}
        for tl in anim.get("slots", {}).values():
            for k in tl.get("attachment", []):
                ts.add(float(k.get("time") or 0))
        for k in anim.get("drawOrder", []):
            ts.add(float(k.get("time") or 0))
        ts = sorted(ts)
        mids = [(a + b) / 2 for a, b in zip(ts, ts[1:])]
        return sorted(set(ts + mids + [ts[-1] + 1.0]))

    def attachment_at(self, anim, slot, t):
        keys = anim.get("slots", {}).get(slot, {}).get("attachment", [])
        cur = self.by_name[slot].get("attachment")
        for k in keys:
            if float(k.get("time") or 0) <= t:
                cur = k.get("name")
        return cur

    def order_at(self, anim, t):
        key = None
        for k in anim.get("drawOrder", []):
            if float(k.get("time") or 0) <= t:
                key = k
        return list(self.names) if key is None else draw_order(self.names, key)

    def frame(self, anim_name, skin, t):
        anim = self.anims[anim_name]
        out = []
        for slot in self.order_at(anim, t):
            name = self.attachment_at(anim, slot, t)
            if name is None:
                continue
            ck = (anim_name, skin, slot, name)
            if ck not in self._att:
                s = self.by_name[slot]
                tl = anim.get("slots", {}).get(slot, {})
                colors = [[fill_key(k, kk) for k in tl.get(kk, [])] for kk in ("color", "twoColor")]
                pic = self.picture(anim, skin, slot, name)
                if pic is not None and pic["kind"] in ("region", "mesh") and alpha_zero(s.get("color")) \
                        and not colors[0] and not colors[1]:
                    pic = None
                if pic is not None:
                    pic = text([slot, name, s.get("bone"), s.get("color") or "ffffffff", s.get("dark"),
                                s.get("blend") or "normal", colors, pic])
                self._att[ck] = pic
            if self._att[ck] is not None:
                out.append(self._att[ck])
        return out


def compare_scenes(before, after, skins=None, max_times=40, r=None):
    """Raise AssertionError-free: return (first difference or None, frames compared)."""
    A, B = Scene(before), Scene(after)
    n = 0
    drawn = 0
    for an in B.anims:
        if an not in A.anims:
            return "animation %r appeared" % an, n, drawn
        times = sorted(set(A.times(A.anims[an])) | set(B.times(B.anims[an])))
        if len(times) > max_times and r is not None:
            times = sorted(r.sample(times, max_times))
        for skin in ([None] + list(B.skins) if skins is None else skins):
            for t in times:
                fa, fb = A.frame(an, skin, t), B.frame(an, skin, t)
                n += 1
                drawn += len(fa)
                if fa != fb:
                    return ("animation %r, skin %r, time %g draws differently: %s"
                            % (an, skin, t, _frame_diff(fa, fb))), n, drawn
    return None, n, drawn


def _frame_diff(a, b):
    na = [json.loads(x)[:2] for x in a]
    nb = [json.loads(x)[:2] for x in b]
    if na != nb:
        return "before (slot, attachment) %s, after %s" % (_short(na), _short(nb))
    for x, y in zip(a, b):
        if x != y:
            return "; ".join(diff(json.loads(x), json.loads(y)))
    return "?"


# --------------------------------------------------------------------------
# world transforms (setup pose, no constraints), as Bone.updateWorldTransform
# --------------------------------------------------------------------------
def world(bones):
    out = {}
    rad = math.radians
    for raw in bones:
        b = fill(raw, D_BONE)
        x, y, rot = b["x"], b["y"], b["rotation"]
        sx, sy, shx, shy = b["scaleX"], b["scaleY"], b["shearX"], b["shearY"]
        la = math.cos(rad(rot + shx)) * sx
        lb = math.cos(rad(rot + 90 + shy)) * sy
        lc = math.sin(rad(rot + shx)) * sx
        ld = math.sin(rad(rot + 90 + shy)) * sy
        p = out.get(b.get("parent"))
        if p is None:
            out[b["name"]] = (la, lb, lc, ld, x, y)
            continue
        pa, pb, pc, pd, pwx, pwy = p
        wx = pa * x + pb * y + pwx
        wy = pc * x + pd * y + pwy
        mode = b["transform"]
        if mode == "normal":
            m = (pa * la + pb * lc, pa * lb + pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        elif mode == "onlyTranslation":
            m = (la, lb, lc, ld)
        elif mode == "noRotationOrReflection":
            s = pa * pa + pc * pc
            if s > 1e-12:
                s = abs(pa * pd - pb * pc) / s
                pb, pd = pc * s, pa * s
                prx = math.degrees(math.atan2(pc, pa))
            else:
                pa = pc = 0.0
                prx = 90 - math.degrees(math.atan2(pd, pb))
            rx, ry = rot + shx - prx, rot + shy - prx + 90
            la, lb = math.cos(rad(rx)) * sx, math.cos(rad(ry)) * sy
            lc, ld = math.sin(rad(rx)) * sx, math.sin(rad(ry)) * sy
            m = (pa * la - pb * lc, pa * lb - pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        elif mode in ("noScale", "noScaleOrReflection"):
            cos, sin = math.cos(rad(rot)), math.sin(rad(rot))
            za, zc = pa * cos + pb * sin, pc * cos + pd * sin
            s = math.hypot(za, zc)
            if s > 1e-9:
                s = 1 / s
            za *= s
            zc *= s
            s = math.hypot(za, zc)
            if mode == "noScale" and (pa * pd - pb * pc < 0):
                s = -s
            r = math.pi / 2 + math.atan2(zc, za)
            zb, zd = math.cos(r) * s, math.sin(r) * s
            la, lb = math.cos(rad(shx)) * sx, math.cos(rad(90 + shy)) * sy
            lc, ld = math.sin(rad(shx)) * sx, math.sin(rad(90 + shy)) * sy
            m = (za * la + zb * lc, za * lb + zb * ld, zc * la + zd * lc, zc * lb + zd * ld)
        else:
            raise Invalid("transform mode %r" % mode)
        out[b["name"]] = m + (wx, wy)
    return out


# --------------------------------------------------------------------------
# the documented visibility rules and the image list, stated independently
# --------------------------------------------------------------------------
def images_of(doc, skins=None):
    out = set()
    for s in doc.get("skins", []):
        if skins is not None and s["name"] not in skins:
            continue
        for x in (s.get("attachments") or {}).values():
            for key, a in x.items():
                if atype(a) in IMAGE_TYPES:
                    out.add(image_of(a, key))
    return out


def empty_key(k):
    return k.get("name") is None


def hidden_in(slot, tl, exempt_alpha):
    """Is the slot certainly showing nothing in an animation in which it has timelines tl?"""
    att, colors = tl.get("attachment", []), tl.get("color", []) or tl.get("twoColor", [])
    if not colors and len(att) == 1 and empty_key(att[0]) and not att[0].get("time"):
        return True
    if alpha_zero(slot.get("color")) and not colors and not exempt_alpha:
        return True
    if all(slot.get(k) is None for k in ("attachment", "dark", "blend", "color")) \
            and not any(not empty_key(k) for k in att):
        return True
    return False


def nonimage_slots(doc):
    return {sl for s in doc.get("skins", []) for sl, x in (s.get("attachments") or {}).items()
            for a in x.values() if atype(a) not in IMAGE_TYPES}


def referenced_slots(doc):
    out = {p.get("target") for p in doc.get("path", [])}
    for s in doc.get("skins", []):
        for x in (s.get("attachments") or {}).values():
            for a in x.values():
                if atype(a) == "clipping" and a.get("end") is not None:
                    out.add(a["end"])
    return out


def visible_names(doc):
    """(slots visible in some animation, attachment names used by a slot visible in some animation)"""
    non = nonimage_slots(doc)
    vis, used = set(), set()
    for anim in doc.get("animations", {}).values():
        for s in doc.get("slots", []):
            tl = anim.get("slots", {}).get(s["name"], {})
            if hidden_in(s, tl, s["name"] in non):
                continue
            vis.add(s["name"])
            used.add(s.get("attachment"))
            used.update(k.get("name") for k in tl.get("attachment", []))
    used.discard(None)
    return vis, used
