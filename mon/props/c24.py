"""C24 work grows polynomially with the document or graph, whatever the number of paths through it."""
import random
import sys
from contextlib import contextmanager

from .. import gen as G
from ..lib import quiet
from ..monitor import call, construct, describe, ensure
from .c22 import FIXED, Renamer, collect

QUICK, THOROUGH = 660, 4000
RULE = ("families of graphs and documents that grow by one parameter (ladders, layered and complete graphs, constraint ladders, random "
        "small documents repeated k times ...) at sizes n, 2n and 4n; every executed line of Python is counted for every operation; "
        "non-trivial: the number of paths more than squares between the sizes")
REQUIRED = {"distinct_nontrivial": 120, "operations_measured": 2000, "graph_operations": 700, "document_operations": 900}
FACTOR = 100            # 4 times the size: at most its cube, and some room
FLOOR = 3000            # lines any operation may take
CLOSE = 20              # reported in the evidence: more than the square

_TOOL = 5
_n = {"n": 0, "cap": 0}


class TooMuch(BaseException):
    pass


def _on_line(code, line):
    if "/mon/" in code.co_filename:
        return sys.monitoring.DISABLE
    _n["n"] += 1
    if _n["n"] > _n["cap"]:
        sys.monitoring.set_events(_TOOL, 0)
        raise TooMuch()


@contextmanager
def counting(cap):
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "verif work")
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    _n.update(n=0, cap=cap)
    mon.set_events(_TOOL, mon.events.LINE)
    try:
        yield
    finally:
        mon.set_events(_TOOL, 0)


# ---------------------------------------------------------------- graphs
def ladder(k, w, skip, up):
    """k layers of w nodes, each joined to all of the next; w**k paths."""
    nodes = [(i, j) for i in range(k) for j in range(w)]
    edges = [((i, j), (i + 1, l)) for i in range(k - 1) for j in range(w) for l in range(w)]
    if skip:
        edges += [((i, 0), (i + 2, 0)) for i in range(k - 2)]
    if up == 1:
        edges = [(b, a) for a, b in edges]
    return nodes, edges


def complete(k, w, skip, up):
    nodes = [(i, 0) for i in range(k)]
    return nodes, [((j, 0), (i, 0)) if up == 1 else ((i, 0), (j, 0)) for i in range(k) for j in range(i + 1, k) if skip or j - i < 4]


def diamonds(k, w, skip, up):
    nodes, edges = [(0, 0)], []
    for i in range(k):
        for j in range(1, w + 1):
            nodes.append((i, j))
            edges += [((i, 0), (i, j)), ((i, j), (i + 1, 0))]
        nodes.append((i + 1, 0))
    return nodes, [(b, a) for a, b in edges] if up == 1 else edges


GRAPHS = {"ladder": ladder, "complete": complete, "diamonds": diamonds}


def graph_work(case, k, cap):
    from spine_json_lib.graph.dagraph import DAGraph
    nodes, edges = GRAPHS[case["family"]](k, case["w"], case["skip"], case["up"])
    if case["ring"]:
        edges = edges + [(edges[-1][1], edges[0][0])]
    r = random.Random(case["seed"])
    if case["shuffle"]:
        r.shuffle(nodes)
        r.shuffle(edges)
    name = "n%d,%d".__mod__
    box = {}

    def build():
        g = box["g"] = DAGraph()
        for i, x in enumerate(nodes):
            g.add_node(node_id=name(x), node_type="INPUT_ROOT_NODE_TYPE" if case["root"] else "DEFAULT")
        for a, b in edges:
            g.add_edge(name(a), name(b))
    yield "build", build
    yield "validate", lambda: box["g"].validate()
    yield "sequential_order_of_execution", lambda: box["g"].sequential_order_of_execution()
    yield "heads and tails", lambda: (box["g"].get_heads_id(), box["g"].get_tails_id())
    # the end is next to the start: nearly no paths, whatever lies behind it
    if not case["ring"] and case["root"]:
        a, b = edges[0]
        yield "get_all_paths of at most 2 nodes", lambda: box["g"].get_all_paths(name(a), name(b), maximum_depth=2)

    def remove():
        for x in nodes[::2]:
            box["g"].remove_node_by_id(name(x))
    yield "remove nodes", remove
    yield "validate what is left", lambda: box["g"].validate()


# ---------------------------------------------------------------- documents
def constraint_ladder(k, w):
    doc = {"skeleton": {"spine": "3.8.99"}, "bones": [{"name": "root"}], "slots": [], "skins": [{"name": "default", "attachments": {}}],
           "animations": {"k": {}, "x": {}}, "ik": []}
    for i in range(k):
        for j in range(w):
            doc["bones"].append({"name": "b%d,%d" % (i, j), "parent": "root"})
            s = "s%d,%d" % (i, j)
            doc["slots"].append({"name": s, "bone": "b%d,%d" % (i, j), "attachment": "a%d" % i})
            doc["skins"][0]["attachments"][s] = {"a%d" % i: {"width": 1, "height": 1}}
            if i + 1 < k:
                for l in range(w):
                    doc["ik"].append({"name": "c%d,%d,%d" % (i, j, l), "bones": ["b%d,%d" % (i + 1, l)], "target": "b%d,%d" % (i, j),
                                      "order": len(doc["ik"])})
    return doc


def shared(k, w):
    """k slots showing the same k attachments in w + 1 skins, linked to one another."""
    mesh = {"type": "mesh", "uvs": [0, 0, 1, 0, 1, 1], "triangles": [0, 1, 2], "vertices": [0, 0, 1, 0, 1, 1], "hull": 3}
    doc = {"skeleton": {"spine": "3.8.99"}, "bones": [{"name": "root"}], "slots": [], "skins": [{"name": "default", "attachments": {}}],
           "animations": {"k": {}, "x": {}}}
    for j in range(w):
        doc["skins"].append({"name": "skin%d" % j, "attachments": {}})
    n = max(2, k // 4)
    for i in range(n):
        s = "s%d" % i
        doc["slots"].append({"name": s, "bone": "root", "attachment": "a%d" % i} if i % 2 else {"name": s, "bone": "root"})
        for j, sk in enumerate(doc["skins"]):
            sk["attachments"][s] = {"a%d" % l: dict(mesh) if j == 0 else {"type": "linkedmesh", "parent": "a%d" % l} for l in range(n)}
    return doc


def moves(k, w):
    doc = constraint_ladder(max(2, k // 2), 1)
    doc["ik"] = []
    names = [s["name"] for s in doc["slots"]]
    doc["slots"] = [dict(s) for s in doc["slots"]]
    for s in doc["slots"][::3]:
        del s["attachment"]
    order = [{"slot": s, "offset": (len(names) - 1 - i) - i} for i, s in enumerate(names)]
    doc["animations"] = {"k": {"drawOrder": [{"time": t, "offsets": [dict(o) for o in order]} for t in range(k // 2)]}, "x": {}}
    return doc


def deep(k, w):
    """A chain of k bones with a slot and scale tags on each."""
    doc = constraint_ladder(k, 1)
    doc["ik"] = []
    for a, b in zip(doc["bones"], doc["bones"][1:]):
        b["parent"] = a["name"]
    ren = {b["name"]: b["name"] + ("[scale:1.5]" if i % w else "") for i, b in enumerate(doc["bones"])}
    for b in doc["bones"]:
        b["name"] = ren[b["name"]]
        if "parent" in b:
            b["parent"] = ren[b["parent"]]
    for s in doc["slots"]:
        s["bone"] = ren[s["bone"]]
    doc["bones"][1]["transform"] = "noScale"
    return doc


def wardrobe(k, w):
    """k skins of w slots; the others' meshes are linked to those of the first."""
    doc = shared(4 * w, k)
    for i, sk in enumerate(doc["skins"][1:]):
        for x in sk["attachments"].values():
            for a in x.values():
                if i:
                    a["skin"] = "skin0"
                else:
                    a.clear()
                    a.update(doc["skins"][0]["attachments"]["s0"]["a0"])
    return doc


def film(k, w):
    """k animations with k keys in every timeline."""
    doc = shared(8, w)
    ks = lambda **kw: [dict(kw, time=t) for t in range(k)]
    for i in range(k // 4):
        doc["animations"]["x%d" % i] = {
            "slots": {"s0": {"attachment": ks(name="a0"), "color": ks(color="ff00ffff")}, "s1": {"attachment": ks(name=None)}},
            "bones": {"root": {"rotate": ks(angle=3), "translate": ks(x=1, curve=0.25)}},
            "deform": {"default": {"s0": {"a0": ks(vertices=[1, 2])}}}}
    return doc


def repeated(k, doc):
    """k / 8 copies of a document side by side below one root bone, every copy with names of its own."""
    names = collect(doc)
    out = None
    for c in range(max(1, k // 8)):
        one = Renamer({kind: {n: n if n in FIXED.get(kind, ()) else "%s #%d" % (n, c) for n in v} for kind, v in names.items()}).doc(doc)
        if out is None:
            out = one
            continue
        out["bones"] += one["bones"][1:]
        for part in ("slots", "ik", "transform", "path"):
            if part in one:
                out[part] += one[part]
        for part in ("events", "animations"):
            if part in one:
                out[part].update(one[part])
        for sk in one["skins"]:
            mine = [x for x in out["skins"] if x["name"] == sk["name"]]
            if not mine:
                out["skins"].append(sk)
            elif sk.get("attachments"):
                mine[0].setdefault("attachments", {}).update(sk["attachments"])
    return out


DOCS = {"deep": deep, "wardrobe": wardrobe, "film": film, "constraint ladder": constraint_ladder, "shared attachments": shared, "moves": moves}


def document_work(case, k, cap):
    from spine_json_lib.spine_graph_container import SpineGraphContainer
    doc = repeated(k, case["doc"]) if case["family"] == "repeated" else DOCS[case["family"]](k, case["w"])
    box = {}

    def load():
        box["e"] = construct(doc)

    def do(*op):
        kind, v = call(box["e"], list(op))
        ensure(kind == "ok", "%r failed on a supported document: %s", op, describe(v) if kind != "ok" else "")
    yield "load", load
    yield "to_json_data", lambda: box["e"].to_json_data()
    yield "get_images_references", lambda: box["e"].get_images_references()
    yield "build the node graph", lambda: box.update(c=SpineGraphContainer(doc))
    yield "sequential_order_of_execution", lambda: box["c"].graph.sequential_order_of_execution()
    yield "validate", lambda: box["c"].graph.validate()
    yield "remove_leafs_of_type", lambda: box["c"].remove_leafs_of_type("SLOT")
    yield "scale_animation", lambda: do("scale", 2, 2)
    yield "clean_animation", lambda: do("clean")
    anims = list(doc["animations"])
    yield "erase_animations", lambda: do("anims", anims[: len(anims) // 2], True, False)
    skins = [x["name"] for x in doc["skins"]]
    yield "erase_skins", lambda: do("skins", skins[:1] if len(skins) == 1 else skins[1:2] if case["seed"] % 2 else skins[1:], case["seed"] % 3 == 0)


def gen(r, i, tier):
    case = {"seed": r.randrange(1 << 30), "w": r.choice([2, 2, 3]), "skip": r.random() < 0.4, "up": r.randrange(2), "root": r.random() < 0.5,
            "ring": r.random() < 0.2, "shuffle": r.random() < 0.6, "n": r.choice([8, 9, 10, 12])}
    k = r.random()
    if k < 0.5:
        case["family"] = r.choice(sorted(GRAPHS))
    elif k < 0.85:
        case["family"] = r.choice(sorted(DOCS))
        case["n"] = 8
        case["w"] = 2
    else:
        case["family"] = "repeated"
        case["n"] = 8
        case["doc"] = G.gen_doc(r, bones=(1, 5), slots=(1, 4), skins=(1, 3), anims=(1, 3), hostile=0, big=0, strange=0)
    return case


def measure(case, k, caps):
    out = {}
    work = graph_work if case["family"] in GRAPHS else document_work
    for name, f in work(case, k, None):
        try:
            with quiet(), counting(caps.get(name, 1 << 40)):
                f()
        except TooMuch:
            ensure(False, "%s: %s takes more than %d executed lines at size %d, and it took %d at size %d", case["family"], name, caps[name],
                   k, caps["base"][name], case["n"])
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError) as e:
            ensure(False, "%s: %s failed at size %d: %s", case["family"], name, k, describe(e))
        out[name] = _n["n"]
    return out


def check(case, stats):
    n = case["n"]
    base = measure(case, n, {})
    worst = 0
    for f, factor in ((2, 32), (4, FACTOR)):
        caps = {op: factor * max(v, FLOOR) for op, v in base.items()}
        caps["base"] = base
        now = measure(case, f * n, caps)
    for op, v in now.items():
        stats["operations_measured"] += 1
        stats["graph_operations" if case["family"] in GRAPHS else "document_operations"] += 1
        worst = max(worst, v / max(base[op], FLOOR))
    stats["lines_counted"] += sum(now.values())
    if worst > CLOSE:
        stats["more_than_square"] += 1
    return case["family"] in ("ladder", "diamonds", "complete", "constraint ladder")
