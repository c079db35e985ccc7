"""C13 graph adjacency against a model."""
import copy

from ..monitor import Violation, copied, describe, ensure
from .. import graphs
from ..gen import long

QUICK, THOROUGH = 28000, 120000
RULE = ("random sequences of up to 60 legal and illegal operations on two graphs (one with a type rule), the whole public view "
        "compared with a set model after every operation; graphs replaced by copies of themselves on the way; some with 16 to 260 nodes; plus chains of up to 3000 nodes; non-trivial: at least one edge "
        "existed and one node was removed")
REQUIRED = {"distinct_nontrivial": 1200, "illegal_calls": 4000, "nodes_removed": 4000, "edges_added": 8000,
            "generated_ids": 1500, "copies_attempted": 2000, "long_chains": 3}
FORBID = {"T1": ["T2"], "T2": ["T1", "T3"], "T3": [], "T4": ["T4"]}


def gen(r, i, tier):
    if i in (2, 5, 9) or (tier != "quick" and i % 3000 == 1):
        return {"chain": r.choice([1500, 3000]), "reverse": r.random() < 0.5}
    crowd = r.random() < 0.003
    pool = ["n%d" % k for k in range(long(r))] if crowd else graphs.ids(r, r.randint(2, 9))
    hub = r.choice(pool)
    ops, live = [], [[], []]
    if crowd:
        for n in pool:
            ops.append([0, "add", n, r.choice(sorted(FORBID))])
            live[0].append(n)
        for n in pool:
            ops.append([0, "edge", *r.choice([(hub, n), (n, hub), (r.choice(pool), n)])])
    elif r.random() < 0.25:
        # runs of numbers that the id generator is about to reach
        lo = r.randint(1, 15)
        pool = [str(n) for n in range(lo, lo + r.randint(2, 6))] + pool[:3]
        pool = list(dict.fromkeys(pool))
        for n in r.sample(pool, r.randint(2, len(pool))):
            ops.append([0, "add", n, r.choice(sorted(FORBID))])
            live[0].append(n)
        for _ in range(r.randint(1, 25)):
            ops.append([0, "add", None, r.choice(sorted(FORBID))])
    for _ in range(r.randint(5, 60)):
        g = r.choice([0, 0, 0, 1])
        have = live[g] if live[g] and r.random() < 0.9 else pool + ["missing"]
        k = r.random()
        if len(live[g]) < 3 and r.random() < 0.6 or k < 0.2:
            n = r.choice([x for x in pool if x not in live[g]] or pool) if r.random() < 0.8 else r.choice(pool + [None, None])
            ops.append([g, "add", n, r.choice(sorted(FORBID))])
            if n is not None and n not in live[g]:
                live[g].append(n)
        elif k < 0.7:
            ops.append([g, "edge", r.choice(have), r.choice(have)])
        elif k < 0.8:
            ops.append([g, "unedge", r.choice(have), r.choice(have)])
        elif k < 0.92:
            n = r.choice(have)
            ops.append([g, "del", n])
            live[g] = [x for x in live[g] if x != n]
        elif k < 0.935:
            ops.append([g, "copy", r.choice(["copy.deepcopy", "pickle"])])
        else:
            ops.append([g, r.choice(["add_int", "edge_none", "get_int", "edge_int", "del_gen"])])
    return {"graph": ops, "pool": pool}


def shrinkable(path):
    return path[0] == "graph" and len(path) == 2


def factory():
    from spine_json_lib.graph.factories import INodeFactory
    from spine_json_lib.graph.spamnode import SpamNode

    class Typed(INodeFactory):
        def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
            return SpamNode(id_value=node_id, order=order, data=node_data, node_type=node_type,
                            children_types_forbidden=FORBID[node_type], public_id=public_id)
    return Typed()


class Model:
    def __init__(self, typed):
        self.nodes, self.edges, self.typed = {}, set(), typed

    def heads(self):
        return sorted(set(self.nodes) - {b for _, b in self.edges})

    def tails(self):
        return sorted(set(self.nodes) - {a for a, _ in self.edges})


def compare(g, m, known, op):
    kids, above = {}, {}
    for a, b in m.edges:
        kids.setdefault(a, []).append(b)
        above.setdefault(b, []).append(a)
    for n in known:
        x = g.get_node(n)
        if n not in m.nodes:
            ensure(x is None, "after %r: node %r exists", op, n)
            continue
        ensure(x is not None, "after %r: node %r is lost", op, n)
        c = sorted(kids.get(n, []))
        p = sorted(above.get(n, []))
        ensure(sorted(x.children) == c, "after %r: children of %r are %r, should be %r", op, n, sorted(x.children), c)
        ensure(sorted(x.parents) == p, "after %r: parents of %r are %r, should be %r", op, n, sorted(x.parents), p)
        ensure(all(x.children[k] is g.get_node(k) for k in c) and all(x.parents[k] is g.get_node(k) for k in p),
               "after %r: an edge of %r leads to another node", op, n)
        ensure((x.num_children, x.num_parents) == (len(c), len(p)), "after %r: wrong counts for %r", op, n)
        ensure(x.id == n and x.node_type == m.nodes[n][0] and x.data == m.nodes[n][1], "after %r: node %r changed", op, n)
        ensure(x.public_id == m.nodes[n][2], "after %r: public id of %r is %r, should be %r", op, n, x.public_id, m.nodes[n][2])
    h, t = g.get_heads_id(), g.get_tails_id()
    ensure(sorted(h) == m.heads(), "after %r: heads %r, should be %r", op, h, m.heads())
    ensure(sorted(t) == m.tails(), "after %r: tails %r, should be %r", op, t, m.tails())


def check(case, stats):
    from spine_json_lib.graph.dagraph import DAGraph
    if "chain" in case:
        n = case["chain"]
        g = DAGraph()
        names = ["c%d" % i for i in range(n)]
        for x in (reversed(names) if case["reverse"] else names):
            g.add_node(node_id=x)
        for a, b in zip(names, names[1:]):
            g.add_edge(a, b)
        try:
            h, t = g.get_heads_id(), g.get_tails_id()
        except RecursionError as e:
            ensure(False, "heads/tails of a chain of %d nodes: %s", n, describe(e))
        ensure(list(h) == ["c0"] and list(t) == [names[-1]], "chain of %d: heads %r, tails %r", n, h[:3], t[:3])
        stats["long_chains"] += 1
        return False
    gs = [DAGraph(), DAGraph(factory())]
    ms = [Model(False), Model(True)]
    known = [set(case["pool"]) | {"missing"}, set(case["pool"]) | {"missing"}]
    generated = [[], []]
    originals = []
    had_edge = had_removal = False
    for op in case["graph"]:
        w, kind, a = op[0], op[1], op[2:]
        g, m = gs[w], ms[w]
        legal = True
        do = None
        if kind == "copy":
            # the graph goes on as a copy; the original stays what it is
            how = "copy.deepcopy" if w else a[0]     # (the factory of the second graph is a local class)
            new = copied(g, how, stats)
            if new is None:
                continue
            gs[w] = new
            originals.append((g, copy.deepcopy(m), set(known[w])))
            compare(gs[w], m, known[w], op)
            continue
        if kind == "add":
            nid, ty = a
            legal = nid is None or nid not in m.nodes
            data = None if (len(m.nodes) + 2 * len(m.edges)) % 5 == 0 else {"v": [len(m.nodes)]}
            # (decided by position, so that shrinking keeps it)
            pub = [None, None, "public", nid][(len(m.nodes) + len(m.edges)) % 4]
            do = lambda: g.add_node(node_id=nid, node_type=ty, node_data=data, public_id=pub)
        elif kind == "edge":
            x, y = a
            legal = x in m.nodes and y in m.nodes and x != y and not (m.typed and m.nodes[y][0] in FORBID[m.nodes[x][0]])
            do = lambda: g.add_edge(x, y)
        elif kind == "unedge":
            x, y = a
            legal = (x, y) in m.edges
            do = lambda: g.remove_edge(x, y)
        elif kind == "del":
            x = a[0]
            legal = x in m.nodes
            do = lambda: g.remove_node_by_id(x)
        elif kind == "del_gen":
            live = [x for x in generated[w] if x in m.nodes]
            if not live:
                continue
            x = live[0]
            kind = "del"
            do = lambda: g.remove_node_by_id(x)
        else:
            legal = False
            first = next(iter(m.nodes), "missing")
            do = {"add_int": lambda: g.add_node(node_id=7, node_type="T1"), "edge_none": lambda: g.add_edge(first, None),
                  "get_int": lambda: g.get_node(3), "edge_int": lambda: g.add_edge(1, first)}[kind]
        try:
            got, err = do(), None
        except Exception as e:
            got, err = None, e
        if not legal:
            stats["illegal_calls"] += 1
            ensure(err is not None, "illegal call %r did not raise", op)
        else:
            ensure(err is None, "legal call %r raised %s", op, err and describe(err))
            if kind == "add":
                new = got.id
                if nid is None:
                    stats["generated_ids"] += 1
                    ensure(isinstance(new, str) and new not in m.nodes, "generated id %r is taken or no text", new)
                    generated[w].append(new)
                else:
                    ensure(new == nid, "add_node(%r) made %r", nid, new)
                m.nodes[new] = (ty, data, new if pub is None else pub)
                known[w].add(new)
            elif kind == "edge":
                m.edges.add((x, y))
                had_edge = True
                stats["edges_added"] += 1
            elif kind == "unedge":
                m.edges.discard((x, y))
                stats["edges_removed"] += 1
            elif kind == "del":
                ensure(got is not None and got.id == x, "remove_node_by_id(%r) returned %r", x, got)
                del m.nodes[x]
                m.edges = {e for e in m.edges if x not in e}
                had_removal = True
                stats["nodes_removed"] += 1
        for k in (0, 1):
            compare(gs[k], ms[k], known[k], op)
        stats["operations"] += 1
    for g, m, k in originals:
        compare(g, m, k, "everything done to its copy")
    for n in set(ms[0].nodes) & set(ms[1].nodes):
        a, b = gs[0].get_node(n), gs[1].get_node(n)
        try:
            ensure(a == b and b == a, "nodes with id %r of two graphs are not equal", n)
            ensure(hash(a) == hash(b) and len({a, b}) == 1, "equal nodes %r hash differently", n)
        except Violation:
            raise
        except Exception as e:
            ensure(False, "comparing or hashing nodes %r: %s", n, describe(e))
        stats["nodes_hashed"] += 1
    live = [gs[0].get_node(n) for n in ms[0].nodes]
    ensure(all((x == y) == (x is y) for x in live for y in live), "nodes with different ids compare equal")
    return had_edge and had_removal
