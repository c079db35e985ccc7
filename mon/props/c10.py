"""C10 inputs, outputs and editors are independent."""
import copy
import json
import random
import threading

from .. import gen as G, lib, spec
from ..lib import quiet
from ..monitor import call, construct, copied, describe, ensure, read

QUICK, THOROUGH = 3600, 100000
RULE = ("two editors built from one input object (or from two documents with names in common), a control editor built from a private copy; random interleavings of edits, reads "
        "and deep caller-side mutation (adding, clearing, overwriting) of the input, of request lists and of returned documents; "
        "every document is compared with the control and every kept snapshot with its own deep copy; and histories on four editors run in four threads at once, with forced thread switches inside the library, compared with "
        "the same histories run alone; deep copies and unpickled copies of editors made half-way, each finishing the history; non-trivial: something was mutated and an edit changed a document")
REQUIRED = {"distinct_nontrivial": 1500, "outputs_poisoned": 4000, "inputs_poisoned": 1000, "snapshots_kept": 4000,
            "comparisons": 10000, "thread_runs": 120, "thread_event_switches": 500,
            "same_object_comparisons": 600, "copies_attempted": 600}


def gen(r, i, tier):
    o = dict(nonimage=r.choice([0, 0.2]), anims=(1, 4))
    doc = G.gen_doc(r, **o)
    kinds = ("anims", "skins", "clean", "scale")
    if i % 8 == 3:
        # the same object in several places of the input, which for its meaning makes no difference
        for _ in range(r.randint(0, 2)):
            double(r, doc)
        return {"doc": doc, "ops": G.gen_ops(r, doc, kinds=kinds, n=(1, 4)), "same": True}
    if i % 8 == 6:
        return {"doc": doc, "ops": G.gen_ops(r, doc, kinds=kinds, n=(1, 4)), "copies": r.randrange(10 ** 9)}
    if i % 15 == 5:
        jobs = []
        for _ in range(4):
            d = doc if r.random() < 0.3 else G.gen_doc(r, big=0, **o)
            jobs.append({"doc": d, "ops": G.gen_ops(r, d, kinds=kinds, n=(1, 4))})
        return {"threads": jobs, "every": r.choice([11, 37, 101, 401])}
    case = {"doc": doc, "ops": G.gen_ops(r, doc, kinds=kinds, n=(1, 4)), "ops2": G.gen_ops(r, doc, kinds=kinds, n=(1, 3)),
            "plan": r.randrange(10 ** 9)}
    if r.random() < 0.3:
        # another document with many names in common
        other = G.gen_doc(r, **o)
        case.update(other=other, ops2=G.gen_ops(r, other, kinds=kinds, n=(1, 3)))
    return case


def double(r, doc):
    """Repeat a slot, an animation, a bone's timelines or an event under a new name, its content being equal."""
    k = r.random()
    if k < 0.6 and doc.get("slots"):
        s = r.choice(doc["slots"])
        n = s["name"] + "'"
        if any(x["name"] == n for x in doc["slots"]):
            return
        doc["slots"].append(dict(s, name=n))
        for sk in doc["skins"]:
            if s["name"] in (sk.get("attachments") or {}):
                sk["attachments"][n] = copy.deepcopy(sk["attachments"][s["name"]])
        for a in doc.get("animations", {}).values():
            if s["name"] in a.get("slots", {}):
                a["slots"][n] = copy.deepcopy(a["slots"][s["name"]])
            for x in a.get("deform", {}).values():
                if s["name"] in x:
                    x[n] = copy.deepcopy(x[s["name"]])
    elif k < 0.8 and doc.get("animations"):
        a = r.choice(sorted(doc["animations"]))
        doc["animations"].setdefault(a + "'", copy.deepcopy(doc["animations"][a]))
    elif doc.get("skins"):
        s = r.choice(doc["skins"])
        n = s["name"] + "'"
        if all(x["name"] != n for x in doc["skins"]):
            doc["skins"].append(dict(copy.deepcopy(s), name=n))


def one_object(x, memo):
    """x with every two equal parts of it the very same object."""
    if isinstance(x, dict):
        x = {k: one_object(v, memo) for k, v in x.items()}
    elif isinstance(x, list):
        x = [one_object(v, memo) for v in x]
    else:
        return x
    return memo.setdefault(repr(x), x)


def check_same(case, stats):
    from spine_json_lib import SpineAnimationEditor
    given = one_object(case["doc"], {})
    with quiet():
        try:
            ed = SpineAnimationEditor(given)
        except Exception as e:
            ensure(False, "loading a supported document in which equal parts are the same object failed: %s", describe(e))
    ctl, changed = construct(case["doc"]), False
    for op in [None] + case["ops"]:
        before = spec.text(read(ctl))
        if op is not None:
            kc, vc = call(ctl, op)
            ensure(kc == "ok", "operation %r failed on a supported document: %s", op, describe(vc) if kc == "raised" else "")
            ka, va = call(ed, op)
            ensure(ka == "ok", "equal parts of the input being the same object, operation %r failed: %s", op,
                   describe(va) if ka == "raised" else "")
        a, b = read(ed), read(ctl)
        ensure(spec.same(a, b), "equal parts of the input being the same object, the document differs after %r: %s", op, spec.Diff(b, a))
        ensure(spec.same(ed.images_references, ctl.images_references),
               "equal parts of the input being the same object, images_references differ after %r", op)
        stats["same_object_comparisons"] += 1
        changed |= before != spec.text(b)
    ensure(spec.same(given, case["doc"]), "editing modified the input")
    return changed


def poison(x, mode):
    """Mutate every container inside x."""
    if isinstance(x, dict):
        for v in list(x.values()):
            poison(v, mode)
        if mode == "add":
            x["poison"] = "poison"
        elif mode == "clear":
            x.clear()
        else:
            for k, v in x.items():
                if not isinstance(v, (dict, list)):
                    x[k] = "poison"
    elif isinstance(x, list):
        for v in list(x):
            poison(v, mode)
        if mode == "add":
            x.append("poison")
        elif mode == "clear":
            x.clear()
        else:
            for k, v in enumerate(x):
                if not isinstance(v, (dict, list)):
                    x[k] = "poison"
    elif isinstance(x, tuple):
        for v in x:
            poison(v, mode)


def history(job, log, events=None, who=0):
    """Load, edit and read; everything observed goes to the log."""
    from spine_json_lib import SpineAnimationEditor
    try:
        ed = SpineAnimationEditor(copy.deepcopy(job["doc"]))
        for op in [None] + job["ops"]:
            rep = None
            if op is not None:
                rep = _do(ed, copy.deepcopy(op))
                if op[0] == "anims":
                    rep = [rep.result_data_json, sorted(rep.result_summary[0]), sorted(rep.result_summary[1])]
                elif op[0] == "skins":
                    rep = [sorted(rep[0][0]), sorted(rep[0][1]), sorted(rep[1])]
                elif op[0] == "clean":
                    rep = [sorted(rep[0]), sorted(rep[1])]
            log.append(spec.text([ed.to_json_data(), copy.deepcopy(ed.images_references), rep]))
            if events is not None:
                events.append(who)
    except Exception as e:
        log.append(describe(e))


def check_threads(case, stats):
    jobs = case["threads"]
    alone = [[] for _ in jobs]
    with quiet():
        for job, log in zip(jobs, alone):
            history(job, log)
    for log in alone:
        ensure(log[-1].startswith("["), "an operation failed on a supported document: %s", log[-1])
    together, events = [[] for _ in jobs], []
    ts = [threading.Thread(target=history, args=(j, log, events, k), daemon=True)
          for k, (j, log) in enumerate(zip(jobs, together))]
    with quiet(), lib.forced_switches(case["every"]):
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    stats["thread_runs"] += 1
    stats["thread_offered_switches"] += lib._yield["n"] // case["every"]
    stats["thread_event_switches"] += sum(a != b for a, b in zip(events, events[1:]))
    for k, job in enumerate(jobs):
        for n, (a, b) in enumerate(zip(alone[k], together[k])):
            stats["thread_states_compared"] += 1
            what = job["ops"][n - 1] if n else "loading"
            if a != b:
                ensure(b.startswith("["), "editors used in several threads: %r failed: %s", what, b)
                ensure(False, "editors used in several threads affect each other: after %r: %s", what,
                       spec.Diff(json.loads(a), json.loads(b)))
    return any(len(set(log)) > 1 for log in alone)


def check_copies(case, stats):
    """An editor and copies made of it on the way each finish the history, turn and turn about."""
    from spine_json_lib import SpineAnimationEditor
    ops, r, log = case["ops"], random.Random(case["copies"]), []
    with quiet():
        history(case, log)
    ensure(log[-1].startswith("["), "an operation failed on a supported document: %s", log[-1])
    given = copy.deepcopy(case["doc"])
    with quiet():
        eds = [[SpineAnimationEditor(given), 0, "the editor"]]
    while True:
        if len(eds) < 4 and r.random() < 0.5:
            src, n, _ = r.choice(eds)
            how = r.choice(["copy.deepcopy", "pickle"])
            new = copied(src, how, stats)
            if new is not None:
                eds.append([new, n, "a copy made with " + how])
        left = [e for e in eds if e[1] < len(ops)]
        if not left:
            break
        e = r.choice(left)
        kind, v = call(e[0], ops[e[1]])
        ensure(kind == "ok", "%s: operation %r failed: %s", e[2], ops[e[1]], describe(v) if kind == "raised" else "")
        e[1] += 1
        for e in eds:
            want = json.loads(log[e[1]])[:2]
            got = json.loads(spec.text([read(e[0]), e[0].images_references]))
            ensure(got == want, "%s, next to others, differs from an editor used alone after %r: %s", e[2],
                   ops[:e[1]], spec.Diff(want, got))
            stats["copied_editors_compared"] += 1
    ensure(spec.same(given, case["doc"]), "editing modified the input")
    return len(eds) > 1 and len(set(log)) > 1


def check(case, stats):
    if "copies" in case:
        return check_copies(case, stats)
    if "threads" in case:
        return check_threads(case, stats)
    if case.get("same"):
        return check_same(case, stats)
    from spine_json_lib import SpineAnimationEditor
    r = random.Random(case["plan"])
    docs = [case["doc"], case.get("other", case["doc"])]
    shared = copy.deepcopy(docs[0])
    given = [shared, shared if docs[1] is docs[0] else copy.deepcopy(docs[1])]
    eds = []
    for k in (0, 1):
        with quiet():
            try:
                eds.append(SpineAnimationEditor(given[k]))
            except Exception as e:
                ensure(False, "loading a supported document failed: %s", describe(e))
        for j in (0, 1):
            ensure(spec.text(given[j]) == spec.text(docs[j]), "constructing an editor modified its input: %s",
                   spec.Diff(docs[j], given[j]))
    ctl = [construct(docs[0]), construct(docs[1])]
    todo = [[0, op] for op in case["ops"]]
    for op in case["ops2"]:
        todo.insert(r.randint(0, len(todo)), [1, op])
    # keep each editor's own order
    second = iter([op for op in case["ops2"]])
    todo = [[w, next(second)] if w else [w, op] for w, op in todo]
    kept = []       # (what, live object, its deep copy)
    mutated = changed = False

    def compare(when):
        for k in (0, 1):
            a, b = read(eds[k]), read(ctl[k])
            ensure(spec.same(a, b), "%s: editor %d differs from an undisturbed one: %s", when, k, spec.Diff(b, a))
            ensure(spec.same(eds[k].images_references, ctl[k].images_references), "%s: images_references differ", when)
            stats["comparisons"] += 1
            out.append((k, a))
    out = []
    compare("after loading")
    poison_at = r.randint(0, len(todo))
    for n, (w, op) in enumerate(todo + [[None, None]]):
        if n == poison_at:
            if r.random() < 0.7:
                poison(given[r.randrange(2)], r.choice(["add", "clear", "set"]))
                mutated = True
                stats["inputs_poisoned"] += 1
                compare("after the caller modified the input it had passed")
        if w is None:
            break
        before = spec.text(read(eds[w]))
        asked = copy.deepcopy(op)
        with quiet():
            try:
                ka, va = _do(eds[w], asked), None
            except Exception as e:
                ka, va = None, e
        ensure(va is None, "operation %r failed on a supported document: %s", op, va and describe(va))
        ensure(asked == op, "operation %r modified its argument: %r", op, asked)
        kc, vc = call(ctl[w], op)
        ensure(kc == "ok", "operation %r failed on a supported document: %s", op, describe(vc) if kc == "raised" else "")
        poison(asked, "clear")
        changed |= before != spec.text(read(eds[w]))
        texts = [(k, x) for k, x in out] + [(w, read(eds[w]))]
        del out[:]
        if op[0] == "anims":
            ensure(spec.same(ka.result_data_json, read(ctl[w])), "the document returned by %r is not what the editor holds", op)
            texts.append((w, ka.result_data_json))
        for what, x in r.sample(texts, min(len(texts), 4)):
            if r.random() < 0.5:
                poison(x, r.choice(["add", "clear", "set"]))
                mutated = True
                stats["outputs_poisoned"] += 1
            else:
                kept.append((op, x, copy.deepcopy(x)))
                stats["snapshots_kept"] += 1
        if op[0] == "anims" and r.random() < 0.5:
            poison(ka.result_summary, "clear")
        compare("after %r and caller-side changes to returned documents" % (op,))
        for o, x, y in kept:
            ensure(x == y, "a document returned after %r was changed by later calls: %s", o, spec.Diff(y, x))
    return mutated and changed


def _do(ed, op):
    if op[0] == "anims":
        return ed.erase_animations(op[1], op[2], op[3])
    if op[0] == "skins":
        return ed.erase_skins(op[1], op[2])
    if op[0] == "clean":
        return ed.clean_animation()
    return ed.scale_animation(op[1], op[2])
