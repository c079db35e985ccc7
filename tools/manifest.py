"""Writes MANIFEST.json (run by hand: /opt/venv/bin/python tools/manifest.py)."""
import json, os
T = {
 "C01": ("runtime differential monitor: load/save compared with an independent Spine 3.8 meaning", "Every executed round trip is compared attribute by attribute after filling in the runtime's defaults. Trusts the hand-written table of Spine 3.8 defaults in mon/spec.py."),
 "C02": ("mutation-based runtime monitor of the loader", "Every (kind of object, attribute) pair once (2202) plus one mutation per document at random positions; an accepted document must contain the mutated data in its output. Trusts the attribute table for which positions are legal."),
 "C03": ("runtime differential monitor: independent renderer over frames before and after the edits", "Frames at all key times and between them, for every remaining animation and skin. Trusts the small renderer in mon/spec.py (slot state, not physics)."),
 "C04": ("runtime invariant monitor: reference checker after every operation of random histories", "Every intermediate document of every history is checked for dangling references and reloaded."),
 "C05": ("runtime differential monitor: the runtime's draw-order algorithm before and after removals", "Each draw-order key is expanded to a full permutation independently before and after."),
 "C06": ("runtime invariant monitor: image list recomputed from the serialised document", "Compared after every operation, with the reported names of skin removals."),
 "C07": ("runtime differential monitor: independent renderer and converted-mesh oracle", "Frames, converted attachments and deform timelines compared with what the original document says."),
 "C08": ("runtime monitor: after = before minus what was named and reported, at every operation", "Structural subtraction oracle on the serialised documents."),
 "C09": ("runtime monitor: exact scale factors, world matrices, and edit-order comparison", "World matrices from an independent implementation; degenerate matrices skipped."),
 "C10": ("runtime aliasing monitor: poisoning of inputs and outputs against a control editor", "Every returned document is kept with a deep copy and re-compared after later edits."),
 "C11": ("multi-process differential monitor over hash seeds, locales and key orders", "Real processes with differing PYTHONHASHSEED and locale; text compared byte for byte."),
 "C12": ("fault-history runtime monitor: refused calls against an editor that never saw them", "State compared before/after each refused call, plus the whole continuation."),
 "C13": ("online model-based runtime monitor of the graph", "Whole public view compared with a set model after every operation; chains up to 3000 nodes."),
 "C14": ("runtime trace monitor of the returned order", "Permutation and dependency check on random acyclic graphs and on chains up to 3000 nodes."),
 "C15": ("runtime differential monitor against brute-force graph algorithms", "Reachability by closure, simple paths by exhaustive search, on graphs up to 8 nodes; deep graphs up to 3000 nodes for the linear questions."),
 "C16": ("online model-based runtime monitor of the document graph", "Nodes, edges and reports compared with a set model computed from the document."),
 "C17": ("runtime differential monitor against integer triples", "All six comparisons on both operand orders, and the attributes stripped per version."),
 "C18": ("runtime differential monitor against an independent tag parser and bone walk", "Names and whole documents; of an image shown by slots of different scales, any of those scales is accepted."),
 "C19": ("runtime monitor: every survivor justified by an independent statement of the cleaning rules", "Documents left without any animation are outside the property."),
 "C20": ("runtime file-system monitor (audit hook, tree comparison) with injected write failures", "Real files in a private scratch folder; failures injected with RLIMIT_FSIZE and unusable targets at random, not all, offsets."),
 "C21": ("runtime differential monitor: the running editor against one reloaded from its own output at every step", "Whole documents, image lists and reports compared at every step of random histories."),
 "C22": ("metamorphic runtime monitor: random injective renamings of all parts", "Documents, image lists and reports compared after every step; names with scale tags, empty names and lone surrogates are outside."),
 "C23": ("metamorphic runtime monitor: random unrelated additions", "Documents, image lists and reports compared after every step, less the added parts; additions are of the listed kinds only."),
 "C24": ("runtime work monitor: executed lines of every operation counted at sizes n, 2n and 4n", "Families of graphs and documents that grow by one parameter; work inside C code (one regular expression, sorting) is not counted."),
}
checks = []
for p, (t, n) in T.items():
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
                   "level_note": n + " Nothing is claimed for executions not observed."})
m = {"version": 1, "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import spine_json_lib'",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is observed through the public interface, sys.monitoring and sys.addaudithook."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
