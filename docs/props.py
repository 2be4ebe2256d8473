"""The property list. python3 docs/props.py rewrites properties.jsonl, MANIFEST.json and the table in DESIGN.md."""
P = {}


def p(i, title, statement, over, qtext, why, files, mech, tech="", note="", na=""):
    P[i] = dict(id=i, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, tech=tech, note=note, na=na)


D, S = "include/hpp_proto/binpb/deserialize.hpp", "include/hpp_proto/binpb/serialize.hpp"
X = "include/hpp_proto/dynamic_message/pb_serializer_ext.hpp"

p("C01", "Decoding and encoding never nest deeper than the recursion limit",
  "Binary decoding and encoding, of generated and of dynamic messages, reject with an error every input or in-memory message that nests deeper than the recursion limit (100 unless the caller gives another): nested messages, groups, map entries and groups that are only skipped as unknown all count, and a message nested exactly to the limit is accepted. Each level is given back on every way out of it, and one operation never hands a nested part a fresh budget, so the depth of the call stack is bounded by the limit and not by the data.",
  ["inputs", "configurations"], "every input, every message tree, every limit, every output mode",
  "The tests nest one or two shapes a little; a missing or unbalanced count on one of the recursive paths only shows with deep data of exactly that shape.",
  [D, S, X, "include/hpp_proto/recursion.hpp", "include/hpp_proto/memory_resource_utils.hpp"],
  [("recursion_scope", "include/hpp_proto/recursion.hpp"), ("do_skip_group / deserialize / deserialize_group", D), ("size_cache_counter, serialize", S)],
  "call-graph cycle analysis with a path-sensitive typestate of the depth counter",
  "All call cycles of the instantiated codec; assumes the driver schema instantiates every recursive shape.")

p("C17", "View messages with caller-supplied memory never touch the global heap",
  "Decoding into a view (non-owning) message with a caller-supplied memory resource, and encoding one with caller-supplied resources into a caller's buffer or sink, obtains memory only from those resources: no global heap allocation and no default memory resource is used, for contiguous, padded and chunked input, for retained unknown fields and extensions, and on error paths too.",
  ["inputs", "configurations"], "every input, message and option combination",
  "A test observes the allocations of the inputs it runs; a fallback allocation sits on one field kind or error path.",
  ["include/hpp_proto/memory_resource_utils.hpp", D, S, "include/hpp_proto/binpb.hpp"],
  [("as_modifiable / arena_vector", "include/hpp_proto/memory_resource_utils.hpp"), ("cache_memory_resource", S)],
  "call-graph reachability (effect analysis) over the instantiated IR",
  "Every function reachable from the view entry points; virtual calls on the caller's resource are the caller's.")

p("C18", "The library keeps no hidden mutable global state",
  "Decoding, encoding, merging and dynamic messages use no state that outlives a call other than what the caller passes in: constants and values fixed once by their own initialiser aside, no object of static or thread lifetime is written. Two operations on distinct objects therefore never influence each other, whether on different threads or nested inside one another on the same thread.",
  ["schedules", "histories"], "every interleaving and nesting of operations on distinct objects",
  "Single-threaded unit tests never interleave two operations, and a race or a re-entrancy corruption needs a particular overlap.",
  ["include/hpp_proto/", "src/dynamic_message/factory.cpp"],
  [("cache and context objects are locals of the entry points", S), ("basic_in::has_bmi2 guarded constant", D)],
  "reachability of writable static and thread-local storage over the instantiated IR",
  "Every global reachable from the API roots; function-local constants behind their own guard are allowed.")

exec(open(__file__.replace("props.py", "props_more.py")).read()) if __import__("os").path.exists(__file__.replace("props.py", "props_more.py")) else None

if __name__ == "__main__":
    import json, os, sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, f"{V}/checks")
    from rules import RULES
    with open(f"{V}/properties.jsonl", "w") as f:
        for i in sorted(P):
            assert len(P[i]["title"]) <= 80, i
            f.write(json.dumps({k: P[i][k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    man = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": []}
    for i in sorted(P):
        if i in RULES:
            man["checks"].append({"property": i, "quick_cmd": f"python3 checks/run.py {i}",
                                  "thorough_cmd": f"python3 checks/run.py {i} --tier thorough",
                                  "technique": P[i]["tech"], "level": RULES[i]["level"], "level_note": P[i]["note"]})
        else:
            man["not_applicable"].append({"property": i, "reason": P[i]["na"] or "not built yet"})
    json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
    if os.path.exists(f"{V}/DESIGN.md"):
        s = open(f"{V}/DESIGN.md").read()
        a, b = "<!-- props -->\n", "<!-- /props -->\n"
        if a in s:
            t = "".join(f"### {i} {P[i]['title']}\n{P[i]['statement']}\n\n" + (
                f"*Decided by*: {P[i]['tech']}. Rule: {RULES[i]['rule']}. {RULES[i]['explain']} *Assurance*: {P[i]['note']}\n\n*Why tests cannot*: {P[i]['why_tests_cant']}\n\n"
                if i in RULES else f"*Not claimed*: {P[i]['na']}\n\n") for i in sorted(P))
            open(f"{V}/DESIGN.md", "w").write(s[:s.index(a) + len(a)] + t + s[s.index(b):])
        s = open(f"{V}/DESIGN.md").read()
        a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
        if a in s:
            missed = {}
            if os.path.exists(f"{V}/docs/missed.json"): missed = json.load(open(f"{V}/docs/missed.json"))
            t = "| seed | property | needs | caught |\n|---|---|---|---|\n"
            for d in sorted(os.listdir(f"{V}/seeded")):
                m = json.load(open(f"{V}/seeded/{d}/meta.json"))
                t += f"| {d} | {m['property']} | {m['needs']} | {missed.get(d, 'yes')} |\n"
            open(f"{V}/DESIGN.md", "w").write(s[:s.index(a) + len(a)] + t + s[s.index(b):])
