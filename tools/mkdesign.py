#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md below its marker: a section per property, out of properties.jsonl,
harness/*/config.json and seeded/*/meta.json, and the table of planted bugs."""
import json, os, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- everything below is written by tools/mkdesign.py -->"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
ORACLE = {
 "C01": "a list of the words added so far; counts are counted by looking through it",
 "C02": "the words of the text in the harness's own splitting, with the filters applied one after the other",
 "C03": "the text's words counted beforehand by the harness; what the channel delivers is put together again and compared with the words that pass",
 "C04": "a double loop over the positions of the text, within the window, lines and filters taken into account",
 "C05": "the pair itself: encoding, decoding and the other order are compared with it, and two pairs with each other",
 "C06": "the sum of 1/distance over the same double loop, in exact rational arithmetic",
 "C07": "the fault: if the reader or seeker returned an error other than io.EOF, the call must return one too, and must return",
 "H01": "tree laws on the result (one leaf per word, shared root, two children with codes 0 and 1, sums), and the weighted path length against that of every full binary tree over the words (for many words: against repeated merging of the two smallest in a sorted list)",
 "H02": "walking the Parent links from the node to the root",
 "M01": "index arithmetic: each index of 0..n-1 must lie in exactly one part, the parts in order, their sizes as the documentation says",
 "M02": "the multiset of words (pairs) of the text times the iterations, against what is recorded where the model is called",
 "M03": "the update of the word2vec paper written out over the recorded draws of the random generator (window, negative samples), as polynomials in the matrices' entries",
 "M04": "the hierarchical-softmax update over the path obtained by walking the tree, in the same manner",
 "M05": "monotone within every block of the table and from one block to the next, over every double; and closeness to the logistic function, which is enclosed by its linear interpolation over 96 parts",
 "M06": "the published GloVe cost's gradient steps (SGD and AdaGrad) with the weighting min((x/xmax)^alpha, 1), in real arithmetic with log and pow uninterpreted but shared",
 "M07": "the four published measures (co-occurrence, PMI, PPMI, log co-occurrence) from the harness's own counts",
 "M08": "the LexVec update with window and sampled pairs in the order of the recorded draws",
 "M09": "the linear decay formula with its lower limit, and its bounds under any order of events",
 "M10": "the published keep rule over the same counts (in the variant that the repository documents), in reals and with 32-bit rounding",
 "M11": "range and determinism: two generators of the same state must agree; the recurrence as 64-bit arithmetic",
 "M12": "the sum or the row of the recorded matrices, per word, read back from the text that was written",
 "M13": "the list of the accepted names; everything else, any string within the bounds, must give an error and no model",
 "M14": "a return within the step limit, no panic, and one line per distinct word with as many numbers as the dimension asked for",
 "A01": "addresses: the elements of distinct rows are distinct cells, found by writing through one and reading through all others",
 "E01": "the vectors saved, after a decimal round trip through the real formatting code",
 "E02": "the byte count accepted by the writer against the full text",
 "E03": "the harness's own line and field splitter and strconv.ParseFloat on its fields",
 "E04": "the definition: which fields are present and equal, a linear search for the word",
 "S01": "the k best by counting, per candidate, how many others are better; equal similarities may come in any order",
 "S02": "as S01, on the collection without the query's word",
 "S03": "the scalar product over the product of the norms, in reals",
 "S04": "a reference evaluator of the console's grammar; each line's answer compared with the answer of a fresh console for that line alone",
 "M15": "the same model trained alone, or (when another one has been trained before) the reference models of M03, M04, M06 and M08",
 "M16": "one mode against the other, with the choices recorded in the first and played back in the second",
 "S05": "the same search on a new searcher over an independent copy of the items; for searches at the same time, the results of one after the other",
 "P01": "the harness's own list of the text's words; shown words must be in it, and the similarities in order",
 "V01": "the same calls with verbose mode off; the totals against the harness's own counts of words, pairs and passing words",
 "K01": "the file system before the command; the outputs must be there unchanged, and no output may appear without an input",
 "K02": "one option field per flag: the options recorded after parsing any arguments against the SDK's defaults with just that field changed",
 "K03": "as K02, per option function",
 "K04": "the SDK's own search on the file's contents, and the error cases one by one",
}
seeded = collections.defaultdict(list)
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    seeded[m["property"]].append((i, m))
out = [MARK, "", "## Properties", "", f"{len(props)} properties, all decided by the same technique; none is listed as not applicable.", ""]
def ps(d):
    return ", ".join(f"{k}={v}" for k, v in d.items())
for p in props:
    i = p["id"]
    c = json.load(open(f"{R}/harness/{i.lower()}/config.json"))
    mode = c.get("defaults", {}).get("mode", "math")
    out += [f"### {i}: {p['title']}", "", p["statement"], "", f"*Oracle*: {ORACLE[i]}.", ""]
    out += [f"*Bounds* (quick; thorough in brackets): {c['bounds']}.", "", f"*Outside*: {c['outside']}.", ""]
    if c.get("stubs"): out += ["*Modelled or replaced*: " + "; ".join(c["stubs"]) + ".", ""]
    hs = []
    thorough = collections.defaultdict(list)
    for h in c.get("thorough", c["quick"]): thorough[h["name"]].append(h)
    for h in c["quick"]:
        s = f"- `{h['name']}`" + (f" ({ps(h['params'])})" if h.get("params") else "") 
        m = h.get("mode", mode)
        s += f", {m}"
        if h.get("sched"): s += ", schedules: " + str(h["sched"]) + (f" with up to {h['preempt']} preemption(s)" if h.get("preempt") else "")
        if h.get("map_order"): s += ", map orders: " + str(h["map_order"])
        if h.get("what"): s += ": " + h["what"]
        hs.append(s)
    out += ["*Harnesses of the quick check* (name, parameters, number semantics):", ""] + hs + [""]
    q = [json.dumps(h, sort_keys=True) for h in c["quick"]]
    deeper = [h for h in c.get("thorough", c["quick"]) if json.dumps(h, sort_keys=True) not in q]
    if deeper:
        out += ["*The thorough check adds or deepens*: " + "; ".join(f"`{h['name']}`" + (f" ({ps(h['params'])})" if h.get("params") else "") for h in deeper) + ".", ""]
    if seeded[i]:
        out += ["*Planted bugs caught*: " + ", ".join(f"`{n}` ({m['needs'].rstrip('.')})" for n, m in seeded[i]) + ".", ""]
out += ["## Planted bugs", "", f"{sum(len(v) for v in seeded.values())} changes are kept under `seeded/`. Each compiles, passes the existing tests, and has a demonstration. "
        "All are caught by the quick check of the property they break (the last full run of `tools/plant.py try` is quoted in the section on testing above).", "",
        "| id | property | what breaks | what it needs |", "|---|---|---|---|"]
for i in sorted(sum(([(n, p, m) for n, m in v] for p, v in seeded.items()), [])):
    n, p, m = i
    out.append(f"| {n} | {p} | {m['what_it_breaks'].strip().replace('|', '/')} | {m['needs'].strip().replace('|', '/')} |".replace("\n", " "))
s = open(R + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n"
open(R + "/DESIGN.md", "w").write(s + "\n".join(out) + "\n")
print(len(out), "lines")
