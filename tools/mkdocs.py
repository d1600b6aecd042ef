#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and sim/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from plan import PLAN
def F(*a): return ["src/" + x for x in a]
def M(*a): return [{"name": n, "where": w} for n, w in a]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, level_note=""):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, level_note))

prop("P01", "A save under memory failures is complete or reported as failed",
 "Whenever any subset of the memory requests made during a save (C init, JSON, S-expression, both XML encodings, YAML, XDR) fails, the save either reports failure or returns exactly the document it returns without failures. A failed save leaves the object unchanged, leaks nothing, touches no memory it does not own, and the same save succeeds again once memory is available.",
 ["inputs", "fault_sequences"], "every object graph, every output format, every pattern of failing allocation and reallocation requests during the save",
 "The mf_* tests save one configuration object and fail each allocation call stack once; other graphs (unions, cycles, resizable arrays), repeated failures and silent truncation on 'success' are not reached.",
 F("mr_save.c", "xml_save.c", "cinit_save.c", "json_save.c", "scm_save.c", "yaml_save.c", "xdr.c", "mr_stringify.c", "mr_message.c", "metaresc.c"),
 M(("graph collection and its cleanup on failure", "mr_save.c:mr_save"), ("growable output string that invalidates itself on failure", "mr_message.c:mr_ra_printf"), ("per-format writers unwinding on a failed append", "xml_save.c, cinit_save.c, scm_save.c, json_save.c, yaml_save.c")),
 ["MR_SAVE_CINIT, MR_SAVE_JSON, MR_SAVE_SCM, MR_SAVE_XML1, MR_SAVE_XML2, MR_SAVE_YAML, MR_SAVE_XDR: return value, output, object, allocator"])
prop("P02", "A load under memory failures is complete or reported and fully undone",
 "Whenever any subset of the memory requests made during a load of a valid document fails, the load either reports failure or produces exactly the object it produces without failures. After a failed load every block allocated for it is released or still reachable from the destination, which the caller can inspect and release, and loading again succeeds once memory is available.",
 ["inputs", "fault_sequences"], "every document produced by a save in every format, every pattern of failing memory requests during the load",
 "The mf_* tests load one configuration object with one failing request at a time and check only that the process does not crash or leak in that case.",
 F("mr_load.c", "lexer.h", "cinit_load.y", "json_load.y", "scm_load.y", "xml1_load.y", "xml2_load.c", "yaml_load.c", "xdr.c", "mr_value.c"),
 M(("cleanup of partially loaded nodes", "mr_load.c:mr_load"), ("release of parsed values when the parser fails", "mr_load.c:mr_free_load_values"), ("XDR load cleanup", "xdr.c:mr_xdr_load")),
 ["MR_LOAD_* return value, destination object, allocator"])
prop("P03", "What is saved in any format is what is loaded back after a restart",
 "An object graph (a structure, a union, a single value of any basic type, a string, or an enumeration; for C initializers also an array of these) saved in any of the seven formats and loaded in another process yields an isomorphic graph: equal values of every field, the same sharing and cycles, the same active union members, the same sizes of resizable arrays. The load owns exactly the blocks of the loaded object and nothing else stays allocated.",
 ["inputs", "crash_points", "configurations"], "every object graph the types can describe, every format, every heap layout and reallocation behaviour of the saving and of the loading process",
 "Tests save and load small hand-written objects in one process; sharing, interior pointers, self reference, nested unions, multi-dimensional arrays and extreme values in combination, and heap-layout dependence, are not reached.",
 F("mr_save.c", "mr_load.c", "mr_stringify.c", "mr_value.c", "cinit_save.c", "json_save.c", "scm_save.c", "xml_save.c", "yaml_save.c", "xdr.c", "cinit_load.l", "json_load.l", "scm_load.l", "xml1_load.l", "xml2_load.c", "yaml_load.c"),
 M(("sharing detection and reference indices", "mr_save.c:mr_save_inner, mr_post_process"), ("restoring references", "mr_load.c:mr_set_crossrefs"), ("union member selection", "mr_save.c:mr_union_discriminator")),
 ["documents written by MR_SAVE_*, objects built by MR_LOAD_*"])
prop("P04", "The saved document depends on the object alone",
 "Two isomorphic object graphs give byte-identical documents in every format, whatever the addresses of their parts, the contents of padding, inactive union members and unused array elements, and whatever operations, successful or failed, ran before. Structural hash values agree likewise.",
 ["inputs", "histories", "configurations"], "every object, every address order and dirt in unspecified bytes, every preceding history of operations including failed ones",
 "Every test builds its object once, at one set of addresses, in a fresh process; order dependence on pointers, uninitialised memory and state left by earlier failures cannot show.",
 F("mr_save.c", "mr_ic.c", "mr_btree.c", "mr_extra.c", "xdr.c", "xml_save.c"),
 M(("address-indexed collections used while saving", "mr_save.c:mr_save, mr_ic.c"), ("depth-first renumbering of references", "mr_save.c:mr_renumber_node")),
 ["bytes returned by MR_SAVE_*", "MR_HASH_STRUCT"])
prop("P08", "A deep copy is an independent isomorphic graph, or fails cleanly",
 "A successful deep copy of a value of any type (structure, union, array, string, basic value) is isomorphic to its source, shares no memory with it, owns exactly its own blocks and can be released independently; overwriting or releasing one never changes the other. When memory requests fail, the copy either still satisfies this or reports failure, leaves the source untouched and leaks nothing.",
 ["inputs", "fault_sequences"], "every object graph, every pattern of failing memory requests during the copy",
 "The copy tests compare a few small objects with memory always available; mf_mr_copy fails one request at a time for one object and does not check independence.",
 F("mr_extra.c", "mr_save.c"), M(("two-pass copy with reference relocation", "mr_extra.c:mr_copy_recursively")), ["MR_COPY_RECURSIVELY: return value, both objects, allocator"])
prop("P09", "Recursive release frees every owned block exactly once and nothing else",
 "Releasing an object recursively frees every block reachable from it exactly once, however shared or cyclic, and no memory that does not belong to it. If memory requests fail meanwhile it reports failure and releases nothing, and it succeeds later.",
 ["inputs", "fault_sequences"], "every object graph whose blocks come from the library's memory functions, every pattern of failing requests during the release",
 "Tests release small trees; sharing, cycles, interior pointers and failing memory during the release are not combined.",
 F("mr_extra.c", "mr_save.c"), M(("collection of owned blocks before any release", "mr_extra.c:mr_free_recursively")), ["MR_FREE_RECURSIVELY: return value, allocator"])
prop("P10", "Structural hash and comparison agree with equality of contents",
 "Objects (structures, unions, arrays, strings, basic values) with equal contents compare equal and hash equally wherever they live and whatever ran before; objects that differ in any value compare unequal. The comparison is antisymmetric and transitive, reads no byte outside the objects and allocates nothing that outlives it.",
 ["inputs", "histories", "configurations"], "every pair and triple of object graphs, at every address, with arbitrary unspecified bytes, after every history",
 "mr_hash_cmp tests compare a handful of values of each scalar type; layout, padding, inactive members and transitivity over graphs are not sampled.",
 F("mr_extra.c", "mr_save.c"), M(("node-wise comparison and hashing", "mr_extra.c:mr_cmp_structs, mr_hash_struct")), ["MR_HASH_STRUCT, MR_CMP_STRUCTS"])
exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

NA = []
exec(open(os.path.join(V, "tools", "na.py")).read()) if os.path.exists(os.path.join(V, "tools", "na.py")) else None
P.sort(key=lambda x: x[0]["id"])
na_ids = {n["property"] for n in NA}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in P:
        if d["id"] in PLAN or d["id"] in na_ids:
            f.write(json.dumps(d) + "\n")
checks = []
for d, note in P:
    if d["id"] in PLAN:
        checks.append(dict(property=d["id"], quick_cmd="python3 check.py " + d["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + d["id"],
            technique="deterministic simulation with fault injection: seeded search over " + ", ".join(d["quantifier"]["over"]).replace("_", " "),
            level="exploration",
            level_note=(note or "Sampling by seeded simulation of the real library under a simulated allocator" ) + "; every violation is confirmed by exact replay. Assumes the simulated application's type family is representative; libc-internal allocations of parsers do not fail."))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks are needed: the library's configurable memory functions, message handler, XDR streams and stdio streams are used as seams, and scheduling points come from compiler instrumentation of the unmodified sources", source_commits=[]),
         checks=checks, not_applicable=NA, notes="See DESIGN.md. python3 check.py --replay FILE reproduces a recorded violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
