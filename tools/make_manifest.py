"""Write MANIFEST.json from the check modules that exist and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("generated object graphs, JSON round trip against a canonical graph model",
            "graphs of all ten object kinds with links, dangling links, sharing and nested containers; identity structure compared by a traversal of our own"),
    "C02": ("generated object graphs, flatten compared with an independent reachability model",
            "reachability, order and field values recomputed from public attributes"),
    "C03": ("generated object graphs, link/object substitution against a reference substitution",
            "copying and in-place forms, partial indexes and scopes"),
    "C04": ("model-based testing of generated assignment histories",
            "each history is replayed on a relational model; both ends compared by identity after every step"),
    "C05": ("generated bounds and values, containment and union against interval and set arithmetic",
            "unit factors come from an independent reader of the definitions file; near-ties across units are not judged"),
    "C06": ("model-based testing of generated attribute histories at every validation level",
            "log records, exceptions and stored values compared with the bounds arithmetic of C05"),
    "C07": ("model-based testing of generated attribute-list histories on objects with templates",
            "every insertion route, matching by template, link or name, restricted bounds"),
    "C08": ("generated quantities against interval arithmetic at every validation level",
            "constructor and setter routes on specs and runs"),
    "C09": ("grammar-based generation of unit expressions, meaning compared with an independent evaluator",
            "the evaluator reads the definitions file itself (tools/make_unit_table.py); malformed expressions are generated too"),
    "C10": ("generated unit pairs and numbers, conversion against exact rational/affine arithmetic",
            "tolerance of rounding error; round trip, composition and base-unit relations"),
    "C11": ("generated call histories, each answer compared with the answer of a fresh process",
            "includes switches of definitions files and failed switches in scratch directories"),
    "C12": ("generated structures, copies, reorderings and single-field mutations, equality as a relation",
            "documented lenient cases (same uids, an empty back-reference list) are not judged"),
    "C13": ("model-based testing of generated dictionary histories",
            "reference model is a list of keys with a folded index"),
    "C14": ("model-based testing of generated list histories with failing and replacing hooks",
            "reference model is a plain list; also through the real fields of entities"),
    "C15": ("generated spellings, declarations and assignments against a folded synonym table",
            "shipped enumerations and generated ones"),
    "C16": ("model-based testing of generated constructions and assignments with an invariant after each",
            "plain attributes without setters are not claimed"),
    "C17": ("generated build scripts against a relational model of runs and specs",
            "documented defaults and documented refusals"),
    "C18": ("generated spec graphs, instances compared with an independent reachability and connection model",
            "sharing, cycles, equal but distinct specs, chains of up to 60 materials; specs refer to each other as objects"),
    "C19": ("generated structures, traversals compared with an independent walk",
            "visit counts by identity"),
    "C20": ("generated objects, dictionary and raw JSON forms against constructor fields",
            "tag registration is exercised in forked processes"),
    "C21": ("generated entities and link requests against a folded uid table",
            "hash and equality with (scope, id) pairs checked through dictionaries"),
    "C22": ("model-based testing of generated ingredient histories",
            "spec renames, swaps, links and round trips"),
    "C23": ("generated object graphs, complete history compared with an independent reachability model",
            "field values and links of every dictionary compared"),
    "C24": ("model-based testing of generated construction, assignment and container-edit histories",
            "a model of every field of every object in the pool is compared after each step"),
    "C25": ("property-based testing with generated seeds, scopes, tables and records",
            "the objects built are compared with what the inputs say, and with a second build"),
    "C26": ("generated graphs deep-copied, then generated edits made on copy and original in step",
            "isomorphism without sharing after every edit, same outcome on both sides"),
    "C27": ("generated cases of sixteen other properties, run with classes derived from the library's",
            "the entities carry one further field; the library's own classes are checked beside them"),
}
ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for pid in ids:
    if os.path.exists(os.path.join(ROOT, "vp", "props", pid.lower() + ".py")):
        t, n = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py check " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + pid,
            "evidence_file": "evidence/{}.json".format(pid),
            "technique": "property-based testing: " + t,
            "level": "exploration",
            "level_note": "Random search with shrinking, never absence of errors: " + n + "."})
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
       "not_applicable": missing,
       "notes": "No hooks: the checks use the public API of /repo's working tree only. Every check "
                "is a pure function of the tree and VERIF_SEED. Replay: python3 run.py replay FILE."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
