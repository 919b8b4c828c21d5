#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("TLC checks the specification exhaustively over the bounded model named in the evidence; the code is bound to it by replaying the model's "
          "cases and random cases through the real library and judging every recorded event with the specification in TLC. Trusts CPython, TLC, and "
          "the harness's rendering of types and values. ")
CLAIMED = {
    "C01": "Random type systems and values beyond the bounded model are sampled, not exhausted.",
    "C02": "JSON text is compared character by character with the compact form given by the specification.",
    "C03": "Documents are the model's grid plus matching, mutated and unrelated random documents.",
    "C04": "Random class systems; properties present, absent, null, wrong or unexpected at every depth, option on and off.",
    "C05": "Random unions in several member orders; tagged families with renamed, multi-valued and enum tags.",
    "C06": "Exhaustive over value grids, token sequences of the duration grammar and single edits of texts; random beyond that.",
    "C07": "The schema is judged by the specification's own meaning of JSON Schema and by validate_object (jsonschema); texts under format are not judged.",
    "C08": "Documents are a share of the model's grid and random matching and mutated documents; format keywords are not judged.",
    "C10": "Registration histories: all pairs (and many triples) of the model's registrations, and random ones with queries interleaved, one process each.",
    "C15": "Exhaustive for graphs of up to 3 nodes (4 when thorough) in every order of keys; random graphs of up to 300 nodes beyond that.",
    "C16": "Exhaustive for class graphs of up to 3 nodes in varying forms of reference; random type systems beyond that. tuple[T, ...] and type[T] are not supported by the library.",
    "C17": "All texts of four lines (five when thorough) over eleven kinds of line; random texts of up to fourteen lines beyond. The known finding (descriptions that begin with an indented colon) is excluded from the round trip.",
    "C18": "Every combination of up to three own and two inherited members or parameters with documented names, return and exceptions; random signatures, classes and modules beyond.",
    "C23": "Every chain of two extensions over small enumerations, every history of five module creations and removals, every pair of annotation objects over ten values; random enumerations, annotation classes, modules, field lists beyond.",
    "C22": "The histories of five steps of the model (six when thorough) are replayed with random types and values; memory is observed through object identity, values through a digest of their full contents.",
    "C11": "Exhaustive for histories of up to six events (thorough: seven) over the model's pool of classes that share names and refer to each other; random histories of 24 events over random classes in two modules beyond that. Names are bound to classes and enums only.",
    "C12": "The construction protocol is checked for every interleaving; the real code is run under a sample of the model's schedules, under single changes of turn spread over all lines, and under random schedules. Preemption is at lines (quick) or instructions (thorough) of the library.",
    "C13": "All property nodes of a grid (2k single-property schemas), all ways in which three definitions refer to each other, and all classes of one field of a grid are imported; beyond that, random classes (600 modules) and random schemas with and without defects. Keyword combinations that no class produces are not judged.",
    "C14": "Every three-level schema of a grid, under all four option combinations; random trees beyond. Trees whose plain names collide are outside the property.",
    "C19": "Exhaustive for type expressions of up to two levels over the model's forms; random expressions beyond that. Text transformed by type_transform is read back by the same grammar.",
    "C20": "Types and values of the model's grid against each other, and random ones; predicates given as recorded calls and as denials of one member.",
    "C21": "Exhaustive for type expressions of up to two levels over the model's forms, in old, new and PEP 604 notation; random expressions beyond that.",
    "C09": "The expected schema is computed by the specification and compared keyword by keyword; object member order is not compared.",
}
NOT = {}
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f]
checks = [{
    "property": p,
    "quick_cmd": f"/opt/venv/bin/python harness/check.py {p} --tier quick",
    "thorough_cmd": f"/opt/venv/bin/python harness/check.py {p} --tier thorough",
    "evidence_file": f"evidence/{p}.json",
    "technique": "TLA+ specification checked with TLC; trace validation of the real code against it",
    "level": "model_checking",
    "level_note": COMMON + CLAIMED[p],
} for p in ids if p in CLAIMED]
manifest = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NOT.get(p, "The check is not built yet.")} for p in ids if p not in CLAIMED],
    "notes": "No hooks are needed in /repo: the library is driven through its public interface (and sys.settrace for schedules).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "claimed")
