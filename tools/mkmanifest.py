#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: generated values of generated declarations, round trip through text and back, twice", "Search over generated declarations and values; the oracle is equality with the value put in."),
 "C02": ("property-based testing: bytes written, read by an independent strict XML parser, compared with a reference serializer", "Trusts the reference serializer (schema/src/model.rs) and the strict parser (schema/src/xml.rs), which share no code with yaserde or xml-rs."),
 "C03": ("property-based testing: adversarial strings in every string position, checked by an independent strict XML parser", "As C02; strings with raw CR or tabs in attributes are known findings of xml-rs and left out."),
 "C04": ("property-based testing: structure-aware mutation of documents, differential against a reference reader", "Trusts the reference reader (schema/src/model.rs)."),
 "C05": ("metamorphic property-based testing: a document and its edited or re-encoded equivalents must be read alike", "No model of the result is needed: both documents go through the library."),
 "C06": ("metamorphic property-based testing: rebinding of prefixes and defaults, foreign elements, foreign roots", "As C05; attribute and variant namespaces are known findings and left out."),
 "C07": ("structure-aware fuzzing with panic, event-budget and processor-time oracles; reader model where the bytes are well-formed", "Termination is judged by an event budget proportional to the input and by processor time."),
 "C08": ("generated documents and chunkings; exhaustive cut-off and read-fault injection at every byte", "Every byte position of every generated document is enumerated for end of input and two kinds of read fault."),
 "C09": ("generated values; exhaustive write-fault injection at every write call", "Every write call of every generated serialization is failed for good, once, and with a zero-length write."),
 "C10": ("differential property-based testing between all serialization entry points and configurations", "Oracle: equality between entry points, the strict parser for indentation."),
 "C11": ("property-based testing of skip and default conditions against a reference serializer and by round trip", "Trusts the reference serializer."),
 "C12": ("differential property-based testing: flattened declarations against their inlined equivalents, and against the model", "The inlined equivalent is derived by the harness and compiled with the same derives."),
 "C13": ("property-based testing of enums: reference serializer and reader, mutation of names, tags and payloads", "Trusts the reference model of variant selection."),
 "C14": ("property-based testing of newtype literals: reference formatter and parser", "Trusts schema/src/lit.rs."),
 "C15": ("property-based testing of scalar literals: boundary-heavy values, grammar-based and mutated literals, reference parser", "Trusts Rust's own parse and Display for the scalar types."),
 "C16": ("stateful model-based testing of the event stream; generated hand-written implementations inside derived types", "Operation sequences are compared step by step with a model over the independently parsed document."),
 "C17": ("metamorphic property-based testing: items read alone and in place; reference reader on coinciding names", "As C04."),
 "C18": ("generated programs compiled with the real derives; differential testing of unusual spellings against plain ones", "A declaration that does not compile is the violation; the universe is partly drawn from the seed."),
}
checks = []
for i in sorted(T):
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": tech,
                   "level": "fault_enumeration" if i in ("C08", "C09") else "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo are needed: everything is observed through the public API of yaserde. Replays: python3 check.py <id> --replay <file>."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
