#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and targets.json: a property is claimed when targets.json has checks for it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/targets.json"))
TECH = {
    "C01": "property-based testing: generated keys, rights and mixins; export/import round trip against the original key",
    "C02": "property-based testing: generated mutations and splices of exported containers; rejection and plaintext-search oracle",
    "C03": "property-based testing: generated rights x operation matrix against an explicit rights model",
    "C04": "property-based testing: generated clocks, display states, identities and histories against an explicit gate model",
    "C05": "property-based testing: generated derivation chains against a model of child rights",
    "C06": "stateful model-based testing of handle lifetimes over generated call histories",
    "C07": "property-based testing: generated chunkings, differential against one-shot reference cryptography",
    "C08": "property-based testing: generated messages and mutations, differential against reference AEAD",
    "C09": "stateful property-based testing: generated feeding histories, differential against one-shot reference MACs",
    "C10": "property-based testing: generated signing requests, verified by an independent verifier; mutations must not verify",
    "C11": "property-based testing: generated derivation inputs, differential against reference KDFs; metamorphic input changes",
    "C12": "property-based testing: generated peers, differential against reference key agreement; invalid public values",
    "C13": "property-based testing: generated wrapped keys, equivalence with importing the plaintext; mutations rejected",
    "C14": "property-based testing: generated plaintexts encrypted by a reference, round trip; mutations rejected",
    "C15": "property-based testing: generated buffer-type combinations against an explicit confinement rule, guarded memory",
    "C16": "model-based testing of SVP buffers against byte-array models with guarded memory",
    "C17": "property-based testing: generated sample layouts against a reference implementation of ISO/IEC 23001-7",
    "C18": "structure-aware fuzzing of key containers under AddressSanitizer with uninitialised-memory poisoning and leak accounting",
    "C19": "structure-aware fuzzing of TA commands under AddressSanitizer with exact-size parameter buffers",
    "C20": "fault injection: every allocation of generated operations failed in turn, with state, leak and retry oracles",
    "C21": "property-based testing: generated output lengths around the queried one, guard bytes and state invariance",
    "C22": "property-based testing: generated TypeJ tokens and mutations against a reference builder",
    "C23": "property-based testing: generated SoC containers and mutations against a reference builder",
    "C24": "generated concurrent histories under ThreadSanitizer and AddressSanitizer with linearisability oracles",
    "C25": "property-based testing with a free() monitor that searches released memory for the known secrets of the case",
    "C26": "property-based testing: generated key requests, cross-checked with reference cryptography on the public side",
    "C27": "differential property-based testing of the OpenSSL provider against OpenSSL's default provider",
    "C28": "stateful property-based testing: generated histories with capacity and allocation accounting",
    "C29": "metamorphic property-based testing: histories with refused calls inserted must give the results without them",
    "C30": "structure-aware fuzzing and round trips of generated PKCS#12 keystores",
}
BASE_NOTE = ("Held on every generated case of this run; the counts, the rule for non-trivial cases and samples are in the evidence. "
             "Trusted: OpenSSL primitives used one-shot as the reference, the harness and its sanitizers. The reference TA runs in "
             "process with the clock, the display state, the caller identity and random numbers replaced at link time.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i],
                       "level": "fault_enumeration" if i == "C20" else "exploration",
                       "level_note": (T[i].get("note", "") + " " + BASE_NOTE).strip()})
    else:
        na.append({"property": i, "reason": "No check has been built for it yet."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Checks compile /repo's sources into their own binaries under build/; /repo itself carries no hooks."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
