#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of techniques below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = ("TLC and its Java overrides for Keccak-256 are trusted, as is the harness code that "
         "builds and reads public data structures.")
MAP = ("TrieMC: exhaustive over all histories inside each finite universe of keys and entries "
       "(curated and seeded); every state and transition is replayed into both trie types, long "
       "random walks and recorded executions over larger pools are validated by TrieTrace. ")
SUB = ("SubsetMC: every content, request set and batch of small universes; replayed into both trie "
       "types; recorded executions over larger tries validated by TrieTrace. ")
DBG = ("DebugMC: every pair of contents (hidden parts included) and every probe of small universes, "
       "replayed through the public text and fields; recorded executions validated by TrieTrace. ")
NIB = "Replayed in builds with and without overflow checks. "
T_MAP = "TLA+ map/trie refinement model, graph replay and trace validation"

CHECKS = {
    "C01": (T_MAP, MAP), "C02": (T_MAP, MAP), "C03": (T_MAP, MAP + "The root hash is computed by the "
            "specification itself (RLP and hex-prefix in TLA+). "),
    "C04": (T_MAP, MAP),
    "C05": ("TLA+ model of handles and hash caches, sequence replay and trace validation",
            "HandleMC: all interleavings of operations on two handles with cache cells; all short call "
            "sequences and long walks replayed; recorded executions validated by TrieTrace. "),
    "C06": ("TLA+ model of handles and hash caches, sequence replay and trace validation",
            "HandleMC: as C05, observing the holder that was not operated on. "),
    "C07": ("TLA+ model of complete and partly hidden trie in lockstep, replay and trace validation",
            "HideMC: every way of hiding subtrees of every content of small universes and every operation "
            "on them; one known finding is told apart by its exact history. "),
    "C08": ("TLA+ subset extraction model, replay and trace validation", SUB),
    "C09": ("TLA+ subset extraction model, replay and trace validation", SUB),
    "C10": ("TLA+ subset extraction model with marks between requests, replay and trace validation", SUB),
    "C11": (T_MAP, MAP + "Universes with hidden entries. "),
    "C12": (T_MAP, MAP), "C13": (T_MAP, MAP),
    "C14": ("TLA+ trie model graph, lockstep replay of both types",
            "Every state and transition of TrieMC and long random call sequences executed on both types "
            "and compared with each other. "),
    "C15": ("TLA+ model of key operations, replay in two build modes and trace validation",
            "NibMC: every operation with every argument around its limits, from every short key and many "
            "long ones; compositions validated by NibTrace. " + NIB),
    "C16": ("TLA+ model of key conversions, replay in two build modes",
            "ConvMC: every conversion of every listed input with the laws that tie them together. " + NIB),
    "C17": ("TLA+ model of the hex-prefix encoding, replay in two build modes",
            "ConvMC: encoder on all short and many long keys, decoder on all flag bytes. " + NIB),
    "C18": (T_MAP, MAP + "States are passed through serde_json before use. "),
    "C19": ("TLA+ model of threads sharing cached hashes, gated replay, stress and trace validation",
            "ConcMC: all interleavings of the lock steps of two and three threads over tries that share "
            "nodes, with deadlock and liveness checks; every case is run on real threads many times, and "
            "recorded results are validated by TrieTrace. Real schedules are sampled, not enumerated. "),
    "C20": ("TLA+ model of the difference search, replay", DBG),
    "C21": ("TLA+ model of path queries, replay", DBG),
    "C22": ("TLA+ model of trie statistics, replay", DBG),
    "C23": ("TLA+ model of typed values, replay in two build modes",
            "ValueMC: every conversion into an entry of every listed input, stored and read back. " + NIB),
    "C24": ("TLA+ subset extraction model with repeated extraction, replay",
            "SubsetMC: composition laws on every content, request set and part of it; replayed as chains of "
            "extractions on both trie types, and on large tries (ScaleMC). "),
    "C25": ("TLA+ acceptor of recorded comparisons and set histories",
            "OrderTrace: recorded comparisons of all pairs and triples in pools of keys made in many ways, and "
            "set operations, are accepted only if some total order of sequences explains them. " + NIB),
    "C26": ("TLA+ model of tries with integer keys, replay in two build modes",
            "KeyedMC: all histories over universes of related numbers in different widths; every state and "
            "transition replayed with the typed key on both trie types. " + NIB),
}

PENDING = "not claimed yet: the specification module for it is still being built"


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in CHECKS:
            tech, note = CHECKS[p]
            cmd = "python3 tools/check.py " + p
            checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech,
                           "level": "model_checking", "level_note": note + TRUST,
                           "evidence_file": "evidence/%s.json" % p})
        else:
            na.append({"property": p, "reason": PENDING})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "TLA+ with TLC. See DESIGN.md; known and fixed defects are in KNOWN_FINDINGS.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
