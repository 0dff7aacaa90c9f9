#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "N01": "pure arithmetic on two values: no stream, schedule, fault or randomised order it could depend on (what users see of it is exercised through C01, C02, C19 and C20)",
    "N02": "pure function of one symbol; no schedule, clock, fault or interleaving (its observable effect, correct matching at range boundaries, is decided by C01 and C19)",
    "N04": "pure syntactic rewriting of pattern values; no schedule, fault or interleaving (that assembled patterns match the right strings is decided by C01)",
    "N05": "from_regex is an unimplemented stub in this commit, and would be a pure function of a string",
}
NOTE = {
    "C01": "Seeded search over patterns, symbol types at the edges of their range, readers, entry points, cut-offs, stalls and hash seeds, against two independent reference matchers (a derivative-like interpreter and an NFA simulation) that are also compared with each other.",
    "C02": "Seeded search over token sets with engineered ties, insertion orders, duplicates, cut-offs and hash seeds; the winner is computed from per-pattern reference verdicts.",
    "C03": "Seeded scheduler over many concurrent matches (fork, feed, drop, finish) on one matcher; each verdict compared with the reference run alone, and early verdicts with whether any continuation could change them.",
    "C04": "Seeded operation histories on a tape against a vector-and-indices model, checked after every operation.",
    "C05": "As C04, with rewinds placed around the edge of the allowance; every refusal must be a panic that changes nothing, every allowed rewind must be accepted.",
    "C06": "Instrumented endless, ending and resuming sources under tapes, splits, mapped readers, matches and tokenizers; pulls are checked against the least the reference automaton needs.",
    "C07": "Seeded schedules of reads over nested split halves with stalling sources, against a shared-sequence model.",
    "C08": "As C07 with drops at arbitrary moments and continued reading from the original; a CPU-time watchdog turns a hang into a violation.",
    "C09": "Live instances are counted while long streams pass through splits, tapes and tokenizers; bounds depend on the lag, span or token length, never on stream length.",
    "C10": "Simulated byte stream with short reads, EINTR, would-block, hard errors and transient ends at planned offsets.",
    "C11": "Seeded mixes of tokenizer operations, each result compared with reference longest matches; positions checked after every operation.",
    "C12": "Seeded failing attempts with look-ahead and empty-matching patterns, repeated attempts, bounded-step termination.",
    "C13": "Simulated crashes at arbitrary points with a simulated disk (torn, lost or completed checkpoint writes) and a matcher reloaded from its stored form; output compared with the uninterrupted reference.",
    "C14": "Every stored form is reloaded whole, truncated and with components removed, through short and failing reads; whatever loads must behave as the original does.",
    "C15": "Seeded tagging histories against a reference tree, compared by every reading interface.",
    "C16": "Valid, invalid and interrupted requests (panicking tag lists, mappings and readers) against the reference tree; refusal must leave the stream unchanged.",
    "C17": "Level-by-level tokenization of tagged streams and reader-backed tagging compared with reference tokenization; mapping calls are counted.",
    "C18": "Tasks on parked threads, exactly one running, switched at reader pulls, symbol comparisons and mapping calls by the seeded scheduler, with slow and failing sources and cancellation; results compared with a run alone.",
    "C19": "Random automata (joins, cycles, outputs, overlapping ranges) assembled in several random orders and hash seeds, against an epsilon-closure simulation.",
    "C20": "A checking builder observes every call of the compiler; the automaton it receives, the table-driven one and its recompilation are compared with the reference state by state.",
    "C21": "The same input compiled under several simulated hash seeds and threads; behaviours compared pairwise by product walk and with the reference.",
    "C23": "Seeded histories of additions, lookups and separations of symbol maps over all symbol types, against a set of ranges.",
    "C24": "Seeded building histories of several machines and their copies, questioned as they grow, against a model machine.",
    "C25": "Random trees of tapes, splits and adaptors over a source that panics before planned symbols, used on after every failure, against the sequence of symbols the source gave.",
    "C26": "Growing trees of real readers over a simulated source, layered, split, read, finished and dropped by a random schedule, each top compared with the layers applied to whole sequences.",
    "C27": "Long seeded histories on symbols, sources and an allocator that count what is done with them; the running totals are compared with what the history gave reason for, after every call.",
    "C22": "Random stacks of adaptors over faulty sources, read at changing levels, against the source sequence.",
}
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the crate's own seams (SymbolReader, io::Read, symbol types, closures, serde) and a replacement of getrandom in the harness binary reach every source of nondeterminism. DESIGN.md explains the simulator.",
}
for p in props:
    if p["id"] in NA:
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": "deterministic simulation with fault injection (seeded search, reference model, minimised replay)",
        "level": "exploration",
        "level_note": NOTE[p["id"]] + " Assurance is that of sampling: each run is one seeded execution of the real code in checked and release builds; trusts the reference models in /verif/dst.",
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
