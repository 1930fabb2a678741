#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after adding a check)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import checks
SH = "explicit-state exploration of the layout automaton; every explored shape replayed through the real derive macro"
WR = "explicit-state search over writer states plus exhaustive bounded histories, executed on the real writer against a reference model"
T = "Trusts the hand-written GLSL layout model (self-tested against a literal table), rustc/cargo and bytemuck; little-endian 64-bit host. "
C = {
 "C01": (SH, "model_checking", T + "Complete for the (offset mod 32, max alignment) automaton over all field classes, all ordered pairs (thorough: triples) of field types, products up to 7 over coarse classes, every class at every index to 33/70 fields; beyond that by the automaton's exactness. The model is compared with naga's own layouter; equal struct names in different modules, shadowed type names, attributes and spellings are part of the family."),
 "C02": (SH, "model_checking", T + "As C01, for std430."),
 "C03": ("exhaustive enumeration of all built-in types, components and boundary values on the real types", "exploration", T + "All types of both layouts, every component through its boundary values, all pairs of components; all 2^32 words of the 32-bit scalars and booleans; thorough adds the same for four vector types."),
 "C04": ("exhaustive enumeration of struct shapes and member boundary values, byte image compared with the model on dirtied stack", "model_checking", T + "Stack pre-filled with four patterns before each conversion; uninitialised bytes that happen to be zero for all four patterns would be missed."),
 "C05": ("exhaustive enumeration of struct shapes and member boundary values, round trip on the real code", "model_checking", T + "Every leaf through its boundary bit patterns, all boolean combinations up to 6 booleans, all 15 misalignments."),
 "C19": ("exhaustive injection of panics at every point where a write enters caller-supplied code (sinks, iterators, composed values, conversions), with recovery", "fault_enumeration", T + "All histories of length 3 (thorough 4) over 11 operations and 4 (6) over 5; up to two (three) panics per execution."),
 "C20": ("exhaustive enumeration of the interleavings and nestings of operations on up to three writers, sizers and values under a controlled scheduler, on one thread and on one thread each", "model_checking", T + "Switches happen between operations and wherever crevice calls caller-supplied code (sink, iterator, conversion, composed value); not between two instructions of crevice itself, which holds no shared state and no unsafe synchronisation."),
 "C21": ("exhaustive enumeration of types, byte images, and histories with faults at every kind of point, each executed by Miri with the undefined-behaviour monitor, for hosts of both word sizes and endiannesses, and compared with the model", "exploration", T + "Trusts Miri (nightly, installed) and the std it builds for each host from the installed sources. Quick: three hosts, about 300 generated structs; thorough: four hosts, about 1000, and every byte as the point of a fault. Rules about aliasing are checked on one host (tree borrows), since the library relies on none."),
 "C06": ("exhaustive enumeration of struct shapes and byte images (every padding byte, every boolean word) read back on the real code", "model_checking", T + "Every padding byte individually and together, boolean words from a boundary set in every leaf, all 2^32 for the bare boolean and its equality; pairs of boundary words in every component of boolean vectors."),
 "C07": (WR, "model_checking", T + "All operations from all offset residues modulo 1024 (thorough 4096), all histories to depth 6 (8) over 9 representative types and depth 4 (5) over one type per (alignment, size) class; all-zero and all-ones values; types of up to 70 kB and alignment 4096; streams past 4 GiB over a counting sink; nothing emitted on drop."),
 "C08": ("as C07, with sizer and writer run in lockstep and every size query compared with a fresh writer", "model_checking", T + "Same bounds as C07; slices up to 40/130 elements and some up to 70000; sizes past 4 GiB for the calculator and the writer."),
 "C09": (WR + "; every slice/iterator operation with all size-hint behaviours", "model_checking", T + "Every batch operation from every offset residue, histories to depth 5 (6); lengths up to 70000."),
 "C10": ("exhaustive fault injection at every sink call (short counts, interruptions, every error kind) with every recovery", "fault_enumeration", T + "Up to 3 deviations per execution, every stable error kind, sinks of every capacity and every uniform short-write size, sinks interrupted again and again, sinks with true vectored writes, batches without an end."),
 "C11": ("exhaustive enumeration of all supported library types, components and boundary values against the GLSL model", "exploration", T + "Every vector/point/matrix type of mint, cgmath, glam and nalgebra the crate supports, alone and in six struct contexts."),
 "C12": ("exhaustive enumeration of struct declarations; generated GLSL parsed, laid out by the model and compared with the real bytes", "exploration", T + "Own parser for GLSL struct declarations; the text is also given to naga's GLSL front end where that accepts such declarations. Names shared by structs in different modules and type names that mean something else where the struct is are part of the family."),
 "C13": (WR + "; plus enumerated struct shapes with wrapped members", "model_checking", T + "All wrapped types, all histories to depth 3 (4), all shapes of the family with wrapped members."),
 "C14": ("exhaustive enumeration of derive inputs (field counts, names, contexts, import styles, editions) compiled with the real macro and run", "exploration", T + "Bounded families of programs; a warning or error in derive output is a violation."),
 "C15": ("exhaustive enumeration of unsupported derive inputs, each required to be rejected by the real compiler", "exploration", "Trusts rustc diagnostics; families of item kinds x derives, and unsupported field types (of the language, the standard library, mint, cgmath, glam and nalgebra) x positions x derives."),
 "C16": ("exhaustive enumeration of build configurations; full observation transcripts compared line by line", "exploration", "Quick: eight configurations of derived structs and five of the writer; thorough: every feature subset in both profiles with and without std."),
 "C18": ("exhaustive enumeration of struct shapes; reported metrics compared with the model, every reported definition compiled again", "model_checking", T + "The family of C04-C06 (all ordered pairs of field types, automaton transitions, products, nesting, wrappers, user layout types)."),
 "C17": (WR + " with GLSL array layout as specification", "model_checking", T + "Every element type, 1..8 (1..32) elements and some long slices to 4097, every start offset below 64 (256) bytes, every following type and preceding class. Known findings are accepted only as exactly the packed stream."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        t, l, n = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
