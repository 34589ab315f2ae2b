#!/usr/bin/env python3
"""Writes DESIGN.md: text below, bounds and assumptions from checks.py, findings from known_findings.txt, planted bugs from seeded/."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
HEAD = open(HERE + "/tools/design_head.md").read()
TAIL = open(HERE + "/tools/design_tail.md").read()
# per property: the oracle, and what it reaches that tests do not
O = {
"C01": ("A map (name, size) -> bytes with the capacity rule of the statement; after every store every (name, size) of the alphabet is loaded and compared.", "aliasing of names of different length, full and nearly full storages, 8 and 16 bit limits of sizes and offsets, interplay of two storages"),
"C02": ("Two attached objects on the same image (the old one and a fresh one on a copy) answer the same loads and accept the same stores; the map of C01.", "re-attachment at every point of every history, images with arbitrary previous contents, used space that ends exactly at the end"),
"C03": ("The code runs with the buffer write-protected: every store instruction faults, is single-stepped, and the image before, after, and with every subset of the changed bytes (torn write) is a crash image. Each crash image is re-attached and compared with the map without the interrupted entry. The order of writes is the compiled code's own, not a model's.", "every crash point of a store and every torn write, and crash during recovery's first store"),
"C04": ("Containment by AddressSanitizer on heap blocks of the exact length, termination by the explorer's progress watch, and load-after-store.", "arbitrary memory images (corrupt chains, sizes 0..5, sizes beyond the end, short memories)"),
"C05": ("The prefix written earlier, the guard bytes, and agreement of size/data/view/capacity after each operation; two outputs side by side.", "every combination of pending settings and space left, buffers above 64 KiB, zero-length buffers"),
"C06": ("An independent decimal/hexadecimal renderer with the space rule of the statement.", "every width against every space left; every type's limits"),
"C07": ("Exact decimal expansion of the float (arbitrary precision) against the text, with the tolerance the statement names.", "rounding near carries, all exponents, all non-finite values, cuts"),
"C08": ("A list of lines: what the (simulated) port received must be the concatenation of complete lines; with driver deviations, each line must be a prefix-cut of itself and later lines intact.", "texts that exactly fill the buffer, failing and short transmissions at any place"),
"C09": ("Element addresses computed from the definition on the parent; AddressSanitizer on exact blocks.", "overflow in offset+count, chains of sub-views, all six element types"),
"C10": ("The definition with shifts; all 2^32 values.", "every value rather than three"),
"C11": ("An array of colours, and the packed image computed from it by the definition after every operation; image in a heap block of its own with guards.", "every depth, surplus colour bits, every previous content of the neighbours in a byte"),
"C12": ("The same call on a frame so large that nothing is clipped, seen through a window; for very large filled rectangles the known intersection. Positions outside are reported by the recording frame buffer itself.", "all positions around the frame with all sizes, in all rotations; far coordinates"),
"C13": ("The picture of the unrotated call turned by the definition of the rotation (non-square frames, so that width and height cannot be confused).", "histories of rotations, rectangles with negative positions, frames beyond 255 and 65535"),
"C14": ("The definition of a digital straight line in integers (|2(off*L - i*S)| <= L); either choice at a tie is accepted, both ends must give the same pixels.", "every slope, lines entering and leaving the frame, long lines"),
"C15": ("Set membership by definition.", "every size including zero and negative, rotations, 16 bit limits"),
"C16": ("Extreme points, symmetry, distance bounds, connectivity by flood fill, inside by flood fill from the outside. No particular circle algorithm is assumed.", "every radius up to the bound, clipped circles"),
"C17": ("The glyph's bits placed by the definition; strings against characters.", "every pattern, every size, all codes, absent characters, negative offsets"),
"C18": ("Glyph index by the statement's rule; start and end of the bitmap by the descriptor of that and the next glyph; font tables in exact heap blocks; char signed and unsigned builds.", "all (first, last) pairs, all codes, short tables"),
"C19": ("Every set pixel of every glyph against the rectangle, and the hull of boxes, pens and baseline as upper limit; real drawing into a frame of exactly the returned size.", "every pair of boxes (sizes, offsets, advances)"),
"C20": ("Exact arithmetic in a wider type.", "the limits of every coordinate type"),
"C21": ("A list of bits.", "every interleaving of bits, bytes and flushes"),
"C22": ("The produced header is parsed (and compiled where the scenario says so) and the binary file decoded; both are read through the library's own EmbeddedFont lookup and compared with the bitmaps the (stand-in or real) rasteriser delivered for the Unicode character, obtained independently through tables of the encoding.", "all sizes, paddings, metrics at the limits of the format, three encodings, odd file names"),
"C23": ("Ledger of handles in the stand-in (FreeType, iconv, files): each released once, in order; exit status and message against whether any fault was injected; files against what success requires.", "every single failing call, and pairs of failing calls"),
"C24": ("The whole text converted at once by iconv as reference; per character and per byte.", "every code after every code, invalid sequences in every state"),
"C25": ("The bytes the simulated line delivered, in order, against the bytes returned by all calls plus those left.", "all pause patterns, all buffer sizes, driver errors at any place"),
"C26": ("The framing rules of the statement on the line's byte list (exact result where time plays no role).", "consecutive packets, start byte inside, equal marks, tiny buffers"),
"C27": ("Virtual time: the simulated clock advances by what the driver calls take; lower and upper bound of the statement.", "wraps of every counter during the call, unrelated data keeping the line busy"),
"C28": ("Ledger of the simulated port.", "driver accepting part, nothing, failing; timeout restored in every case"),
"C29": ("The byte pairs the simulated bus saw, by position; driver rules (chunk limit, no null data, begin/end pairing).", "every length across the chunk limit, a fault in any chunk"),
"C30": ("Ledger of bus and device handles; driver state machine from the ESP-IDF documentation.", "every sequence with failures at any call"),
"C31": ("Bus log against the request; command list and transaction ledger.", "every driver result at every length, combined transfers"),
"C32": ("Simulated pins (level, direction, pulls) against the history of calls.", "every pin number, interleavings over several pins and handles"),
"C33": ("Simulated units: reading belongs to the pin's channel, unit free afterwards.", "every order of reads over both units with failures"),
"C34": ("Virtual time with irregularities (early wake-up, failed sleep, time passing between any two readings) chosen by the explorer.", "every wrap, every irregularity pattern within the budget"),
"C35": ("Ledger of driver calls with their arguments.", "all combinations of settings, repeated set-up, failures"),
"C36": ("The process's allocation functions count every request made while a library call is running; calls the library makes into the (simulated) driver or core are not counted, as their memory is the platform's.", "lengths, depths, sizes and buffer alignments at which an implementation would switch to a temporary buffer; failing driver calls"),
"C37": ("The statement's rules about options, numbers and defaults, evaluated by the harness for every command line of the alphabet, against the files that appear, what the stand-in rasteriser was asked for, the exit status and the messages.", "combinations of options, repeated and joined options, numbers at every limit, files that cannot be written"),
}
out = [HEAD, "\n## The properties and their checks\n"]
for p in props:
    c = CHECKS.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not c:
        out.append("Not applicable: %s\n" % NOT_APPLICABLE[p["id"]])
        continue
    o, r = O[p["id"]]
    out.append("- **Specified and compared with (oracle):** " + o)
    out.append("- **Enumerated, within bounds:** " + c["rule"] + ".")
    if c.get("assumptions"):
        out.append("- **Assumed:** " + "; ".join(c["assumptions"]) + ".")
    out.append("- **Reaches what tests do not:** " + r + ".")
    files = sorted({b["harness"] for b in c["builds"]})
    out.append("- **Where:** " + ", ".join("`harness/%s`" % f for f in files) + (" (builds: " + ", ".join(b["name"] for b in c["builds"]) + ")" if len(c["builds"]) > 1 else "") + "\n")
out.append(TAIL)
out.append("\n### Planted bugs (seeded/)\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % i))
    caught = json.load(open(HERE + "/tools/caught.json")).get(i, m["property"])
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
