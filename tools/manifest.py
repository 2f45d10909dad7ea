#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists what has a check."""
import json
TECH = "deterministic simulation with fault injection"
CLAIMED = {
 "P01": ("exploration", "seeded search over file sets, stream chunkings/interruptions and worker schedules; independent PBO decoder and SHA-1 as oracle"),
 "P02": ("fault_enumeration", "seeded placement of one stream failure per run over every byte/operation of source or destination, incl. resized sources, against the byte-exact archive"),
 "P03": ("exploration", "same contents archived under permuted insertion order, hash seeds, chunkings and schedules must be byte-identical"),
 "P04": ("fault_enumeration", "seeded storage damage to archives; crash, hang and memory verdicts plus comparison with the undamaged contents"),
 "P05": ("exploration", "signatures checked against an independent implementation of the BISign construction under seeded I/O, hash seeds and reloads"),
 "P06": ("fault_enumeration", "seeded tampering (adversarial and storage damage) of archive, signature and key; verification must reject"),
 "P07": ("fault_enumeration", "stream failures and storage damage on keys and signatures against independent parsers"),
 "P08": ("exploration", "generated programs (macros, conditionals, includes, quoting, comments) in layered simulated file systems under seeded listings, hash seeds and worker schedules, against an evaluator of the program structure that never reads the text"),
 "P09": ("fault_enumeration", "generated include trees on simulated layers with one injected failure (probe, open, read, short or changed contents) or a file that changes after it was read; success must equal the fault-free result and its source list, mapping and reporting must never crash"),
 "P11": ("fault_enumeration", "seeded storage damage to every kind of project file through the whole library pipeline in a watched process; crash, panic, hang, stack and memory verdicts; includes in circles must end as an error"),
 "P13": ("exploration", "the same generated project (with mistakes) processed under other hash seeds, listing orders, and concurrently under seeded interleavings; rendered diagnostics and outputs must be identical"),
 "P10": ("exploration", "every character of the output of generated programs traced back to where it was written, under seeded layers, hash seeds and worker schedules; rendered diagnostics and annotations checked against the sources"),
 "P12": ("fault_enumeration", "generated configs compiled through simulated files and destinations (chunking, interruptions, one failure at any byte), decoded by an independent reader of the binary form; mistakes must be refused"),
 "P14": ("fault_enumeration", "lookups in generated layered workspaces under seeded listing orders, hash seeds and one injected I/O error, against the documented rules over a plain file map"),
 "P15": ("fault_enumeration", "scans and walks of generated trees with seeded directory order and one failing call anywhere; entries compared with the generated tree"),
 "P22": ("fault_enumeration", "the extension's real code and link thread against simulated sockets that fragment, stall, interrupt and drop bytes under seeded interleavings of game calls; delivered messages compared with those accepted"),
 "P23": ("fault_enumeration", "settings written from a generated model, loaded through interposed system calls (short, interrupted, failing), cut off and damaged; every accessor compared with the model"),
 "P16": ("fault_enumeration", "independent MLOD codec as oracle; seeded stream chunkings and one seeded stream failure per run over every byte of reads and writes"),
 "P17": ("fault_enumeration", "seeded storage damage to models, textures and compressed blocks in page-fenced buffers; crash, hang, memory and out-of-bounds verdicts"),
 "P18": ("exploration", "seeded interleavings of concurrent searches over a shared cache on a simulated layered file system with listing shuffles and I/O errors, against a set-based reference"),
 "P19": ("fault_enumeration", "independent PAA codec and BCn decoder as oracle; seeded stream chunkings and failures over every byte; size limits"),
 "P21": ("fault_enumeration", "random documents through simulated streams (chunking, interruptions, one failure anywhere, truncations) against an independent model of the table; repeated writes must be a fixed point"),
 "P20": ("fault_enumeration", "independent LZO decoder as oracle, page-fenced buffers, undersized outputs and injected allocation failures"),
 "P24": ("exploration", "the whole command (unmodified process) run twice on a generated project under different seeded thread interleavings, worker counts, listing orders, hash seeds and clocks; output trees and diagnostics must be identical"),
 "P25": ("fault_enumeration", "the whole command run with one seeded failing call, full disk, short or interrupted transfers anywhere below libc; it must fail, or output and messages must equal those of the undisturbed run"),
 "P26": ("fault_enumeration", "the whole command killed at seeded file-system mutations (torn writes included), once or repeatedly, then run again and compared with a clean build"),
 "P28": ("fault_enumeration", "generated scripts compiled through simulated files and destinations under seeded interleavings, hash seeds and one failure at any byte; decoded by an independent reader and compared with the generated program; mangled scripts must be refused without a crash"),
 "P29": ("exploration", "the whole command run on generated projects under seeded interleavings, worker counts and listing orders; every archive of the output decoded independently and compared with the generated project"),
 "P30": ("fault_enumeration", "the unmodified command run on generated projects with one seeded failing call, full disk, short transfers or a crash at any mutation; contents compared by independent readers with those before; files must be old or new, never partial"),
 "P31": ("fault_enumeration", "the unmodified command run on generated good, damaged and hostile archives under seeded faults; files compared with the generated map, escapes recorded by a guard below libc"),
 "P32": ("fault_enumeration", "the unmodified command run on generated good, tampered and damaged files under seeded faults; reports compared with independent decoders and signature checks"),
 "P33": ("exploration", "whole builds of projects with generated hooks and scripts under seeded interleavings, listing orders and one failing call; order, values, virtual and real files compared with a model of the operations"),
 "P34": ("fault_enumeration", "hemtt launch with simulated Steam scripts that record what they were started with, on generated projects, configurations and presets under seeded faults; the games started compared with a model of the configurations"),
 "P35": ("fault_enumeration", "builds with simulated binarize tools whose outcomes are drawn (produced, nothing, failure, missing), on generated projects with models, selections and places, under seeded schedules, faults and kills; what each run of the tools was given and what was packed compared with a model of the selection"),
 "P36": ("fault_enumeration", "hemtt value, localization coverage and new on generated projects, string tables and repositories under seeded faults; answers compared with what was generated, projects with what was answered"),
 "P37": ("exploration", "hemtt check and build with --ci on projects generated with a known list of mistakes and lint settings, under seeded interleavings, listing orders and one failing call; the reports compared with the list"),
}
NA = {}
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
REASON = {
 "P27": "Version ordering is a pure function of two values: no concurrency, time, I/O or fault can influence it, so there is nothing for a simulator to control.",
}
m = {"version": 1, "setup_cmd": "bash build.sh lsim bsim" , "checks": [], "not_applicable": []}
for p in ALL:
    if p in CLAIMED:
        lvl, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}", "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": lvl, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": REASON.get(p, "not claimed yet: the check is still being built")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
