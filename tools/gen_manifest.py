"""Writes MANIFEST.json. Run from /verif after changing what is claimed."""
import json
RT = "runtime monitoring: "
SAN = "libFuzzer with AddressSanitizer and debug checks over the same oracle"
T = {
 "C01": ("differential monitor against an independent decoder; sweep over endpoint pairs; " + SAN, "Every endpoint pair is reachable by the sweep (the thorough tier completes all 2^32 in one format and samples the others); index words are sampled. Trusts the monitor's transcription of the format."),
 "C02": ("differential monitor against an independent decoder; complete sweep of endpoint pairs, codes and positions; " + SAN, "Complete over endpoints x code x position for each channel; combinations of codes are sampled. Trusts the monitor's transcription of the format."),
 "C03": ("per-pixel placement oracle with canaries on serial and parallel builds; " + SAN, "All sizes to 36x36 and extreme shapes; larger ones are sampled. Trusts decompress_block, which C01/C02 judge."),
 "C04": ("block-by-block reference with canaries on serial and parallel builds; " + SAN, "All sizes to 24x24 and extreme shapes; larger ones are sampled. Trusts compress_block_masked, which the other checks judge."),
 "C05": ("schedule perturbation through row hooks with a digest oracle over pools, processes and builds; ThreadSanitizer; Miri data-race detector", "Schedules are sampled, not enumerated; the evidence counts the distinct row interleavings seen."),
 "C06": ("metamorphic monitor (paired executions) with mask sweep; " + SAN, "All 65536 masks in every format; blocks are sampled."),
 "C07": ("panic/overflow/UB monitors: debug assertions, overflow checks, AddressSanitizer, CPU-time watchdog, required-panic oracle; Miri", "Inputs are sampled with feedback from coverage and comparisons; an input needing more luck than that can be missed."),
 "C08": ("encode-decode alpha-test oracle, sweep of transparency patterns; " + SAN, "All 65536 transparency patterns; colours and alphas are sampled."),
 "C09": ("encode-decode nearest-level oracle, sweep of alpha x position; " + SAN, "Complete over alpha x position; other pixels are sampled."),
 "C10": ("encode-decode error oracle against two reference fits, sweep of channel ranges; " + SAN, "All min/max pairs; inner values are sampled. Trusts the reference fits in the monitor."),
 "C11": ("encode-decode error oracle against a brute-forced optimum; sweep of all 2^24 colours; " + SAN, "All 2^24 colours; masks, transparency and parameters are sampled."),
 "C12": ("encode-decode oracle on two-colour blocks with directed sweeps; " + SAN, "Colour pairs are sampled (2^48 exist), with directed families of hard pairs."),
 "C13": ("fitting-error oracle against a reference search in double precision; " + SAN, "Blocks are sampled; the 1% margin absorbs rounding differences between search orders."),
 "C14": ("nearest-entry and fitting-error oracle against a reference fit in double precision; " + SAN, "Blocks are sampled; the 1% margin absorbs rounding differences."),
 "C15": ("metamorphic monitor over groups of encodings; " + SAN, "Blocks and parameters are sampled; comparisons allow for rounding."),
 "C16": ("metamorphic monitor over formats and channels; " + SAN, "Blocks and parameters are sampled."),
 "C17": ("differential execution of job lists in four native build profiles, and natively against Miri on big-endian and 32-bit targets", "A few hundred jobs per run on other targets (Miri is slow); software floating point stands in for the library's optional std functions where the target has none."),
 "C18": ("counting global allocator and thread census around every library call", "Every call of the workload is counted; inputs are sampled."),
 "C19": ("end-to-end oracle: own DDS parser plus library call", "Images and options are sampled, all option values covered. Trusts the library, which C01-C16 judge."),
 "C20": ("end-to-end oracle: own DDS writer and PNG reader plus library call", "Files are sampled. Trusts the library, which C01-C16 judge."),
 "C21": ("end-to-end oracle: own PNG and JPEG encoders with known pixels", "All PNG colour types, depths, interlacing; images are sampled. JPEG pixels: DC-only images computed independently of the decoder, others via the pinned decoder."),
 "C22": ("fault injection at every read and write through an interposed C library, truncation at every length, corruption; fail-or-correct oracle", "Fault positions are enumerated for the runs explored; files are sampled."),
 "C24": ("encode-decode oracle with two decoders, sweep of all 2^24 colours; " + SAN, "Blocks and parameters are sampled besides the sweep."),
 "C25": ("CPU-time monitor (thread clock) of each call against an ordinary block measured in turn, a violation only if the least of 75 measurements is over ten times the ordinary median", "Inputs and shapes are sampled; cost increases below a factor of ten go unnoticed."),
 "C26": ("wide-arithmetic oracle and required-panic oracle on optimised and checked builds; Miri on a 32-bit target", "Pairs of lengths are sampled, with directed families around every limit."),
 "C27": ("end-to-end oracle over runs under varied circumstances and among concurrent runs; system call trace judged online against the files a run may touch", "Circumstances are combined one at a time with sampled inputs; the trace sees the C library's and the program's own system calls alike."),
 "C28": ("resource monitor (wait4: peak memory, CPU time) of each run, next to a square image of as many blocks", "Files are sampled; cost increases below a factor of ten go unnoticed. JPEG headers that promise too much are left out: the pinned decoder allocates what they say."),
 "C29": ("oracle over pairs of pixels of one decoded block, and over pairs of runs (pixels rearranged); " + SAN, "Blocks and parameters are sampled. With several colours the decoded colours may depend on the arrangement."),
 "C30": ("encode-decode oracle on extremes and order; sweep of channel ranges; " + SAN, "Values between the extremes are sampled; the sweep goes through pairs of extremes."),
 "C31": ("CPU-time monitor of the threads of the pool and of the whole process around each call; a violation only if calls repeated at least 24 times never spread (or stay within) the pool while as much work that the monitor shares out itself does", "Lopsidedness below 2.5 times the even share goes unnoticed; undecided where the machine gives the pool's threads no time."),
 "C32": ("crash-point injection (interposed C library: killed before, in and after every step that changes files), signals, limits and refused writes, in sequences; strict readers and the commands themselves as oracle over what is left", "Crash points are enumerated for the runs explored; files and sequences are sampled. Power loss (what the kernel had not yet written) is out of reach."),
 "C33": ("metamorphic oracle over generations: each compared with the one before, edited blocks aside; " + SAN, "Images, edits and parameters are sampled."),
 "C23": ("differential execution in a freestanding process (x86_64-unknown-none, core alone, software floats) with stack high-water measurement; control program", "Executed on x86_64 only; for thumbv7em and riscv32imac the program is linked, not run (no emulator here). A failure to link counts as a violation only if the same program without the library links."),
}
LEVEL = {"C22": "fault_enumeration", "C32": "fault_enumeration"}
BUILT = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27","C28","C29","C30","C31","C32","C33"]
NOT = {}
for i in range(1, 34):
    c = "C%02d" % i
    if c not in BUILT:
        NOT[c] = "not built yet"
m = {
 "version": 1,
 "setup_cmd": "bin/check --setup",
 "hooks": {"guard": "cargo feature verif-hooks of crate texpresso", "enable": "the monitor crate's feature `hooks` (texpresso/verif-hooks) in the parallel and ThreadSanitizer builds",
           "source_commits": ["b0694b29f0331c9eea7d63bf56f825a40c4c3375"]},
 "checks": [{"property": c, "quick_cmd": "bin/check " + c, "thorough_cmd": "env VERIF_TIER=thorough bin/check " + c, "evidence_file": "evidence/%s.json" % c,
             "technique": RT + T[c][0], "level": LEVEL.get(c, "exploration"), "level_note": T[c][1]} for c in BUILT],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
