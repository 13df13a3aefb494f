#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import vf
T = "deterministic simulation with fault injection: "
COMMON = " Sampling by seed: a quiet run is evidence over the runs counted in the evidence file, not proof. Trusts gcc, OpenSSL's primitives and the simulator."
NOTES = {
 "C01": (T + "seeded network, crash and restart schedules over real implementations, specification model as oracle",
         "Seeded histories of parties over a lossy network with crashes and key storage, plus bulk exchanges and exchanges under noisy keys that put decryption at the edge of failure; every operation is compared with an independent model of the specification, agreement and bounded completion are checked over the history."),
 "C02": (T + "seeded message corruption, every single-bit flip of sampled ciphertexts, rejection value from the model",
         "Every single-bit flip of a ciphertext per implementation plus seeded torn, spliced, foreign and crafted ciphertexts; exact rejection value required."),
 "C03": (T + "seeded storage damage and hostile peers, specification model as oracle",
         "Seeded damage of stored secret keys and hostile public keys; the result must be what the model computes from the very bytes."),
 "C04": (T + "seeded histories replayed across implementations with mid-history switches",
         "Byte-for-byte equality of all implementations of a parameter set on the same random stream, with switches at restarts."),
 "C05": (T + "seeded scheduler preempting or nesting operations between any two instrumented memory accesses",
         "Operations run as fibers inside one process; the scheduler switches at instrumented accesses and blocks. The same on the Cortex-M4: a handler runs a whole operation inside another. Oracle: the serial result. Single processor interleavings at access granularity, no weak memory."),
 "C06": (T + "seeded kill points inside operations, then further operations against the model",
         "Operations are abandoned at seeded instrumented points (on Cortex-M at any instruction) in the same process image; every later result must be the model's."),
 "C07": (T + "seeded placement, alignment, stale memory and call history as faults",
         "The same operation, on hosts, Cortex-M4 and Cortex-M0, is run under different addresses, alignments, stale stack, heap and register contents and histories; outputs must be the model's."),
 "C08": (T + "guard pages, read-only inputs and address sanitizer as the injected memory environment",
         "Buffers end at inaccessible pages, inputs are read-only, stack and static storage carry canaries; a second build runs under address sanitizer. On the emulated Cortex-M every byte that is not argument, static data or stack is inaccessible."),
 "C09": (T + "failing allocations and library calls at enumerated and seeded points",
         "The n-th allocation or library call (of any library function whose failure can be reported) fails; the operation must stop or return its fault-free result, and must not leak."),
 "C10": (T + "seeded histories of the random generator against an executable SP 800-90A model",
         "Sequences of seedings and requests, with generator state placed next to counter carries."),
 "C11": (T + "seeded histories of seed expander calls against an executable model",
         "Cuts, interleavings, very long requests, refused requests and exhaustion, including streams past 2^24 blocks."),
 "C12": (T + "controlled random source, perturbed and degenerate streams, abandoned operations",
         "All draws are logged and perturbed bit by bit; outputs are searched for raw random bytes; hosts and Cortex-M."),
 "C13": (T + "seeded per-lane corruption of batches, specification model lane by lane",
         "Each lane must equal the model whatever the other lanes hold."),
 "C14": (T + "instruction-block and address traces of simulated executions compared across secrets",
         "Traces of branches, memory addresses and operands of divisions of the machine code as shipped (instrumented assembly) and of compiler-instrumented builds, and of every instruction and data address of the emulated Cortex-M4; differences between secrets are violations. Does not model instruction latency or caches."),
 "C15": (T + "Cortex-M4 machine code in an instruction-set simulator with interrupts at seeded instructions",
         "The real Thumb-2/DSP machine code, hash functions replaced by stubs; both secret key formats (plain and 4-bit); interrupts, register and stack contents and buffer addresses are injected."),
 "C16": (T + "Cortex-M0 firmware on a simulated board: interrupts, stalls, power loss, memory contents",
         "The whole firmware image runs in an instruction-set simulator with simulated peripherals."),
 "C17": (T + "Cortex-M0 firmware on a simulated board: serial line, timer and interrupt timing",
         "Everything sent over the simulated serial line is compared with what the simulated clock says; the reporting functions are also called directly with arbitrary contents, the build that measures the stack is compared with the memory the simulator saw used, and the build that tests the peripherals with the random bytes it drew and the time it took."),
 "C20": (T + "seeded histories of calls on interleaved contexts, interrupted and abandoned between any two events, against executable models of the standards",
         "Every function is called with lengths, customisations, nonces and counters around their edges, in guarded memory, output over input, on up to four contexts in turn, inside one another and abandoned midway (host: at instrumented accesses, Cortex-M0: at any instruction)."),
}
NA = {
 "C18": "a pure function of its operands: no schedule, time, I/O or fault can change its outcome, so seeded search over schedules and faults has nothing to decide (it is exercised through C01-C04)",
 "C19": "a probability of about 2^-120 and below over honest runs without any fault or schedule: no feasible number of simulated runs can observe it",
}
checks = []
for p in sorted(vf.PROPS):
    tech, note = NOTES[p]
    checks.append(dict(property=p, quick_cmd="python3 vf.py check %s quick" % p, thorough_cmd="python3 vf.py check %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=tech, level="exploration", level_note=note + COMMON))
na = [dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in vf.PROPS]
m = dict(version=1, setup_cmd="python3 vf.py setup",
         hooks=dict(guard="none", enable="No hooks in /repo: every seam is reached from outside by the linker's --wrap, compiler instrumentation and the instruction-set simulator.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="python3 vf.py replay FILE repeats a reported violation. VF_THOROUGH_SECONDS sets the length of the thorough tier (600).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
