#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over "
C = {
 "C01": ("schedules of 2-4 threads preempted at memory accesses inside the library; exact reference model, happens-before race detection",
         "Every evaluation of every interleaving explored is compared with exact 128-bit rational arithmetic; races and modified shared operands are violations. Sampled, not exhaustive; g++ -O1 code."),
 "C02": ("loss, duplication, reordering, delay, partition and crash of replicated totals; exact model",
         "Every intermediate and final total of every replica is compared with the exact one. Sampled histories inside the range of the type."),
 "C03": ("redelivery, reordering, re-representation and crash of a deduplicating consumer; model set and order",
         "Real hashed and ordered containers are compared with the model after every event. Sampled histories."),
 "C04": ("chunking, delay and interleaving of stream bytes between devices and threads; values and bytes compared",
         "Each value read back is compared with the one written, and the next character with the separator. Sampled device behaviours and formats."),
 "C05": ("refused, short, torn and throwing writes; prefix oracle",
         "After every insertion the bytes at the device are compared with the ideal text. Sampled fault plans."),
 "C06": ("truncation, loss, flips, duplication, splices, chunking and device errors of stored text; independent grammar as oracle",
         "Each accepted value is re-derived from the characters consumed by an independent scanner; targets of refused reads compared with their previous parts. Sampled damage."),
 "C07": ("device faults under every exception mask; lock-step comparison with the part-by-part sequence",
         "Exceptions, states, bytes and positions of two identical faulty devices are compared step by step. Sampled faults and masks."),
 "C08": ("zero divisors and undefined values injected into running computations; taint model",
         "Each register is compared with a model value that is exact or undefined; a trap ends the run as a violation. Sampled programs."),
 "C09": ("allocation failure plans under value operations and stream operators; exact model",
         "Any allocation requested by a value operation is a violation; streams under failing allocations are held to the prefix and state oracle. Sampled plans."),
 "C10": ("clock jumps, stalls and skew beneath wrapped clocks; exact model of every reading",
         "Each reading is compared with the exact value of the underlying one and the number of underlying readings with one. Twenty-four instantiations, sampled histories."),
 "C11": ("clock jumps and stalls; exact conservation of elapsed time over histories of mixed-unit intervals",
         "Every interval is compared with its exact value in seconds. Sampled histories over ten units and eight policies."),
 "C12": ("clock jitter, stalls, jumps and node crashes around periodic deadlines; exact deadline model",
         "Every deadline and every firing is compared with the exact model. Sampled histories."),
 "C13": ("jumping-clock readings quantised over histories; exact rounding model, monotonicity, step bound",
         "Each quantised reading is compared with the exact grid point. Sampled histories."),
 "C14": ("crash points, torn, lost and reordered writes, full disks and I/O errors around checkpoints; uninterrupted exact model",
         "Every register after every resumption is compared with the uninterrupted exact computation. Sampled crash points and disk faults."),
 "C15": ("truncation, flips, loss, duplication and splices of text in transit beside unmapped pages; independent grammar and exact value as oracle",
         "Each conversion is compared with an independent parser; reads outside the text fault or change the result between hostile neighbours. Sampled damage."),
 "C16": ("bit flips, stuck bits, torn and swapped words of float samples; exact value of the bits as oracle",
         "Each conversion is compared with the exact value of the sample's bits, both ways. Sampled bits."),
 "C22": ("interrupts at memory accesses inside the library, nested handlers, jumps out of them and thread death; exact model after every evaluation, progress",
         "Every evaluation, interrupted, nested or made after an abandoned one, is compared with exact arithmetic; own and shared values compared bit for bit. Sampled interrupt schedules; g++ -O1 code."),
 "C23": ("changes of the floating-point environment and the global locale between and during evaluations of several threads; exact model, control registers compared",
         "Every evaluation is compared with exact arithmetic and the control registers and locale with what was set. Sampled environments; x86-64."),
 "C24": ("loss, duplication, delay and corruption of jobs, slow-downs, stalls and crashes of the node that evaluates them in virtual time (one basic block = one step); step, stack and device-request budgets, exact model",
         "Every evaluation must end within its budget of basic blocks and stack and with the exact result; devices count their requests. Work inside the compiled part of libstdc++ is seen through the device requests only. Sampled histories; g++ -O1 code."),
 "C25": ("relocation, byte-wise restore after a crash, piecewise, duplicated and overtaking delivery, torn copies and lost races of compare-and-swap over the object representation of values; exact model and byte comparison",
         "After every event the value held is compared with the exact one and its bytes with those of a new value of the same parts made in dirty memory. Sampled histories; the layouts of g++ on x86-64."),
 "C26": ("the order of static initialisers, exit and thread-exit handlers around evaluations, with freed memory overwritten; exact model, results compared across stages",
         "Every evaluation at every stage is compared with exact arithmetic, and repeated at later stages. The library has no static objects today, so what is reordered around the evaluations is the harness's own handlers until it gets some. Sampled orders."),
 "C21": ("loss, duplication, reordering and partition of messages and crash, upgrade and rollback of nodes with different integer types and policies; exact model",
         "Every value on every node and every mixed-type evaluation is compared with the exact model. Sampled histories over 5 integer types and 10 policies."),
}
N = {
 "C17": "Compile-time evaluation happens in the compiler, before there is an execution: there is no schedule, clock, I/O or fault a simulator could control.",
 "C18": "A rejection by the compiler, not a behaviour of an execution: nothing to simulate.",
 "C19": "Constants of a type, independent of any input, schedule, fault or history; there is nothing to simulate.",
 "C20": "A static property of types, decided when an expression is compiled; there is no execution to simulate.",
}
json.dump({
 "version": 1,
 "setup_cmd": "python3 check.py build",
 "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}",
             "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
             "technique": T + t, "level": "exploration", "level_note": n} for p, (t, n) in C.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in N.items()],
 "notes": "No hooks in /repo: the seams used are the ones the code has (std::streambuf, the clock template parameter, std::locale) plus interposed allocation and memory-access instrumentation added by the compiler (-fsanitize=thread with the simulator's own runtime).",
}, open("MANIFEST.json", "w"), indent=1)
