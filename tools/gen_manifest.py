#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json
T = "deterministic simulation with fault injection: "
N = {
 'C01': ("seeded thread schedules of the real prover, bytes compared with an independent sequential prover", "Seeded search over claims, parameters, pool sizes (1-16) and schedules; every atomic operation, futex wait and yield of prover and rayon is a scheduling point. Not exhaustive; traces up to 2^15 rows."),
 'C02': ("seeded thread schedules of provers and concurrent verifiers", "Seeded search over satisfying witnesses and parameter sets incl. extremes; bounded trace sizes."),
 'C03': ("transport faults between real prover format and real verifier, independent verifier as oracle", "Seeded sequences of bit flips, cuts, extensions, splices; oracle decides whether the damaged bytes are still a valid proof."),
 'C04': ("histories of concurrent sessions over a misrouting, replaying network, independent verifier as oracle", "Seeded search over pairs of claims and parameter sets that differ in one aspect."),
 'C05': ("Byzantine prover in simulation: one deviation per run with a recomputed consistent transcript, independent verifier as oracle", "Seeded search over deviation kinds x positions x claims; bounded sizes."),
 'C06': ("seeded thread schedules incl. stalled workers of the nonce search, sequential least nonce as oracle", "Difficulty up to 15 bits in simulation; pools up to 32 workers."),
 'C07': ("seeded thread schedules of tree building and opening, textbook tree as oracle", "Trees up to 2^12 leaves, all container kinds, every layer-skipping setting reachable through the API."),
 'C08': ("transport faults on openings delivered to real verifiers, committed vector as oracle", "Seeded fault sequences; bounded tree sizes."),
 'C09': ("seeded thread schedules of concurrent transforms, definition as oracle", "Lengths up to 2^14 (quick) / 2^16 (thorough)."),
 'C10': ("seeded thread schedules and allocation failures, sequential accounting model as oracle over the recorded history", "Up to 6 threads; sequentially consistent interleavings of the counters' atomic operations."),
 'C11': ("operation histories with injected panics and mapping failures, model vector with drop accounting as oracle", "Single-threaded histories; capacities up to a few hundred elements plus overflow edges."),
 'C12': ("mapping, allocation, thread-creation, log-sink and task failures at drawn points of the prover under seeded schedules", "Fault points drawn over all counted operations of the run; refused heap allocations may end the process (Rust aborts)."),
 'C13': ("storage damage between trace construction and proving under seeded schedules, independent constraint check as oracle", "Seeded corruptions of cells, rows, columns and public inputs."),
 'C14': ("file-system faults and crashes at every operation index of the generator, fault-free output as oracle", "Every single fault at every operation is visited per drawn system, plus drawn pairs; crash keeps what reached the file."),
 'C15': ("seeded thread schedules from first table use plus transport faults and attacker-chosen packets, independent curve implementation as oracle", "Seeded search over keys, digests and packet faults."),
 'C16': ("seeded thread schedules of mixed sessions on shared, separate and nested pools, isolated results as oracle", "2-7 sessions, up to 16 global workers."),
 'C17': ("export in simulated processes with varying hash seeds, independent parser of the proof as oracle", "Seeded search over valid proofs; every exported item compared."),
 'C20': ("component trees traced into a faulty polynomial store, then checked, proved and verified under seeded schedules, part-by-part judgement as oracle", "Trees of depth up to 4, tables up to 64 rows x 10 columns; store faults lose, tear, misdirect or repeat writes."),
 'C21': ("seeded thread schedules of chunk-parallel evaluation of randomly rewritten constraints, direct evaluation as oracle", "Domains up to 2^18 points (several chunks); rewriting rules are the harness's own list."),
 'C22': ("storage damage to traces followed by concurrent checking requests, row-by-row evaluation as oracle", "Traces up to 2^9 rows; constraints in the one-fraction form the checker documents; concurrency plays a minor part."),
 'C19': ("transport faults between a sender and a receiver of encoded values, independent decoder of each format as oracle", "Seeded fault sequences over text, binary, SCALE and decimal encodings; concurrency plays no part."),
 'C23': ("threads draw values from a simulated random generator that sticks, repeats, loses bits, fails and recovers; range, canonical form, repeatability, progress and distribution as oracle", "Seeded requests and fault sequences; distribution judged on ranges small enough to count."),
 'C24': ("generation under simulated threads, then relayed calls with failures on a simulated chain that executes the generated assembly; native verification rules as oracle", "Traces up to 64 rows, claims the generator supports; the wrapper around the assembly is read, not executed, here (C25 executes it)."),
 'C25': ("cheating provers, faulty relayers and failing calls against the verifier contracts executed on a simulated chain; reference verifier as oracle", "Blowup 16, traces up to 64 rows, FRI steps up to 3; gas, ABI encoding and the compiler are not modelled."),
}
NA = {
 'C18': "pure functions of their operands: no thread, clock, I/O, randomness, storage or second party for a schedule or fault to act on; a seeded operand search would be property-based testing, not simulation. (Their use inside proofs, commitments and signatures is compared with independent implementations in C01, C09 and C15.)",
}
ids = sorted(N)
m = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"bash /verif/run.sh {i} quick",
   "thorough_cmd": f"bash /verif/run.sh {i} thorough",
   "technique": T + N[i][0],
   "level": "exploration",
   "level_note": N[i][1],
 } for i in ids],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in N],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write("\n")
