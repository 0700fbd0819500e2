#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
T = "deterministic simulation with fault injection"
BASE = (" Seeded search, not proof: a quiet run is evidence for the seeds explored. Trusts the simulator's seams "
        "(scheduling, time, sockets, randomness, allocator at the libc boundary; an in-memory RocksDB stand-in with "
        "atomic batches) and the oracle.")
CLAIMED = {
 "C01": "Real state stack driven by generated block-like change sets on simulated threads and store; every root and lookup is compared with an independent recursive Merklisation of a plain map.",
 "C02": "Concurrent readers and writers at random cache sizes (down to one entry) and schedules; every read must be explained by the write intervals recorded in the run.",
 "C03": "Rollbacks, staged-but-dropped change sets and rejected blocks are interleaved with accepted work; afterwards everything observable is compared with a run that never had them.",
 "C04": "Several change sets prepared next to each other, one applied later; state, reads and root compared with the model and with the announced root.",
 "C05": "Read, write and iterator errors injected at random store operations; results must be an error or right, and a retry after discarding must equal the fault-free result.",
 "C06": "The store is killed at a random write operation (before or after it applies) and reopened from the durable image; the trie must hold exactly the state before or after the interrupted commit.",
 "C07": "Concurrent clients on the real header, extrinsic, state-root and raw stores with random cache sizes, latencies, errors and schedules; each key's recorded history must be linearizable as a register, including a final cold read.",
 "C10": "Two or three nodes with different schedules, worker counts, cache sizes and disk latencies import one generated chain through the real importer; decisions, state and roots must be equal on every node, and no schedule may panic or hang.",
 "C11": "Generated valid blocks are broken in one of about 70 ways (and re-signed where the break is not the signature) and offered to nodes between valid ones; the reference model says which are invalid, and none may be accepted while every valid one must be.",
 "C12": "The shipped authoring role is driven for every slot and dev account, in and out of turn, late in the slot, twice, with disk errors and with a block arriving meanwhile; the block must be byte for byte the only valid one by the reference model, be servable, and be accepted by the other nodes with the same root.",
 "C13": "Generated chains with skipped slots and epochs, offenders and broken headers; slot, entropy, validator sets, ring root, seal keys and markers are compared entry by entry with an independent reference model after every block.",
 "C14": "Chains with real ring-VRF tickets, good and broken submissions; accumulator, seal series and accept/reject decisions compared with the reference model after every block.",
 "C15": "Chains with generated verdicts, culprits and faults, good and broken; judged sets, offenders, cleared reports and blanked keys compared with the reference model after every block.",
 "C16": "Chains with generated guarantees and assurances, good and broken; pending reports, ready queue and accumulated history compared with the reference model after every block.",
 "C17": "Recent history, beefy accumulation log, statistics and authorisation pools compared with the reference model after every block of a generated chain.",
 "C18": "Generated chains in which reports reach services running generated programs (storage, transfers, creation, ejection, solicitation, privileged calls, checkpoints, panics, gas exhaustion, senseless code) on several nodes with different schedules and worker counts; every account, privilege, staging set, authoriser queue, statistic and the accumulation output are compared with a reference model and an independent PVM after every block.",
 "C20": "The real fuzz target serves one to four sessions over a simulated socket: generated chains, pipelined and segmented requests, early second clients, sessions broken at any step; every reply is compared with the reference model, byte for byte of the whole state.",
 "C21": "Sessions with forking: competing valid and invalid children, repetitions, children of staged blocks and blocks on discarded branches in any order; roots, refusals and complete states of the last finalised and every staged block are compared with the reference model.",
 "C22": "Broken sessions (truncations, damaged frames and lengths, unknown or misplaced requests, senseless states, disk errors, clients that vanish) followed by a good one that must be served correctly; the simulated allocator bounds what a few bytes may make the target ask for.",
 "C30": "Whole nodes (network manager, QUIC, importer, scheduler, storage) on a simulated network with loss, duplication, reordering, delay, partitions, crashing and misbehaving peers; on mild weather every block must be everywhere within its slot, on harsh weather within a minute after faults stop. Known finding: forks made by faults longer than a slot are never resolved.",
 "C31": "The same runs: every posterior root any node records is compared across nodes and with the reference model, heads are always fully imported blocks of increasing slots, and the state a node holds at the end is that of its head.",
 "C40": "A node whose turn every slot is runs through stalls (of the node, and of the thread right after it read the clock), clock corrections, disk latency and arbitrary starting instants; its chain must hold exactly one block per slot, each made within its slot.",
}
PURE = {}
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NA = {
 "C90": "pure single-threaded functions of their input: no schedule, clock, I/O, fault or party for a simulation to vary, so this family has nothing to decide here",
 "C91": "a pure interpreter: one program and one input give one execution with no schedule, time, I/O or fault involved, so deterministic simulation has nothing to vary",
 "C92": "a pure function of its input chunks: no concurrency, time or I/O is involved, and loss of chunks is an input, not an event of an execution",
 "C93": "pure cryptographic predicates: no concurrency, time, I/O or party behaviour to simulate; soundness against forgeries cannot be sampled by schedules and faults",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"bash sim/run.sh check {i}",
            "thorough_cmd": f"bash sim/run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T,
            "level": "exploration",
            "level_note": CLAIMED[i] + BASE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its simulated world is not built")})
m = {"version": 1, "setup_cmd": "bash sim/run.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator's seams are libc symbols and a [patch] of the rocksdb crate inside /verif/sim."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
