#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
    P.append(d)

p("C01","State root commits to exactly the committed key-value map",
  "After any sequence of committed changes (insertions, replacements, deletions, in any order and grouping), the reported state root equals the Gray Paper Merklisation of exactly the current key-value map, and looking a key up through the trie yields its committed value or proves its absence. The root depends only on the map: not on the history that led to it, on the order in which a commit's entries are applied, on cache sizes or on thread scheduling.",
  ["histories","schedules","configurations"],
  "every sequence of commits over every key set (including keys sharing long prefixes), every cache capacity, every interleaving of the trie actor, blocking storage threads and readers",
  "Existing tests insert at most a few fixed keys in a fixed order with caches too large ever to miss; dirty entries are committed in random hash-set order, so an order- or history-dependent root shows up only on some runs of some histories.",
  ["state/src/merkle_interface/manager.rs","state/src/merkle_interface/actor.rs","state/state-merkle-v2/src/merkle_db.rs","state/state-merkle-v2/src/merkle_change_set.rs","state/state-merkle-v2/src/utils.rs","state/state-merkle-v2/src/types.rs"],
  [("trie update from dirty entries","state/src/merkle_interface/manager.rs::insert_dirty_cache_entry_as_leaf_writes"),("branch re-hash","state/src/merkle_interface/manager.rs::prepare_db_write_set"),("longest-prefix search","state/state-merkle-v2/src/merkle_db.rs::find_longest_prefix")],
  [("root","current state root, kept in memory","state/state-merkle-v2/src/merkle_db.rs"),("nodes / leaf_paths","trie nodes by path, leaf path by key","state/state-merkle-v2/src/merkle_db.rs")],
  ["StateManager::merkle_root","StateManager::retrieve_state_encoded"])

p("C02","State reads return the latest write at any cache size and schedule",
  "A read of a state entry returns the most recent value written to it in the block being processed, or if there is none the last committed value, or absence if it was removed or never existed; a committed-state read ignores uncommitted writes. No cache eviction, concurrent reader or background write may lose, duplicate, resurrect or tear a write.",
  ["histories","schedules","configurations"],
  "every history of reads, writes, removals, commits and rollbacks by concurrent tasks touching disjoint and shared keys, every cache capacity from zero upwards, every interleaving",
  "The only cache test fills a cache of three entries from one thread; misses, evictions of clean entries next to pinned dirty ones, and readers filling the cache while a writer stages a value are never combined.",
  ["state/src/cache.rs","state/src/manager.rs","state/src/state_db.rs","db/src/core/cached_db.rs"],
  [("read path with cache fill","state/src/manager.rs::get_state_entry_internal"),("in-place mutation","state/src/cache.rs::with_mut_entry"),("dirty-entry collection","state/src/cache.rs::collect_dirty")],
  [("cache entry","current value, clean snapshot and dirty mark per key","state/src/cache.rs"),("dirty key set","keys whose entry must be committed","state/src/cache.rs")],
  ["StateManager typed and raw getters","state root after commit"])

p("C03","Rejected or rolled-back changes leave no trace",
  "When staged changes are rolled back, or a block is rejected at any stage of its processing, every later read, state root, stored block, chain head and validation decision is exactly what it would have been had the attempt never happened. In particular a valid block imported after any number of rejected ones gives the same result as on a node that never saw them.",
  ["histories","schedules","inputs"],
  "every mix of rejected and accepted blocks (each rejection reason and stage), every rollback point in a history of changes, every schedule of the concurrently running sub-transitions when the failing one returns",
  "Tests import one bad block on a fresh state and look only at the error; leaks through caches, in-memory ring contexts, chain-head pointers or still-running sub-tasks need a later block on the same node.",
  ["state/src/cache.rs","state/src/manager.rs","node/src/roles/importer.rs","node/src/roles/executor.rs","transition/src/ring_cache.rs","fuzz/src/fuzz_target.rs"],
  [("rollback","state/src/cache.rs::rollback_dirty_cache"),("import with validation in several stages","node/src/roles/importer.rs::import_block"),("concurrent sub-transitions","node/src/roles/executor.rs::run_state_transition")],
  [("ring cache","verifier and ring root for current and next epoch","state/src/manager.rs"),("best header","chain head","block/src/header_db.rs")],
  ["state root and full state after later valid blocks","best header"])

p("C04","Staged commits are isolated and equal direct commits",
  "Preparing a change set without applying it alters nothing observable, whatever other change sets are prepared next to it. Applying a prepared change set later gives exactly the state, reads and root that committing it directly would have given, and the root announced when it was prepared.",
  ["histories","schedules"],
  "every history of prepare / discard / apply / direct-commit steps on sibling change sets, every cache size and interleaving",
  "One fuzz-target test stages two fixed siblings; leftover trie changes from a discarded preparation, stale cache entries after a deferred apply, and evictions between the two need longer mixed histories.",
  ["state/src/manager.rs","state/src/cache.rs","state/src/merkle_interface/manager.rs","state/src/merkle_interface/actor.rs"],
  [("prepare","state/src/manager.rs::prepare_dirty_cache_commit"),("apply","state/src/manager.rs::apply_dirty_cache_commit"),("deferred cache sync","state/src/cache.rs::apply_deferred_commit")],
  [("change set","trie changes under construction","state/state-merkle-v2/src/merkle_change_set.rs")],
  ["StateManager::merkle_root","state reads"])

p("C05","Storage failures surface as errors, never as wrong data",
  "If reading or writing the underlying database fails, the operation that needed it reports an error or still gives the correct result: it never returns absence, a stale value or a wrong root, and never panics or hangs. Once the failure has passed, discarding the failed attempt and retrying it gives exactly the result of a run without failures.",
  ["fault_sequences","histories","schedules"],
  "every placement of read, write, batch and iterator errors in every history of reads, commits, staged commits and block-store operations",
  "The tests use a real local RocksDB that never fails, so no error path of storage code is ever executed.",
  ["db/src/core/core_db.rs","db/src/core/cached_db.rs","state/state-merkle-v2/src/merkle_db.rs","state/src/merkle_interface/manager.rs","state/src/manager.rs","block/src/header_db.rs"],
  [("point reads","db/src/core/core_db.rs::get_entry"),("batch commit with cache sync","db/src/core/cached_db.rs::commit_write_batch_and_sync_cache"),("prefix iteration","state/state-merkle-v2/src/merkle_db.rs::find_longest_prefix"),("commit pipeline","state/src/merkle_interface/manager.rs::commit_dirty_state_cache_to_merkle_db_and_produce_state_db_write_set")],
  None,["results of every state and block store operation"])

p("C06","A crash never corrupts committed state",
  "If the process stops at any instant, reopening the database yields for the state trie either everything or nothing of the commit that was in progress on top of every commit acknowledged before it: each key's lookup gives the value from one and the same of those two states. Stored headers, extrinsics and post-state roots acknowledged before the crash are still there.",
  ["crash_points","histories"],
  "every crash point between two storage operations of every commit, staged apply and block import, with or without loss of a suffix of writes not yet acknowledged",
  "No test stops the process between two writes or reopens a database after an interrupted commit.",
  ["state/src/manager.rs","state/src/merkle_interface/manager.rs","state/state-merkle-v2/src/merkle_db.rs","db/src/core/cached_db.rs","node/src/roles/importer.rs"],
  [("multi-batch commit","state/src/manager.rs::commit_dirty_cache"),("trie batches","state/state-merkle-v2/src/merkle_db.rs::commit_write_batch"),("block stores","block/src/header_db.rs")],
  None,["lookups through a reopened database"])

p("C07","Cached stores are coherent under concurrency",
  "Every key of the block-header, extrinsic, post-state-root and state stores behaves as one atomic register: concurrent reads, writes and deletions of the same key have results explainable by some order respecting real time, whether answered from cache or from disk, at any cache size. A store that has acknowledged a write never again returns the older value. The same holds of the recorded head of the chain, and the set of recent ancestors contains every header whose insertion was acknowledged, as far as it keeps that many, and no other.",
  ["schedules","histories","configurations"],
  "every interleaving of concurrent readers, writers and deleters on shared keys, every cache capacity",
  "Tests access the stores from one task at a time, so a cache fill racing with a write never happens.",
  ["db/src/core/cached_db.rs","block/src/header_db.rs","block/src/xt_db.rs","block/src/post_state_root_db.rs"],
  [("cache fill on miss","db/src/core/cached_db.rs::get_entry"),("write through","db/src/core/cached_db.rs::put_entry")],
  [("cache","most recent value per key","db/src/core/cached_db.rs")],["results of get/put/delete"])

p("C10","Importing a chain gives one result on every node and schedule",
  "Importing the same sequence of blocks on the same initial state gives, on every node, the same accept/reject decision for every block and the same posterior state and state root, whatever the thread schedule, worker count, cache capacity, storage latency and unrelated work in between. Imports terminate: no schedule deadlocks or panics.",
  ["schedules","inputs","configurations"],
  "every chain of blocks with every kind of extrinsic, every interleaving of the concurrently run sub-transitions, signature checks and background cache updates",
  "A test executes one schedule of many; sub-transitions of one block run as concurrent tasks sharing the state cache, so an ordering bug shows only under particular interleavings.",
  ["node/src/roles/executor.rs","node/src/roles/importer.rs","transition/src/state/","transition/src/ring_cache.rs","extrinsics/src/validation/","pvm/pvm-invocation/src/accumulate/"],
  [("concurrent sub-transitions","node/src/roles/executor.rs::run_state_transition"),("parallel accumulation","pvm/pvm-invocation/src/accumulate/pipeline.rs"),("background ring context update","transition/src/ring_cache.rs::schedule_ring_cache_update")],
  None,["post-state root and all state entries per block"])

p("C11","Only valid blocks are accepted",
  "A block is accepted only if its parent is the block it extends, its slot is later than the parent's, its prior state root and extrinsic hash are right, its author is the one the slot's seal key designates and signed it, its entropy signature verifies, its epoch/ticket/offender markers are exactly those its contents imply, and each of its extrinsics is valid and correctly ordered. A block broken in any one of these ways is rejected without effect, at any point of a chain's history.",
  ["inputs","histories","schedules"],
  "every single-aspect corruption of a valid block, at every position of every chain (mid-epoch, epoch boundary, after skipped epochs, fallback or ticket mode)",
  "Unit tests corrupt a handful of fields of one fixed block; the checks run concurrently with state transition, in several places, and depend on the chain's history.",
  ["node/src/roles/importer.rs","extrinsics/src/validation/","block/src/types/block.rs","transition/src/state/"],
  [("header validation","node/src/roles/importer.rs::validate_block_header_prior_stf and following"),("extrinsic validation","extrinsics/src/validation/")],
  None,["import result"])

p("C12","Authored blocks are accepted by every node in the same state",
  "A block produced by the validator whose turn it is, from whatever extrinsics are on offer, is accepted by every other node holding the same state, and both reach the same posterior state root. A validator whose turn it is not produces nothing, and never two different blocks for one slot.",
  ["histories","schedules","configurations"],
  "every slot of every chain (epoch boundaries, skipped slots, fallback and ticket sealing), every author, every schedule",
  "Author tests use one genesis state and slot; agreement at epoch boundaries or under concurrency is not exercised.",
  ["node/src/roles/author.rs","node/src/roles/importer.rs","node/src/roles/executor.rs","node/src/scheduler/chain_extension.rs","transition/src/state_prediction/"],
  [("authoring","node/src/roles/author.rs"),("predicted sealers","transition/src/state_prediction/slot_sealers.rs")],
  None,["BlockAuthor output, import result"])

p("C13","Epochs, entropy, validator sets and seal keys evolve as specified",
  "Along any chain, the time slot, the four entropy values, the staging/pending/active/past validator sets (with offenders blanked), the epoch root, the seal-key series and the epoch and ticket markers equal what the Gray Paper rules compute from the block history, including when blocks skip slots or whole epochs.",
  ["histories","schedules"],
  "every chain: any pattern of skipped slots and epochs, staging-set changes, offences, ticket submissions",
  "Test vectors replay fixed single steps of each sub-transition; long histories mixing skipped epochs, offenders and ring-cache hits are not covered.",
  ["transition/src/state/safrole.rs","transition/src/state/entropy.rs","transition/src/state/validators.rs","transition/src/state/timeslot.rs","state/src/types/safrole.rs","state/src/manager.rs"],
  [("safrole transition","transition/src/state/safrole.rs"),("ring context cache","state/src/manager.rs::get_or_generate_staging_ring_context")],
  [("entropy, safrole, validator sets","per-epoch consensus state","state/src/types/")],["state entries after each block"])

p("C14","The ticket accumulator holds exactly the best valid tickets",
  "Within an epoch the accumulator is the strictly ordered list of the best distinct tickets submitted so far, bounded by the epoch length, and is emptied when an epoch begins; blocks containing a late, duplicate, misordered, useless or badly proven ticket are rejected. If it is full and the submission window closed when an epoch follows directly, that epoch's seal keys are its outside-in arrangement, otherwise the fallback keys.",
  ["histories","inputs","schedules"],
  "every history of ticket submissions by any validators over several epochs, in any grouping into blocks, with skipped slots",
  "Fixed vectors cover single blocks; the verifier comes from a cache refreshed by a background task, so validity depends on history and schedule.",
  ["extrinsics/src/validation/tickets.rs","transition/src/state/safrole.rs","state/src/types/safrole.rs","state/src/manager.rs"],
  [("ticket validation","extrinsics/src/validation/tickets.rs"),("accumulator update","transition/src/state/safrole.rs")],
  [("ticket accumulator","best tickets so far","state/src/types/safrole.rs")],["safrole state after each block"])

p("C15","Disputes are final and offenders lose their roles",
  "Each report is judged at most once and stays in the good, bad or wonky set its verdict put it in; every validator shown to have broken the rules is recorded as an offender exactly once. Reports judged bad or wonky stop being pending at once, and offenders' keys are blanked in every validator set that is formed afterwards.",
  ["histories","schedules"],
  "every history of verdicts, culprits and faults mixed with pending reports and epoch changes, and every schedule",
  "Fixed vectors cover single blocks; interaction with the concurrent report transition, ring-cache recomputation and later epochs is not covered.",
  ["transition/src/state/disputes.rs","transition/src/state/reports.rs","extrinsics/src/validation/disputes.rs","state/src/manager.rs"],
  [("dispute transition","transition/src/state/disputes.rs"),("ring cache nullification","state/src/manager.rs::nullify_offenders_from_staging_ring_cache")],
  [("disputes state","good, bad, wonky sets and offenders","state/src/types/disputes.rs")],["state entries after each block"])

p("C16","Each work report becomes available at most once and is never lost",
  "A guaranteed report occupies its core until a supermajority of active validators has attested its data, it times out, or it is judged against; it then leaves the core, and a report that became available is accumulated exactly once, after all its prerequisites. No core ever holds two reports, and no report already accumulated or pending is accepted again.",
  ["histories","schedules"],
  "every history of guarantees, assurances, timeouts, disputes and dependencies among reports over several epochs",
  "Vectors test one transition at a time; the pipeline guarantee - assurance - queue - accumulation over many blocks is not tested.",
  ["transition/src/state/reports.rs","transition/src/state/accumulate.rs","transition/src/state/services.rs","extrinsics/src/validation/guarantees.rs","extrinsics/src/validation/assurances.rs","pvm/pvm-invocation/src/accumulate/pipeline.rs"],
  [("report transitions","transition/src/state/reports.rs"),("accumulation queue","pvm/pvm-invocation/src/accumulate/pipeline.rs")],
  [("pending reports, accumulate queue, accumulate history","report lifecycle","state/src/types/")],["state entries after each block"])

p("C17","History, statistics and authorisations match the chain",
  "Along any chain the recent-block history (hashes, reported packages, prior state roots, accumulation-log commitment), the per-validator, per-core and per-service activity statistics and the authorisation pools are exactly what the imported blocks imply.",
  ["histories","schedules"],
  "every chain of blocks with any mix of extrinsics, any schedule",
  "These entries are updated by tasks running concurrently with the ones they read from; tests only check single transitions in isolation.",
  ["transition/src/state/history.rs","transition/src/state/statistics.rs","transition/src/state/authorizer.rs","node/src/roles/executor.rs"],
  [("history","transition/src/state/history.rs"),("statistics","transition/src/state/statistics.rs"),("auth pools","transition/src/state/authorizer.rs")],
  None,["state entries after each block"])

p("C18","Parallel service accumulation is sequentially consistent",
  "Accumulating several services in parallel gives, on every schedule, the result the specified order gives: each service sees the state from before the round plus its own changes, changes and transfers are integrated in the specified order, total balance is conserved apart from what the rules create or burn, and preimages are integrated only where still solicited. What a service does through host calls has the specified effect; one that fails or runs out of gas loses only its changes since its last checkpoint, and no service program, however senseless, fails the block, ends the node or makes two nodes disagree.",
  ["schedules","programs","inputs"],
  "every set of services with arbitrary programs (writes, transfers, service creation, ejection, solicit/forget, privileged calls), every interleaving of their executions",
  "Services run as concurrent tasks; tests execute one service or one schedule.",
  ["pvm/pvm-invocation/src/accumulate/pipeline.rs","pvm/pvm-invocation/src/accumulate/","pvm/pvm-host/src/","pvm/pvm-interface/src/","transition/src/state/services.rs"],
  [("parallel accumulation","pvm/pvm-invocation/src/accumulate/pipeline.rs"),("partial state union","pvm/pvm-host/src/context/partial_state.rs"),("preimage integration","transition/src/state/services.rs")],
  None,["service entries in the state after each block"])

p("C20","Fuzz-protocol sessions answer each request exactly once, correctly",
  "Within a session the target answers every well-formed request, in order, with exactly one reply of the right kind: its identity for the handshake, the genesis root for initialisation, the posterior root or an error for a block, and the exact state after the named block for a state query; requests that are not allowed at that point end the session. This holds however the byte stream is split or delayed, and every session starts from a clean slate whatever happened in earlier ones.",
  ["histories","fault_sequences","schedules"],
  "every sequence of requests over every number of sessions, every segmentation and delay of the stream, disconnects at any byte",
  "Tests run one well-behaved session over an unbroken socket.",
  ["fuzz/src/fuzz_target.rs","fuzz/src/types.rs","fuzz/src/utils.rs"],
  [("session loop","fuzz/src/fuzz_target.rs"),("framing","fuzz/src/utils.rs")],
  [("latest state keys / staged blocks","chain view of the session","fuzz/src/fuzz_target.rs")],["replies on the socket"])

p("C21","Forks: competing blocks never affect each other or the finalised chain",
  "With forking enabled, any number of competing children of the last finalised block may be submitted in any order; each gets the verdict and root it would get alone. Submitting a block that names one of them as its parent finalises that one and discards its siblings, after which the finalised state is exactly that of the chosen chain, and blocks on discarded branches are refused.",
  ["histories","schedules"],
  "every tree of competing valid and invalid blocks of depth one above the finalised block, submitted in any order with repetition, over chains of any length",
  "One test stages two fixed siblings.",
  ["fuzz/src/fuzz_target.rs","node/src/roles/importer.rs","state/src/manager.rs","state/src/cache.rs","block/src/header_db.rs"],
  [("staging and finalisation","fuzz/src/fuzz_target.rs")],
  [("staged blocks","pending siblings with their commit artifacts","fuzz/src/fuzz_target.rs")],["replies on the socket"])

p("C22","Malformed or interrupted input never takes the target down",
  "Whatever bytes a client sends, wherever it cuts the connection, and whichever block makes processing fail or panic, the target stays able to serve the next session correctly, ends a session or answers every complete request, and never asks for memory out of proportion to the bytes it received.",
  ["fault_sequences","inputs"],
  "every corruption, truncation, oversized length, and disconnect point of a session's byte stream, followed by any valid session",
  "Tests send only well-formed messages.",
  ["fuzz/src/fuzz_target.rs","fuzz/src/utils.rs","fuzz/src/types.rs"],
  [("message reader","fuzz/src/utils.rs"),("session supervision","fuzz/src/fuzz_target.rs")],None,["the next session's replies"])

p("C30","Announced blocks reach and are imported by every connected node",
  "A block announced by its author is fetched and imported by every node connected to it, over any segmentation, delay, loss, duplication and reordering of packets; once network faults stop, all connected validators hold the same head within a bounded time. One slow, failing, departing or misbehaving peer does not stop the others from being served, and nothing a peer sends or asks for makes a node panic.",
  ["fault_sequences","schedules","histories"],
  "every pattern of packet loss, delay, reordering, duplication, partition and heal; every interleaving of streams; any peer failing at any point",
  "The end-to-end test runs one block on an ideal loopback with generous sleeps.",
  ["network/src/manager.rs","network/src/streams/","network/src/peers.rs","node/src/scheduler/","node/src/roles/importer.rs"],
  [("announcements","network/src/streams/up_streams.rs"),("block requests","network/src/streams/ce_streams/"),("announcement to peers","network/src/manager.rs")],
  [("peers","connected peers and their streams","network/src/peers.rs")],["best header of every node"])

p("C31","Nodes never disagree about an imported block",
  "Two nodes that imported the same block hold the same posterior state root for it, a node's chain head always is a block it has fully imported, and its head's slot never decreases, under any network and scheduling faults.",
  ["fault_sequences","schedules"],
  "every fault pattern and interleaving of authoring, importing and announcing on several nodes",
  "Only one schedule on an ideal network is tested.",
  ["node/src/roles/","node/src/scheduler/","block/src/header_db.rs","storage/src/node_storage.rs"],
  [("import loop","node/src/roles/importer.rs::run_block_importer"),("authoring","node/src/scheduler/chain_extension.rs")],None,["per-node stores"])

p("C40","Every time slot is signalled exactly once, in order",
  "While a node runs and its clock advances normally, its scheduler acts on each time slot exactly once, in increasing order and within that slot, and never stops, whatever the scheduling delays and clock corrections shorter than a slot: a validator whose turn every slot is has exactly one block for each of them.",
  ["schedules","fault_sequences"],
  "every starting instant (including exact slot boundaries), every pattern of scheduling delay and clock offset",
  "Depends on the wall clock at start and timer jitter; no test runs it across boundaries.",
  ["clock/src/lib.rs","node/src/scheduler/timeslot_scheduler.rs"],
  [("slot timer","node/src/scheduler/timeslot_scheduler.rs")],None,["the node's chain: its blocks' slots and when they appear"])

p("C90","Codec round-trips and rejects non-canonical input",
  "Decoding an encoded value gives the value back, and decoding arbitrary bytes either fails or gives a value that encodes to the bytes consumed.",
  ["inputs"],"every value of every encodable type and every byte string",
  "A sample of values is tested.",["codec/"],[("codec","codec/fr-codec/src/lib.rs")])
p("C91","The virtual machine follows the instruction set specification",
  "For every program, input, gas limit and memory layout, execution gives the registers, memory, gas and exit reason the Gray Paper specifies.",
  ["programs","inputs"],"every program and initial state",
  "Vectors cover a fixed list of programs.",["pvm/pvm-core/"],[("interpreter","pvm/pvm-core/src/")])
p("C92","Erasure coding recovers data from any sufficient set of chunks",
  "Any sufficiently large subset of the chunks of a blob recovers the blob.",
  ["inputs"],"every blob and every subset","Fixed blobs and subsets are tested.",["common/erasure-coding/"],[("erasure codec","common/erasure-coding/src/lib.rs")])
p("C93","Signatures and ring proofs verify exactly when honestly made",
  "A signature, VRF output or ring proof verifies under a key and message exactly if it was produced with the secret key for that message (and, for ring proofs, that ring).",
  ["inputs"],"every key, ring and message","Samples only.",["crypto/"],[("vrf","crypto/src/vrf/")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P),"properties")
