//! The simulated systems, and which of them decides which property.
use crate::rec::Spec;
use simrt::Rng;

pub mod chain;
pub mod common;
pub mod state;
pub mod store;

/// (world, weight) pairs whose runs can refute the property.
pub fn for_prop(p: &str) -> Vec<(&'static str, u32)> {
    match p {
        "C03" | "C05" => vec![("state", 1), ("chain", 1)],
        "C06" => vec![("state", 2), ("chain", 1)],
        "C01" | "C02" | "C04" => vec![("state", 1)],
        "C07" => vec![("store", 1)],
        "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => vec![("chain", 1)],
        "C30" | "C31" => vec![("net", 1)],
        "C40" => vec![("slots", 1)],
        "C20" | "C21" | "C22" => vec![("fuzz", 1)],
        _ => vec![],
    }
}
pub fn run(spec: &Spec) {
    match spec.world.as_str() {
        "state" => state::run(spec),
        "store" => store::run(spec),
        "chain" => chain::run(spec),
        "net" => chain::net::run(spec),
        "slots" => chain::slots::run(spec),
        "fuzz" => chain::fuzz::run(spec),
        w => panic!("harness: unknown world {w}"),
    }
}
/// Properties refuted when a run of this world deadlocks, hangs, panics outside a caught context or dies.
pub fn blame(spec: &Spec) -> Vec<&'static str> {
    match spec.world.as_str() {
        "state" => match spec.bias.as_str() {
            "C05" => vec!["C05"],
            "C06" => vec!["C06"],
            "C01" => vec!["C01"],
            "C04" => vec!["C04"],
            "C03" => vec!["C03"],
            _ => vec!["C02"],
        },
        "store" => vec!["C07"],
        "chain" if spec.bias == "C12" => vec!["C12"],
        "chain" if spec.bias == "C05" => vec!["C05"],
        "chain" if spec.bias == "C06" => vec!["C06"],
        "chain" if spec.bias == "C18" => vec!["C18", "C10"],
        "chain" => vec!["C10"],
        "net" => vec!["C30", "C31"],
        "slots" => vec!["C40"],
        "fuzz" if spec.bias == "C21" => vec!["C21", "C20"],
        "fuzz" => vec!["C22", "C20"],
        _ => vec![],
    }
}
/// World-specific scheduler settings.
pub fn tune(spec: &Spec, c: &mut simrt::Config, _r: &mut Rng) {
    if spec.world == "slots" {
        // the world decides about long stalls itself
        c.stall_max_ns = c.stall_max_ns.min(20_000_000);
    }
}

pub fn warm_up() {
    chain::warm_up();
}

pub fn describe(p: &str) -> (Vec<&'static str>, Vec<&'static str>, String) {
    let real_state = vec!["fr-state (StateManager, StateCache, Merkle actor and manager)", "fr-state-merkle-v2", "fr-db", "fr-storage", "mini-moka", "tokio runtime and sync primitives"];
    let stub = vec!["rocksdb (in-memory, atomic batches, injected latency/errors/crash)", "kernel: threads' scheduling, futex, clock, epoll, sockets, randomness (simrt)", "allocator (simrt)"];
    match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => (
            real_state,
            stub,
            "one case = one seed: it fixes cache sizes, worker count, key and value population, the generated edit/read/commit/stage/rollback/fault/crash sequence and every scheduling decision; non-trivial = at least two non-empty commits and at least one forced context switch; distinct = different (interleaving, history) digest".into(),
        ),
        "C07" => (
            vec!["fr-block (BlockHeaderDB, XtDB, PostStateRootDB)", "fr-db (CachedDB, CoreDB)", "fr-storage", "mini-moka", "tokio runtime and sync primitives"],
            stub,
            "one case = one seed: it fixes cache sizes, worker count, clients, keys, the operations of every client, disk latency and errors and every scheduling decision; non-trivial = some key was written at least twice; distinct = different (interleaving, history) digest".into(),
        ),
        "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" => (
            vec![
                "fr-node block importer (run_block_importer loop and import_block) and executor",
                "fr-transition, fr-extrinsics, fr-block, fr-state, fr-state-merkle-v2, fr-db, fr-storage",
                "fr-crypto with ark-vrf, ed25519-consensus (real seals, VRF outputs, ring proofs, signatures)",
                "mini-moka, tokio, rayon",
            ],
            stub,
            "one case = one seed: it fixes node count, worker and rayon threads, cache sizes, the genesis state, every block and broken block, disk latency and every scheduling decision; non-trivial = at least two valid blocks were imported and compared with the reference model; distinct = different (interleaving, history) digest".into(),
        ),
        "C18" => (
            vec![
                "fr-pvm-core, fr-pvm-interface, fr-pvm-invocation, fr-pvm-host (interpreter, host calls, parallel accumulation, integration)",
                "fr-node block importer and executor, fr-transition, fr-extrinsics, fr-block, fr-state, fr-state-merkle-v2, fr-db, fr-storage, fr-crypto",
                "mini-moka, tokio, rayon",
            ],
            stub,
            "one case = one seed: it fixes the services, their balances, storage, preimages and code (a program that interprets the scripts found in its work results and transfers, or an odd or broken one), the scripts of host calls, the privileges, the blocks that make reports available, and every scheduling decision; non-trivial = at least two valid blocks were imported and compared with the reference model; distinct = different (interleaving, history) digest".into(),
        ),
        "C30" | "C31" => (
            vec![
                "fr-network (NetworkManager, QUIC endpoint, UP0 and CE128 streams) with quinn, rustls, ring",
                "fr-node run_node: importer loop, acceptor, initiator, slot scheduler, authoring role; init_node",
                "fr-clock, fr-transition, fr-extrinsics, fr-block, fr-state, fr-state-merkle-v2, fr-db, fr-storage, fr-crypto",
                "mini-moka, tokio, rayon",
            ],
            vec!["network (UDP datagrams lost, duplicated, delayed, reordered, partitioned)", "rocksdb (in-memory)", "kernel: scheduling, futex, clock, epoll, sockets, randomness (simrt)", "allocator (simrt)"],
            "one case = one seed: it fixes 2-6 nodes, their threads, caches and start-up, the weather of every slot, partitions, crashes, a misbehaving peer, the announced blocks and every scheduling decision; non-trivial = at least two blocks reached all nodes; distinct = different (interleaving, history) digest".into(),
        ),
        "C20" | "C21" | "C22" => (
            vec![
                "fr-fuzz (listener and session loop, framing, message codec, simple forks)",
                "fr-node importer and executor, fr-transition, fr-extrinsics, fr-block, fr-state, fr-state-merkle-v2, fr-db, fr-storage",
                "fr-crypto (real seals, VRF outputs, ring proofs, signatures)",
                "tokio (runtime, UnixListener, UnixStream), mini-moka, rayon",
            ],
            vec!["AF_UNIX sockets (segmentation, delay, small buffers, disconnects)", "rocksdb (in-memory)", "kernel: scheduling, futex, clock, epoll, randomness (simrt)", "allocator (simrt)"],
            "one case = one seed: it fixes the sessions and their requests, the genesis and every block of each, segmentation and delays of the stream, where and how a session breaks, worker threads and every scheduling decision; non-trivial = at least two roots were compared; distinct = different (interleaving, history) digest".into(),
        ),
        "C40" => (
            vec!["fr-node run_node: slot scheduler, authoring role, importer loop", "fr-clock", "fr-network", "fr-transition, fr-block, fr-state, fr-db, fr-storage, fr-crypto", "tokio timers"],
            stub,
            "one case = one seed: it fixes the starting instant relative to the slot boundary, stalls of the node and of single threads, clock corrections, disk latency, worker threads and every scheduling decision over up to 26 slots; non-trivial = at least three slots acted on; distinct = different (interleaving, history) digest".into(),
        ),
        _ => (vec![], vec![], String::new()),
    }
}
pub fn assumptions(_p: &str) -> Vec<&'static str> {
    vec![
        "sequentially consistent memory: threads interleave at synchronisation, allocation and I/O points and at basic blocks of the stateful crates, one at a time; weak-memory reorderings are not explored",
        "the RocksDB stand-in applies each write batch atomically and durably for process crashes, as RocksDB with its write-ahead log does",
        "sampling: a clean batch is evidence, not proof",
    ]
}
