#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_block::types::extrinsics::tickets::TicketsXt;
use fr_common::{ticket::Ticket, Hash32, EPOCH_LENGTH};
use fr_node::genesis::genesis_simple_state;
use fr_transition::state::safrole::transition_safrole;

async fn sealers(prior: u32, curr: u32) -> SlotSealers {
    let mut ss = genesis_simple_state();
    let tickets = (0..EPOCH_LENGTH).map(|i| Ticket { id: Hash32::new([i as u8 + 1; 32]), attempt: 0 }).collect();
    ss.safrole.ticket_accumulator = TicketAccumulator::from_vec(tickets);
    ss.timeslot = Timeslot::new(prior);
    let (_dir, sm) = with_state(ss).await;
    transition_safrole(sm.clone(), &Timeslot::new(prior), &Timeslot::new(curr), true, &TicketsXt::default()).await.unwrap();
    sm.get_safrole().await.unwrap().slot_sealers
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn tickets_win_the_next_epoch_whatever_the_gap() {
    let e = EPOCH_LENGTH as u32;
    assert!(matches!(sealers(3 * e + e - 1, 4 * e).await, SlotSealers::Tickets(_)));
    assert!(matches!(sealers(3 * e + e - 1, 5 * e).await, SlotSealers::BandersnatchPubKeys(_)));
    assert!(matches!(sealers(3 * e + e - 2, 4 * e + e - 1).await, SlotSealers::Tickets(_)));
}
