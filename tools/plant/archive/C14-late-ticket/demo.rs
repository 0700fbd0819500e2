#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_block::types::extrinsics::tickets::{TicketsXt, TicketsXtEntry};
use fr_common::EPOCH_LENGTH;
use fr_node::genesis::genesis_simple_state;
use fr_transition::state::safrole::transition_safrole;

async fn refusal(prior: u32, curr: u32) -> String {
    let mut ss = genesis_simple_state();
    ss.timeslot = Timeslot::new(prior);
    let (_dir, sm) = with_state(ss).await;
    sm.with_mut_timeslot(StateMut::Update, |t| -> Result<(), StateManagerError> { t.0 = curr; Ok(()) }).await.unwrap();
    let xt = TicketsXt { items: vec![TicketsXtEntry { entry_index: 0, ticket_proof: Default::default() }] };
    let new_epoch = prior / EPOCH_LENGTH as u32 != curr / EPOCH_LENGTH as u32;
    let res = transition_safrole(sm, &Timeslot::new(prior), &Timeslot::new(curr), new_epoch, &xt).await;
    format!("{:?}", res.err().unwrap())
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn the_contest_closes_by_the_slot_of_the_block() {
    let e = EPOCH_LENGTH as u32;
    assert!(refusal(2 * e + e - 2, 2 * e + e - 1).await.contains("TicketSubmissionClosed"));
    assert!(refusal(2 * e + 1, 2 * e + e - 1).await.contains("TicketSubmissionClosed"));
    assert!(!refusal(2 * e + 1, 2 * e + 2).await.contains("TicketSubmissionClosed"));
    assert!(!refusal(2 * e + e - 1, 3 * e).await.contains("TicketSubmissionClosed"));
}
