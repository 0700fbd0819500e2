#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_block::types::extrinsics::guarantees::{GuaranteesXt, GuaranteesXtEntry};
use fr_common::{workloads::work_report::WorkReport, Hash32};
use fr_transition::state::authorizer::transition_auth_pool;

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn the_oldest_matching_authoriser_is_used_up() {
    let (a, b) = (Hash32::new([1; 32]), Hash32::new([2; 32]));
    let mut ss = SimpleStates::default();
    for h in [&a, &b, &a] {
        ss.auth_pool.0[1].shift_push(h.clone());
    }
    let (_dir, sm) = with_state(ss).await;
    let work_report = WorkReport { core_index: 1, authorizer_hash: a.clone(), ..Default::default() };
    let mut xt = GuaranteesXt::default();
    xt.items.try_push(GuaranteesXtEntry { work_report, timeslot_index: 5, credentials: vec![] }).unwrap();
    transition_auth_pool(sm.clone(), &xt, 6).await.unwrap();
    let pool = sm.get_auth_pool().await.unwrap();
    let pool: Vec<_> = pool.0[1].iter().cloned().collect();
    assert_eq!(pool, vec![b, a, Hash32::default()]);
}
