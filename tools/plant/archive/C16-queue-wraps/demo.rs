#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_common::{workloads::work_report::WorkReport, Hash32, EPOCH_LENGTH};
use fr_transition::state::accumulate::transition_accumulate_queue;

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn reports_expire_in_the_queue_after_an_epoch() {
    for gap in [1u32, 5, EPOCH_LENGTH as u32, EPOCH_LENGTH as u32 + 3] {
        let mut ss = SimpleStates::default();
        for i in 0..EPOCH_LENGTH {
            let mut report = WorkReport::default();
            report.specs.work_package_hash = Hash32::new([i as u8 + 1; 32]);
            ss.accumulate_queue.get_circular_mut(i as isize).push((report, [Hash32::new([99; 32])].into_iter().collect()));
        }
        ss.accumulate_history.add(Default::default());
        let (_dir, sm) = with_state(ss).await;
        transition_accumulate_queue(sm.clone(), &[], Timeslot::new(40), Timeslot::new(40 + gap)).await.unwrap();
        let queue = sm.get_accumulate_queue().await.unwrap();
        let left: usize = (0..EPOCH_LENGTH).map(|i| queue.get_circular(i as isize).len()).sum();
        assert_eq!(left, EPOCH_LENGTH.saturating_sub(gap as usize), "gap {gap}");
    }
}
