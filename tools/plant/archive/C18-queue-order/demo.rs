#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_common::{workloads::work_report::WorkReport, Hash32};
use fr_pvm_invocation::accumulate::utils::collect_accumulatable_reports;

fn report(n: u8) -> WorkReport {
    let mut r = WorkReport::default();
    r.specs.work_package_hash = Hash32::new([n; 32]);
    r
}

#[tokio::test]
async fn queued_reports_are_released_level_by_level() {
    let mut queue = AccumulateQueue::default();
    let dep = |n: u8| -> std::collections::BTreeSet<Hash32> { [Hash32::new([n; 32])].into_iter().collect() };
    let slot = queue.get_circular_mut(3);
    slot.push((report(2), dep(1)));
    slot.push((report(3), dep(2)));
    slot.push((report(4), dep(1)));
    let (all, queued) = collect_accumulatable_reports(vec![report(1)], &queue, &AccumulateHistory::default(), Timeslot::new(7));
    let order: Vec<u8> = all.iter().map(|r| r.specs.work_package_hash.0[0]).collect();
    assert_eq!(order, vec![1, 2, 4, 3]);
    assert!(queued.is_empty());
}
