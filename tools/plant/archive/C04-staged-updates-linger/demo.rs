//! Preparing a change set must not change what is read.
use fr_common::StateKey;
use fr_state::{manager::StateManager, test_utils::init_db_and_manager};

fn key(b: u8) -> StateKey {
    StateKey::new([b; 31])
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn prepared_changes_stay_invisible() {
    let dir = tempfile::tempdir().unwrap();
    let (_h, sm): (_, StateManager) = init_db_and_manager(dir.path().join("db"));
    for b in [0x11u8, 0x55, 0x99, 0xdd] {
        sm.add_raw_state_entry(&key(b), vec![b; 60]).await.unwrap();
    }
    sm.commit_dirty_cache().await.unwrap();
    sm.update_raw_state_entry(&key(0x55), vec![7; 70]).await.unwrap();
    let staged = sm.prepare_dirty_cache_commit().await.unwrap().unwrap();
    assert_eq!(sm.get_raw_state_entry(&key(0x55)).await.unwrap(), Some(vec![0x55; 60]));
    sm.add_raw_state_entry(&key(0x77), vec![1]).await.unwrap();
    let other = sm.prepare_dirty_cache_commit().await.unwrap().unwrap();
    assert_eq!(other.state_delta_entries().unwrap().len(), 1);
    assert_ne!(staged.state_root(), other.state_root());
}
