//! Two keys sharing a long prefix next to a third one: removing one of the two collapses a chain of branches.
use fr_common::StateKey;
use fr_state::{manager::StateManager, test_utils::init_db_and_manager};

fn key(a: u8, b: u8) -> StateKey {
    let mut k = [0u8; 31];
    k[0] = a;
    k[1] = b;
    StateKey::new(k)
}
async fn add(sm: &StateManager, k: &StateKey, v: u8) {
    sm.add_raw_state_entry(k, vec![v; 10]).await.unwrap();
    sm.commit_dirty_cache().await.expect("commit");
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn root_does_not_depend_on_history() {
    let dir = tempfile::tempdir().unwrap();
    let (_h1, a): (_, StateManager) = init_db_and_manager(dir.path().join("a"));
    let (_h2, b): (_, StateManager) = init_db_and_manager(dir.path().join("b"));
    // a: with a detour
    for (i, k) in [key(0x80, 0), key(0, 0), key(0, 1)].iter().enumerate() {
        add(&a, k, i as u8).await;
    }
    a.remove_raw_state_entry(&key(0, 1)).await.unwrap();
    a.commit_dirty_cache().await.unwrap();
    add(&a, &key(0, 2), 9).await;
    // b: straight
    for (k, v) in [(key(0x80, 0), 0), (key(0, 0), 1), (key(0, 2), 9)] {
        add(&b, &k, v).await;
    }
    assert_eq!(a.merkle_root().await.unwrap(), b.merkle_root().await.unwrap());
    for (k, v) in [(key(0x80, 0), 0), (key(0, 0), 1), (key(0, 2), 9)] {
        assert_eq!(a.get_raw_state_entry_from_db(&k).await.unwrap(), Some(vec![v; 10]));
    }
}
