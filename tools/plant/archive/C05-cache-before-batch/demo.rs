//! A failed batch write must leave no trace: a database opened twice over a read-only handle is not available here,
//! so the write is made to fail by limiting the file size of this process.
use fr_state::{cache::StateMut, manager::StateManager, test_utils::init_db_and_manager, types::AccountStorageEntry};
use fr_common::{Octets, StateKey};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

fn key(b: u8) -> StateKey {
    StateKey::new([b; 31])
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn failed_commit_leaves_no_trace() {
    let _ = (StateMut::Update, std::any::type_name::<AccountStorageEntry>(), std::any::type_name::<Octets>());
    let dir = tempfile::tempdir().unwrap();
    let (_h, sm): (_, StateManager) = init_db_and_manager(dir.path().join("db"));
    for b in [0x11u8, 0x55, 0x99, 0xdd] {
        sm.add_raw_state_entry(&key(b), vec![b; 20]).await.unwrap();
    }
    sm.commit_dirty_cache().await.unwrap();
    let root = sm.merkle_root().await.unwrap();

    sm.update_raw_state_entry(&key(0x55), vec![7; 25]).await.unwrap();
    sm.remove_raw_state_entry(&key(0x99)).await.unwrap();
    sm.add_raw_state_entry(&key(0xde), vec![9; 10]).await.unwrap();
    let wal = std::fs::read_dir(dir.path().join("db"))
        .unwrap()
        .map(|f| f.unwrap())
        .filter(|f| f.path().extension().is_some_and(|e| e == "log"))
        .map(|f| f.metadata().unwrap().len())
        .max()
        .unwrap();
    unsafe {
        signal(25, 1); // SIGXFSZ ignored: writes past the limit give EFBIG
        assert_eq!(setrlimit(1, &[wal + 60, u64::MAX]), 0); // room for a small batch only
    }
    let res = sm.commit_dirty_cache().await;
    unsafe {
        setrlimit(1, &[u64::MAX, u64::MAX]);
    }
    assert!(res.is_err(), "the write was meant to fail");
    sm.rollback_dirty_cache();
    sm.clear_state_cache();
    assert_eq!(sm.merkle_root().await.unwrap(), root);
    for b in [0x11u8, 0x55, 0x99, 0xdd] {
        let got = sm.get_raw_state_entry_from_db(&key(b)).await;
        assert_eq!(got.expect("readable"), Some(vec![b; 20]), "key {b:x}");
    }
    assert_eq!(sm.get_raw_state_entry_from_db(&key(0xde)).await.expect("readable"), None);
}
