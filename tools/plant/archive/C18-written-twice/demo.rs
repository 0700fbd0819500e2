use std::sync::Arc;
use fr_common::{Octets, ServiceId};
use fr_pvm_host::context::partial_state::{AccountsSandboxMap, SandboxEntryAccessor, SandboxEntryStatus};
use fr_state::{manager::StateManager, test_utils::init_db_and_manager, types::{AccountMetadata, AccountStorageEntry, AccountStorageEntryExt}};

fn entry(n: u8) -> AccountStorageEntryExt {
    AccountStorageEntryExt { key_length: 1, entry: AccountStorageEntry { value: Octets::from_vec(vec![n; 4]) } }
}

#[tokio::test(flavor = "multi_thread", worker_threads = 2)]
async fn a_new_entry_stays_new_however_often_it_is_written() {
    const S: ServiceId = 7;
    let dir = std::env::temp_dir().join(format!("zz_demo_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (_headers, sm) = init_db_and_manager(dir.join("db"));
    let sm: Arc<StateManager> = Arc::new(sm);
    sm.add_account_metadata(S, AccountMetadata::default()).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    let (k, l) = (Octets::from_vec(vec![1]), Octets::from_vec(vec![2]));
    let mut map = AccountsSandboxMap::<StateManager>::default();
    for n in 0..3 {
        map.insert_account_storage_entry(sm.clone(), S, k.clone(), entry(n)).await.unwrap();
    }
    map.insert_account_storage_entry(sm.clone(), S, l.clone(), entry(9)).await.unwrap();
    map.remove_account_storage_entry(sm.clone(), S, l.clone()).await.unwrap();
    let acc = map.get(&S).unwrap();
    let status = acc.storage.get(&k).unwrap().status().clone();
    let removed = acc.storage.get(&l).map(|e| e.status().clone());
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(status, SandboxEntryStatus::Added);
    assert_eq!(removed, None);
}
