#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_extrinsics::utils::guarantor_rotation::GuarantorAssignment;
use fr_crypto::types::*;
use fr_common::ByteArray;

#[tokio::test]
async fn offenders_of_the_block_lose_their_role_at_once() {
    let mut ss = SimpleStates::default();
    let keys: Vec<ValidatorKey> = ss
        .active_set
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut k = k.clone();
            k.ed25519 = Ed25519PubKey(ByteArray::new([i as u8 + 1; 32]));
            k
        })
        .collect();
    for (i, k) in keys.iter().enumerate() {
        ss.active_set.0[i] = k.clone();
        ss.past_set.0[i] = k.clone();
    }
    ss.timeslot = Timeslot::new(17);
    let (_dir, sm) = with_state(ss).await;
    sm.with_mut_disputes(StateMut::Update, |d| -> Result<(), StateManagerError> {
        d.punish_set = vec![keys[2].ed25519.clone()];
        Ok(())
    })
    .await
    .unwrap();
    let prev = GuarantorAssignment::previous_guarantor_assignments(&sm).await.unwrap();
    let curr = GuarantorAssignment::current_guarantor_assignments(&sm).await.unwrap();
    assert_eq!(prev.validator_keys[2], ValidatorKey::default());
    assert_eq!(curr.validator_keys[2], ValidatorKey::default());
}
