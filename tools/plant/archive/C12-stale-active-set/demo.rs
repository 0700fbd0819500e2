#![allow(unused_imports)]
use std::sync::Arc;
use fr_state::{cache::StateMut, error::StateManagerError, manager::StateManager, state_utils::{add_all_simple_state_entries, SimpleStates}, test_utils::init_db_and_manager, types::*};

#[allow(dead_code)]
async fn with_state(ss: SimpleStates) -> (tempfile::TempDir, Arc<StateManager>) {
    let dir = tempfile::tempdir().unwrap();
    let (_headers, sm) = init_db_and_manager(dir.path().join("db"));
    let sm = Arc::new(sm);
    add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
    sm.commit_dirty_cache().await.unwrap();
    (dir, sm)
}
use fr_crypto::types::*;
use fr_common::ByteArray;
use fr_transition::state_prediction::slot_sealers::predict_post_slot_sealer;

fn keys(n: u8, of: &ValidatorKeySet) -> ValidatorKeySet {
    let mut out = of.clone();
    for (i, k) in out.iter_mut().enumerate() {
        k.bandersnatch = BandersnatchPubKey(ByteArray::new([n + i as u8; 32]));
    }
    out
}

#[tokio::test]
async fn the_seal_keys_of_a_new_epoch_come_from_its_own_validators() {
    let mut ss = SimpleStates::default();
    ss.active_set.0 = keys(1, &ss.active_set.0);
    ss.safrole.pending_set = keys(101, &ss.active_set.0);
    let e = fr_common::EPOCH_LENGTH as u32;
    ss.timeslot = Timeslot::new(5 * e - 1);
    let (_dir, sm) = with_state(ss).await;
    match predict_post_slot_sealer(sm, 5 * e).await.unwrap() {
        SlotSealer::BandersnatchPubKeys(key) => assert!(key.0 .0[0] > 100),
        _ => panic!("fallback mode expected"),
    }
}
