
mod common_demo {
    use fr_config::StorageConfig;
    use fr_node::genesis::{genesis_simple_state, load_genesis_block};
    use fr_state::state_utils::add_all_simple_state_entries;
    use fr_storage::node_storage::NodeStorage;
    use std::sync::Arc;

    pub async fn genesis(dir: &std::path::Path) -> Arc<NodeStorage> {
        let header = load_genesis_block().header;
        let hash = header.hash().unwrap();
        let storage = Arc::new(NodeStorage::new(StorageConfig::from_path(dir.join("db"))).unwrap());
        storage.header_db().set_best_header(header);
        let sm = storage.state_manager();
        add_all_simple_state_entries(&sm, Some(genesis_simple_state())).await.unwrap();
        sm.commit_dirty_cache().await.unwrap();
        let root = sm.merkle_root().await.unwrap();
        storage.post_state_root_db().set_post_state_root(&hash, root).await.unwrap();
        storage
    }
}

use fr_common::Hash32;
use fr_crypto::types::BandersnatchPubKey;
use fr_common::ByteEncodable;
use fr_node::{
    keystore::load_author_secret_key,
    roles::{
        author::{sign_fallback_block_seal, BlockAuthor},
        importer::{BlockCommitMode, BlockImporter},
    },
};

#[tokio::test]
async fn a_stripped_block_is_refused() {
    let (d1, d2) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    let (s1, s2) = (common_demo::genesis(d1.path()).await, common_demo::genesis(d2.path()).await);
    let (mut block, _) = BlockAuthor::new_for_fallback_test().unwrap().author_block_for_test(s1.clone()).await.unwrap();
    let entropy = s1.state_manager().get_epoch_entropy().await.unwrap();
    let pk = BandersnatchPubKey::from_hex("0xf16e5352840afb47e206b5c89f560f2611835855cf2e6ebad1acc9520a72591d").unwrap();
    let sk = load_author_secret_key(&pk).unwrap();
    block.header.set_extrinsic_hash(Hash32::new([7; 32]));
    let seal = sign_fallback_block_seal(block.header.data.clone(), entropy.third_history(), &sk).unwrap();
    block.header.set_block_seal(seal);
    let res = BlockImporter::import_block(s2, block, false, BlockCommitMode::Immediate).await;
    assert!(res.is_err());
}
