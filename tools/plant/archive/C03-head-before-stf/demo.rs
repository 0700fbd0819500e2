
mod common_demo {
    use fr_config::StorageConfig;
    use fr_node::genesis::{genesis_simple_state, load_genesis_block};
    use fr_state::state_utils::add_all_simple_state_entries;
    use fr_storage::node_storage::NodeStorage;
    use std::sync::Arc;

    pub async fn genesis(dir: &std::path::Path) -> Arc<NodeStorage> {
        let header = load_genesis_block().header;
        let hash = header.hash().unwrap();
        let storage = Arc::new(NodeStorage::new(StorageConfig::from_path(dir.join("db"))).unwrap());
        storage.header_db().set_best_header(header);
        let sm = storage.state_manager();
        add_all_simple_state_entries(&sm, Some(genesis_simple_state())).await.unwrap();
        sm.commit_dirty_cache().await.unwrap();
        let root = sm.merkle_root().await.unwrap();
        storage.post_state_root_db().set_post_state_root(&hash, root).await.unwrap();
        storage
    }
}

use fr_block::types::block::BlockSeal;
use fr_node::roles::{author::BlockAuthor, importer::{BlockCommitMode, BlockImporter}};

#[tokio::test]
async fn a_refused_block_does_not_become_the_head() {
    let (d1, d2) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    let (s1, s2) = (common_demo::genesis(d1.path()).await, common_demo::genesis(d2.path()).await);
    let (block, _) = BlockAuthor::new_for_fallback_test().unwrap().author_block_for_test(s1).await.unwrap();
    let mut bad = block.clone();
    bad.header.set_block_seal(BlockSeal::default());
    assert!(BlockImporter::import_block(s2.clone(), bad, false, BlockCommitMode::Immediate).await.is_err());
    s2.state_manager().rollback_dirty_cache();
    BlockImporter::import_block(s2, block, false, BlockCommitMode::Immediate).await.unwrap();
}
