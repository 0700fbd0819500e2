use fr_config::StorageConfig;
use fr_crypto::types::Ed25519PubKey;
use fr_network::{endpoint::QuicEndpoint, manager::NetworkManager, peers::{AllValidatorPeers, ValidatorPeer}, streams::stream_kinds::UpStreamKind};
use fr_storage::node_storage::NodeStorage;
use std::{net::{Ipv6Addr, SocketAddr, SocketAddrV6}, sync::Arc, time::Duration};

fn v6(a: SocketAddr) -> SocketAddrV6 {
    match a {
        SocketAddr::V6(a) => a,
        _ => panic!(),
    }
}

#[tokio::test]
async fn a_reconnected_peer_is_announced_blocks() {
    let dir = tempfile::tempdir().unwrap();
    let storage = Arc::new(NodeStorage::new(StorageConfig::from_path(dir.path().join("db"))).unwrap());
    let local = || QuicEndpoint::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0));
    let (a, b) = (local(), local());
    let (addr_a, addr_b) = (v6(a.local_addr().unwrap()), v6(b.local_addr().unwrap()));
    let key = Ed25519PubKey::default();
    let peers = Arc::new(AllValidatorPeers::default());
    peers.insert(addr_b, ValidatorPeer::new(key.clone(), addr_b, None));
    let (peers2, storage2) = (peers.clone(), storage.clone());
    tokio::spawn(async move {
        while let Some(incoming) = a.accept().await {
            let Ok(conn) = incoming.await else { continue };
            let (peers, storage) = (peers2.clone(), storage2.clone());
            let (tx, _rx) = tokio::sync::mpsc::channel(10);
            tokio::spawn(async move {
                let _ = NetworkManager::accept_connection(conn, tx, peers, storage).await;
            });
        }
    });
    for _ in 0..2 {
        let conn = b.connect(addr_a, &key).await.unwrap();
        let (mut tx, mut rx) = conn.open_bi().await.unwrap();
        tx.write_all(&[UpStreamKind::BlockAnnouncement as u8]).await.unwrap();
        let announced = async {
            loop {
                // whatever handle there is for the peer
                let handle = peers.get(&addr_b).and_then(|p| {
                    p.conn.as_ref().and_then(|c| c.up_stream_handles.get(&UpStreamKind::BlockAnnouncement).map(|h| h.clone()))
                });
                if let Some(h) = handle {
                    let _ = h.send_block_announcement(vec![1, 2, 3]);
                }
                let mut buf = [0u8; 7];
                if tokio::time::timeout(Duration::from_millis(200), rx.read_exact(&mut buf)).await.is_ok_and(|r| r.is_ok()) {
                    return;
                }
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
        };
        assert!(tokio::time::timeout(Duration::from_secs(10), announced).await.is_ok());
        conn.close(0u32.into(), b"bye");
        tokio::time::sleep(Duration::from_millis(500)).await;
    }
}
