//! The storage stack on the in-memory files.
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use parking_lot::RwLock;
use std::sync::Arc;
use tokio::runtime::Runtime;

pub const DB: &str = "/vfs/db";
pub const LOG: &str = "/vfs/log";

pub fn cfg() -> DiskManagerConfig {
    DiskManagerConfig {
        io_threads: 1,
        cache_size_mb: 0,
        direct_io: false,
        work_stealing_enabled: false,
        prefetch_enabled: false,
        ml_prefetching: false,
        write_buffer_size_mb: 1,
        ..Default::default()
    }
}
pub fn rt() -> Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_time().build().unwrap()
}
pub struct Db {
    pub rt: Runtime,
    pub disk: Arc<AsyncDiskManager>,
    pub bpm: Arc<BufferPoolManager>,
}
pub fn disk(rt: &Runtime, c: DiskManagerConfig) -> Arc<AsyncDiskManager> {
    Arc::new(rt.block_on(AsyncDiskManager::new(DB.into(), LOG.into(), c)).unwrap())
}
pub fn open(pool: usize, c: DiskManagerConfig) -> Db {
    let rt = rt();
    let disk = disk(&rt, c);
    let rep = Arc::new(RwLock::new(LRUKReplacer::new(pool, 2)));
    let bpm = Arc::new(BufferPoolManager::new(pool, disk.clone(), rep).unwrap());
    Db { rt, disk, bpm }
}
