use crate::{chk, db, sym, vfs};
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::PageTrait;
crate::harness! {
    smoke_disk => {
        let d = db::open(4, db::cfg());
        let x = sym::u8("x");
        let mut p = vec![7u8; 4096];
        p[100] = x;
        d.rt.block_on(async {
            d.disk.write_page(3, p.clone()).await.unwrap();
            d.disk.flush().await.unwrap();
        });
        let q = d.rt.block_on(d.disk.read_page(3)).unwrap();
        chk!(q[100] == x, "read back");
        chk!(vfs::file(db::DB, |f| f.syncs) > 0, "synced");
        sym::cover("done");
        sym::stop();
    }
    smoke_bpm => {
        let d = db::open(4, db::cfg());
        let g = d.bpm.new_page::<TablePage>().unwrap();
        let id = g.get_page_id();
        drop(g);
        let g = d.bpm.fetch_page::<TablePage>(id).unwrap();
        chk!(g.read().get_page_id() == id, "same id");
        sym::cover("done");
        sym::stop();
    }
}
