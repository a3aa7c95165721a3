//! The buffer pool, over the real disk manager on the in-memory files.
use crate::{chk, db, sym, vfs};
use ferrite::buffer::lru_k_replacer::AccessType;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{BasicPage, PageTrait};

type G = PageGuard<BasicPage>;
struct M {
    d: db::Db,
    pool: usize,
    /// last written bytes per page; None once deleted
    pages: Vec<(u64, Option<[u8; 2]>)>,
    held: Vec<G>,
}
fn put(g: &G, b: [u8; 2]) {
    let mut p = g.write();
    p.get_data_mut()[9] = b[0];
    p.get_data_mut()[4095] = b[1];
}
fn get(g: &G) -> [u8; 2] {
    let p = g.read();
    [p.get_data()[9], p.get_data()[4095]]
}
impl M {
    fn new(pool: usize) -> M {
        M { d: db::open(pool, db::cfg()), pool, pages: vec![], held: vec![] }
    }
    fn pins(&self, id: u64) -> usize {
        self.held.iter().filter(|g| g.get_page_id() == id).count()
    }
    /// some frame is free or holds an unpinned page
    fn room(&self) -> bool {
        self.pages.iter().filter(|(id, _)| self.pins(*id) > 0).count() < self.pool
    }
    fn check(&self) {
        for g in &self.held {
            let id = g.get_page_id();
            let (_, b) = self.pages.iter().find(|(i, _)| *i == id).unwrap();
            chk!(Some(get(g)) == *b, "a pinned page keeps its contents");
            chk!(g.read().get_pin_count() as usize == self.pins(id), "the pin count is the number of guards");
        }
        let pt = self.d.bpm.get_page_table();
        let pt = pt.read();
        chk!(pt.len() + self.d.bpm.get_free_list_size() <= self.pool, "frames are not shared");
        for (id, _) in &self.pages {
            chk!(self.pins(*id) == 0 || pt.contains_key(id), "a pinned page stays in the pool");
        }
        let r = self.d.bpm.get_replacer().unwrap();
        let pinned = self.pages.iter().filter(|(id, _)| self.pins(*id) > 0).count();
        chk!(r.total_evictable_frames() <= self.pool - pinned, "a pinned frame is not evictable");
    }
    fn op(&mut self, o: usize) {
        let np = self.pages.len() as u64;
        match o {
            0 => {
                let room = self.room();
                let g = self.d.bpm.new_page::<BasicPage>();
                chk!(g.is_some() == room, "a page is created exactly when a frame can be had");
                if let Some(g) = g {
                    let id = g.get_page_id();
                    chk!(self.pages.iter().all(|(i, _)| *i != id), "page ids are not reused");
                    chk!(get(&g) == [0, 0], "a new page is empty");
                    let b = sym::bytes::<2>("data");
                    put(&g, b);
                    self.pages.push((id, Some(b)));
                    if sym::flip("keep") {
                        self.held.push(g);
                    }
                }
            }
            1 => {
                let i = sym::choose(np, "page");
                let (id, b) = self.pages[i];
                let Some(b) = b else { return sym::assume(false) };
                let resident = self.pins(id) > 0;
                let room = self.room();
                let g = self.d.bpm.fetch_page::<BasicPage>(id);
                chk!(g.is_some() || !(resident || room), "a page is fetched whenever a frame can be had");
                if let Some(g) = g {
                    chk!(g.get_page_id() == id && get(&g) == b, "a fetched page has the contents last written");
                    if sym::flip("write") {
                        let b = sym::bytes::<2>("data");
                        put(&g, b);
                        self.pages[i].1 = Some(b);
                    }
                    if sym::flip("keep") {
                        self.held.push(g);
                    }
                }
            }
            2 => {
                sym::assume(!self.held.is_empty());
                let j = sym::choose(self.held.len() as u64, "guard");
                self.held.remove(j);
            }
            3 => {
                let i = sym::choose(np, "page");
                if self.pages[i].1.is_none() {
                    return sym::assume(false);
                }
                let id = self.pages[i].0;
                let was = self.d.bpm.get_page_table().read().contains_key(&id);
                let r = self.d.rt.block_on(self.d.bpm.flush_page_async(id));
                chk!(r.is_ok() == was, "a resident page is flushed");
            }
            4 => {
                let i = sym::choose(np, "page");
                if self.pages[i].1.is_none() {
                    return sym::assume(false);
                }
                let id = self.pages[i].0;
                let was = self.d.bpm.get_page_table().read().contains_key(&id);
                let r = self.d.bpm.delete_page(id);
                chk!(r.is_ok() == (was && self.pins(id) == 0), "a page is deleted exactly when it is resident and not pinned");
                if r.is_ok() {
                    self.pages[i].1 = None;
                }
            }
            5 => {
                // a fetch under the wrong type is refused and costs nothing
                let i = sym::choose(np, "page");
                if self.pages[i].1.is_none() {
                    return sym::assume(false);
                }
                chk!(self.d.bpm.fetch_page::<TablePage>(self.pages[i].0).is_none(), "a page is not handed out under another type");
                chk!(self.d.bpm.fetch_page::<BasicPage>(1000).is_none(), "a page never allocated is not found");
            }
            6 => {
                let _ = self.d.rt.block_on(self.d.bpm.flush_dirty_pages_batch_async(8));
            }
            _ => self.d.rt.block_on(self.d.bpm.flush_all_pages_async()),
        }
    }
    fn seed(&mut self, n: usize) {
        for _ in 0..n {
            let g = self.d.bpm.new_page::<BasicPage>().unwrap();
            let b = sym::bytes::<2>("data");
            put(&g, b);
            self.pages.push((g.get_page_id(), Some(b)));
        }
    }
    /// every page is still there
    fn end(&mut self) {
        self.held.clear();
        for (id, b) in &self.pages {
            if let Some(b) = b {
                match self.d.bpm.fetch_page::<BasicPage>(*id) {
                    Some(g) => chk!(get(&g) == *b, "a fetched page has the contents last written"),
                    None => sym::fail("a page is fetched whenever a frame can be had"),
                }
            }
        }
        // all frames can still be used
        let g: Vec<_> = (0..self.pool).map(|_| self.d.bpm.new_page::<BasicPage>()).collect();
        chk!(g.iter().all(|x| x.is_some()), "no frame is lost");
        sym::cover("done");
    }
}
fn run(pool: usize, seed: usize, n: usize, ops: &[usize]) {
    let mut m = M::new(pool);
    m.seed(seed);
    m.check();
    for _ in 0..n {
        m.op(ops[sym::choose(ops.len() as u64, "op")]);
        m.check();
    }
    m.end();
    sym::stop();
}
crate::harness! {
    bpm_ops2 => { run(2, 3, 2, &[0, 1, 2, 3, 4, 5, 6, 7]) }
    bpm_ops3 => { run(2, 3, 3, &[0, 1, 2, 4]) }
    bpm_ops => { run(2, 3, 3, &[0, 1, 2, 3, 4, 5, 6, 7]) }
    bpm_ops4 => { run(2, 3, 4, &[0, 1, 2, 4, 5, 7]) }
    bpm_fetch3 => { run(2, 3, 3, &[1, 2]) }
    bpm_fetch => { run(2, 3, 4, &[1, 2]) }
    bpm_batch => {
        // pages loaded in a batch come in the order asked for
        let m = prep(3, 4);
        let n = 1 + sym::choose(3, "n");
        let ids: Vec<u64> = (0..n).map(|_| m.pages[sym::choose(4, "page")].0).collect();
        let g: Vec<Option<G>> = m.d.rt.block_on(m.d.bpm.load_pages_batch(ids.clone()));
        chk!(g.len() == n, "a batch has an entry for each page asked for");
        for (g, id) in g.iter().zip(&ids) {
            match g {
                Some(g) => chk!(g.get_page_id() == *id && Some(get(g)) == m.pages.iter().find(|p| p.0 == *id).unwrap().1, "a fetched page has the contents last written"),
                None => sym::fail("a page is fetched whenever a frame can be had"),
            }
        }
        let mut m = m;
        m.held = g.into_iter().flatten().collect();
        m.check();
        m.end();
        sym::stop();
    }
    bpm_untouched => {
        // a page that is created and never written to is still a page
        let d = db::open(1, db::cfg());
        let a = d.bpm.new_page::<BasicPage>().unwrap().get_page_id();
        let b = d.bpm.new_page::<BasicPage>().unwrap().get_page_id();
        chk!(a != b, "page ids are not reused");
        chk!(d.bpm.fetch_page::<BasicPage>(a).is_some(), "a page is fetched whenever a frame can be had");
        sym::cover("done");
        sym::stop();
    }
    bpm_fault => {
        // the n-th write or read of the disk fails: nothing written is lost
        let mut m = M::new(2);
        m.seed(2);
        let n = 1 + sym::choose(3, "nth") as u64;
        let kind = sym::choose(2, "fault");
        vfs::with(|v| if kind == 0 { v.fail_write = n } else { v.fail_read = n });
        let mut g = None;
        for _ in 0..3 {
            match sym::choose(3, "op") {
                0 => {
                    if let Some(g) = m.d.bpm.new_page::<BasicPage>() {
                        let b = sym::bytes::<2>("data");
                        put(&g, b);
                        m.pages.push((g.get_page_id(), Some(b)));
                    }
                }
                1 => {
                    let i = sym::choose(m.pages.len() as u64, "page");
                    g = m.d.bpm.fetch_page::<BasicPage>(m.pages[i].0);
                    if let Some(g) = &g {
                        chk!(Some(get(g)) == m.pages[i].1, "a fetched page has the contents last written");
                    }
                }
                _ => {
                    let i = sym::choose(m.pages.len() as u64, "page");
                    let _ = m.d.rt.block_on(m.d.bpm.flush_page_async(m.pages[i].0));
                }
            }
        }
        drop(g);
        vfs::with(|v| {
            v.fail_write = 0;
            v.fail_read = 0;
        });
        m.end();
        sym::stop();
    }
    bpm_conc_same => { conc(2, &[0], 1) }
    bpm_conc_evict => { conc(1, &[0, 1], 1) }
    bpm_conc_evict2 => { conc(1, &[0, 1], 2) }
    bpm_conc_pool2 => { conc(2, &[0, 1, 2], 1) }
    bpm_conc_pool2x => { conc(2, &[0, 1, 2], 2) }
    bpm_conc_new => {
        // one thread fetches a page while another needs its frame for a new one
        let m = prep(1, 2);
        let id = m.pages[sym::choose(2, "page")].0;
        let bpm = m.d.bpm.clone();
        sym::explore(true, 1);
        let t = std::thread::spawn(move || bpm.new_page::<BasicPage>().map(|g| {
            put(&g, [3, 4]);
            g.get_page_id()
        }));
        let mut wrote = false;
        if let Some(g) = m.d.bpm.fetch_page::<BasicPage>(id) {
            put(&g, [5, 6]);
            wrote = true;
        }
        let n = t.join().unwrap();
        sym::explore(false, 0);
        let mut m = m;
        if wrote {
            m.pages.iter_mut().find(|p| p.0 == id).unwrap().1 = Some([5, 6]);
        }
        if let Some(n) = n {
            m.pages.push((n, Some([3, 4])));
        }
        m.check();
        m.end();
        sym::stop();
    }
    bpm_conc_flush => { 
        // a page is written to while it is flushed, and evicted afterwards
        let m = prep(1, 2);
        let id = m.pages[1].0;
        let bpm = m.d.bpm.clone();
        let kind = sym::choose(3, "flush");
        sym::explore(true, 2);
        let t = std::thread::spawn(move || futures_lite(async move {
            match kind {
                0 => { let _ = bpm.flush_page_async(id).await; }
                1 => bpm.flush_all_pages_async().await,
                _ => { let _ = bpm.flush_dirty_pages_batch_async(8).await; }
            }
        }));
        let mut wrote = false;
        if let Some(g) = m.d.bpm.fetch_page::<BasicPage>(id) {
            put(&g, [5, 6]);
            wrote = true;
        }
        let other = sym::flip("evict") && m.d.bpm.fetch_page::<BasicPage>(m.pages[0].0).is_some();
        let _ = other;
        t.join().unwrap();
        sym::explore(false, 0);
        let mut m = m;
        if wrote {
            m.pages[1].1 = Some([5, 6]);
        }
        m.check();
        m.end();
        sym::stop();
    }
    bpm_conc_hold => {
        // a thread that holds the only frame asks for another while the frame is unpinned elsewhere
        let m = prep(2, 2);
        let (a, b) = (m.pages[0].0, m.pages[1].0);
        let ga = m.d.bpm.fetch_page::<BasicPage>(a).unwrap();
        let gb = m.d.bpm.fetch_page::<BasicPage>(b).unwrap();
        let w = ga.write();
        sym::explore(true, 1);
        let t = std::thread::spawn(move || drop(gb));
        let n = m.d.bpm.new_page::<BasicPage>().map(|g| g.get_page_id());
        t.join().unwrap();
        sym::explore(false, 0);
        drop(w);
        drop(ga);
        let mut m = m;
        if let Some(n) = n {
            m.pages.push((n, Some([0, 0])));
        }
        m.end();
        sym::stop();
    }
}
fn futures_lite<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
fn prep(pool: usize, n: usize) -> M {
    let mut m = M::new(pool);
    for i in 0..n as u8 {
        let g = m.d.bpm.new_page::<BasicPage>().unwrap();
        put(&g, [10 + i, 20 + i]);
        m.pages.push((g.get_page_id(), Some([10 + i, 20 + i])));
    }
    m
}
/// Two threads fetch pages of `ids` at once; each writes a byte of its own. Nothing they wrote may be lost.
fn conc(pool: usize, ids: &[usize], preempt: usize) {
    let m = prep(pool, 3);
    let a = ids[sym::choose(ids.len() as u64, "first")];
    let b = ids[sym::choose(ids.len() as u64, "second")];
    let (ia, ib) = (m.pages[a].0, m.pages[b].0);
    let bpm = m.d.bpm.clone();
    sym::explore(true, preempt as u64);
    let t = std::thread::spawn(move || match bpm.fetch_page::<BasicPage>(ib) {
        Some(g) => {
            let old = g.read().get_data()[4095];
            g.write().get_data_mut()[4095] = 99;
            Some(old)
        }
        None => None,
    });
    let ra = m.d.bpm.fetch_page::<BasicPage>(ia).map(|g| {
        let old = g.read().get_data()[9];
        g.write().get_data_mut()[9] = 77;
        old
    });
    let rb = t.join().unwrap();
    sym::explore(false, 0);
    let mut m = m;
    if let Some(old) = rb {
        let p = m.pages[b].1.as_mut().unwrap();
        chk!(old == p[1], "a fetched page has the contents last written");
        p[1] = 99;
    }
    if let Some(old) = ra {
        let p = m.pages[a].1.as_mut().unwrap();
        chk!(old == p[0], "a fetched page has the contents last written");
        p[0] = 77;
    }
    chk!(pool == 1 && a != b || ra.is_some() && rb.is_some(), "a page is fetched whenever a frame can be had");
    m.check();
    m.end();
    sym::stop();
}
