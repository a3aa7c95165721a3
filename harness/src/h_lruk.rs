//! The replacer of the buffer pool.
use crate::{chk, sym};
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use std::collections::BTreeMap;

struct M {
    k: usize,
    now: u64,
    f: BTreeMap<u32, (Vec<u64>, bool)>,
}
impl M {
    fn victim(&self) -> Option<u32> {
        let ev = self.f.iter().filter(|(_, e)| e.1);
        ev.min_by_key(|(_, e)| {
            let n = e.0.len().min(self.k);
            (n, e.0[e.0.len() - n])
        })
        .map(|(f, _)| *f)
    }
    fn check(&self, r: &LRUKReplacer) {
        chk!(r.total_frames() == self.f.len(), "every accessed frame is tracked until removed");
        chk!(r.total_evictable_frames() == self.f.values().filter(|e| e.1).count(), "the evictable count is exact");
    }
}
fn op(r: &mut LRUKReplacer, m: &mut M, o: usize, f: u32) {
    match o {
        0 => {
            sym::clock(1000, 0);
            r.record_access(f as _, [AccessType::Unknown, AccessType::Lookup, AccessType::Scan, AccessType::Index][(m.now % 4) as usize]);
            m.now += 1;
            let e = m.f.entry(f).or_insert((vec![], false));
            e.0.push(m.now);
        }
        1 | 2 => {
            let b = o == 1;
            let got = r.set_evictable(f as _, b);
            let want = match m.f.get_mut(&f) {
                Some(e) => std::mem::replace(&mut e.1, b) != b,
                None => false,
            };
            chk!(got == want, "set_evictable tells whether the status changed");
        }
        3 => {
            let want = m.victim();
            let got = r.evict().map(|x| x as u32);
            chk!(got.is_none() == want.is_none(), "a victim is found exactly when a frame is evictable");
            if let Some(g) = got {
                chk!(m.f.get(&g).map_or(false, |e| e.1), "only evictable frames are evicted");
            }
            chk!(got == want, "the victim has the fewest accesses below k, then the oldest k-th access");
            if let Some(w) = want {
                m.f.get_mut(&w).unwrap().1 = false;
            }
        }
        _ => {
            r.remove(f as _);
            if m.f.get(&f).map_or(false, |e| e.1) {
                m.f.remove(&f);
            }
        }
    }
}
fn new(k: usize) -> (LRUKReplacer, M) {
    (LRUKReplacer::new(4, k), M { k, now: 0, f: BTreeMap::new() })
}
fn order(n: usize, k: usize) {
    let (mut r, mut m) = new(k);
    for _ in 0..n {
        op(&mut r, &mut m, 0, sym::choose(3, "frame") as u32);
    }
    for f in 0..3 {
        if sym::flip("evictable") {
            op(&mut r, &mut m, 1, f);
        }
    }
    m.check(&r);
    for _ in 0..2 {
        op(&mut r, &mut m, 3, 0);
    }
    m.check(&r);
    sym::cover("done");
}
fn ops(n: usize, frames: u64) {
    let (mut r, mut m) = new(2);
    for f in 0..frames {
        op(&mut r, &mut m, 0, f as u32);
    }
    for _ in 0..n {
        let o = sym::choose(5, "op");
        let f = if o == 3 { 0 } else { sym::choose(frames, "frame") };
        op(&mut r, &mut m, o, f as u32);
        m.check(&r);
    }
    // whatever happened, every evictable frame comes out once, in order
    for _ in 0..frames + 1 {
        op(&mut r, &mut m, 3, 0);
    }
    chk!(r.total_evictable_frames() == 0, "the evictable count is exact");
    sym::cover("done");
}
crate::harness! {
    lruk_order1 => { order(4, 1) }
    lruk_order2 => { order(4, 2) }
    lruk_order3 => { order(5, 3) }
    lruk_order2l => { order(6, 2) }
    lruk_ops => { ops(3, 2) }
    lruk_ops4 => { ops(4, 2) }
    lruk_ops3f => { ops(4, 3) }
}
