//! The page caches.
use crate::{chk, sym};
use ferrite::storage::disk::async_disk::cache::cache_manager::CacheManager;
use ferrite::storage::disk::async_disk::cache::cache_traits::*;
use ferrite::storage::disk::async_disk::cache::fifo::FIFOCache;
use ferrite::storage::disk::async_disk::cache::heap_lfu::HeapLFUCache;
use ferrite::storage::disk::async_disk::cache::lfu::LFUCache;
use ferrite::storage::disk::async_disk::cache::lru::{ConcurrentLRUCache, LRUCore};
use ferrite::storage::disk::async_disk::cache::lru_k::LRUKCache;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Fifo,
    Lru,
    Lfu,
    LruK(usize),
}
struct E {
    k: u64,
    v: u8,
    born: u64,
    freq: u64,
    hist: Vec<u64>,
}
struct M {
    kind: Kind,
    cap: usize,
    now: u64,
    e: Vec<E>,
}
impl M {
    fn at(&mut self, k: u64) -> Option<&mut E> {
        self.e.iter_mut().find(|e| e.k == k)
    }
    fn used(&mut self, k: u64) {
        self.now += 1;
        let n = self.now;
        if let Some(e) = self.at(k) {
            e.freq += 1;
            e.hist.push(n);
        }
    }
    fn rank(&self, e: &E) -> (u64, u64) {
        match self.kind {
            Kind::Fifo => (0, e.born),
            Kind::Lru => (0, *e.hist.last().unwrap()),
            Kind::Lfu => (e.freq, 0),
            Kind::LruK(k) => {
                let n = e.hist.len().min(k);
                (n as u64, e.hist[e.hist.len() - n])
            }
        }
    }
    /// the keys that may be evicted next
    fn victims(&self) -> Vec<u64> {
        let Some(m) = self.e.iter().map(|e| self.rank(e)).min() else { return vec![] };
        self.e.iter().filter(|e| self.rank(e) == m).map(|e| e.k).collect()
    }
    fn del(&mut self, k: u64) {
        self.e.retain(|e| e.k != k);
    }
}
trait C {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8>;
    fn get(&mut self, k: u64) -> Option<u8>;
    fn rem(&mut self, k: u64) -> Option<u8>;
    fn pop(&mut self) -> Option<(u64, u8)>;
    fn peek(&self) -> Option<(u64, u8)>;
    fn touch(&mut self, k: u64) -> Option<bool>;
    fn len(&self) -> usize;
    fn has(&self, k: u64) -> bool;
    fn clear(&mut self);
    fn extra(&self, _m: &M) {}
    const REM: bool = true;
}
impl C for FIFOCache<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        self.insert(k, v)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        CoreCache::get(self, &k).copied()
    }
    fn rem(&mut self, _k: u64) -> Option<u8> {
        None
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_oldest()
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_oldest().map(|(k, v)| (*k, *v))
    }
    fn touch(&mut self, _k: u64) -> Option<bool> {
        None
    }
    fn len(&self) -> usize {
        CoreCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
    fn clear(&mut self) {
        CoreCache::clear(self)
    }
    fn extra(&self, m: &M) {
        for e in &m.e {
            let r = m.e.iter().filter(|o| o.born < e.born).count();
            chk!(self.age_rank(&e.k) == Some(r), "age ranks follow insertion");
        }
    }
    const REM: bool = false;
}
impl C for LFUCache<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        self.insert(k, v)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        CoreCache::get(self, &k).copied()
    }
    fn rem(&mut self, k: u64) -> Option<u8> {
        self.remove(&k)
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_lfu()
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_lfu().map(|(k, v)| (*k, *v))
    }
    fn touch(&mut self, k: u64) -> Option<bool> {
        Some(self.increment_frequency(&k).is_some())
    }
    fn len(&self) -> usize {
        CoreCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
    fn clear(&mut self) {
        CoreCache::clear(self)
    }
    fn extra(&self, m: &M) {
        for e in &m.e {
            chk!(self.frequency(&e.k) == Some(e.freq), "frequencies count the uses");
        }
    }
}
impl C for HeapLFUCache<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        self.insert(k, v)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        CoreCache::get(self, &k).copied()
    }
    fn rem(&mut self, k: u64) -> Option<u8> {
        self.remove(&k)
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_lfu()
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_lfu().map(|(k, v)| (*k, *v))
    }
    fn touch(&mut self, k: u64) -> Option<bool> {
        Some(self.increment_frequency(&k).is_some())
    }
    fn len(&self) -> usize {
        CoreCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        CoreCache::contains(self, &k)
    }
    fn clear(&mut self) {
        CoreCache::clear(self)
    }
    fn extra(&self, m: &M) {
        for e in &m.e {
            chk!(LFUCacheTrait::frequency(self, &e.k) == Some(e.freq), "frequencies count the uses");
        }
    }
}
impl C for LRUKCache<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        sym::clock(1000, 0);
        self.insert(k, v)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        sym::clock(1000, 0);
        CoreCache::get(self, &k).copied()
    }
    fn rem(&mut self, k: u64) -> Option<u8> {
        self.remove(&k)
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_lru_k()
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_lru_k().map(|(k, v)| (*k, *v))
    }
    fn touch(&mut self, k: u64) -> Option<bool> {
        sym::clock(1000, 0);
        Some(LRUKCacheTrait::touch(self, &k))
    }
    fn len(&self) -> usize {
        CoreCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
    fn clear(&mut self) {
        CoreCache::clear(self)
    }
    fn extra(&self, m: &M) {
        for e in &m.e {
            let r = m.e.iter().filter(|o| m.rank(o) < m.rank(e)).count();
            let Kind::LruK(k) = m.kind else { unreachable!() };
            chk!(self.access_count(&e.k) == Some(e.hist.len().min(k)), "the access history holds the last k");
            let full = |e: &E| e.hist.len() >= k;
            if m.e.iter().all(full) || k <= 2 {
                chk!(self.k_distance_rank(&e.k) == Some(r), "distance ranks follow eviction order");
            }
            chk!(self.k_distance(&e.k).is_some() == full(e), "a k-distance needs k accesses");
        }
    }
}
impl C for LRUCore<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        self.insert(k, Arc::new(v)).map(|a| *a)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        CoreCache::get(self, &k).map(|a| **a)
    }
    fn rem(&mut self, k: u64) -> Option<u8> {
        self.remove(&k).map(|a| *a)
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_lru().map(|(k, a)| (k, *a))
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_lru().map(|(k, a)| (*k, **a))
    }
    fn touch(&mut self, k: u64) -> Option<bool> {
        Some(LRUCacheTrait::touch(self, &k))
    }
    fn len(&self) -> usize {
        CoreCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
    fn clear(&mut self) {
        CoreCache::clear(self)
    }
    fn extra(&self, m: &M) {
        for e in &m.e {
            let r = m.e.iter().filter(|o| m.rank(o) > m.rank(e)).count();
            chk!(self.recency_rank(&e.k) == Some(r), "recency ranks follow use");
            chk!(LRUCore::peek(self, &e.k).map(|a| *a) == Some(e.v), "peek shows the value");
        }
    }
}
impl C for ConcurrentLRUCache<u64, u8> {
    fn ins(&mut self, k: u64, v: u8) -> Option<u8> {
        self.insert(k, v).map(|a| *a)
    }
    fn get(&mut self, k: u64) -> Option<u8> {
        ConcurrentLRUCache::get(self, &k).map(|a| *a)
    }
    fn rem(&mut self, k: u64) -> Option<u8> {
        self.remove(&k).map(|a| *a)
    }
    fn pop(&mut self) -> Option<(u64, u8)> {
        self.pop_lru().map(|(k, a)| (k, *a))
    }
    fn peek(&self) -> Option<(u64, u8)> {
        self.peek_lru().map(|(k, a)| (k, *a))
    }
    fn touch(&mut self, k: u64) -> Option<bool> {
        Some(ConcurrentLRUCache::touch(self, &k))
    }
    fn len(&self) -> usize {
        ConcurrentLRUCache::len(self)
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
    fn clear(&mut self) {
        ConcurrentLRUCache::clear(self)
    }
}
fn run<T: C>(c: &mut T, kind: Kind, cap: usize, n: usize) {
    let mut m = M { kind, cap, now: 0, e: vec![] };
    let mut vals = 0;
    for _ in 0..n {
        let o = sym::choose(6, "op");
        let k = if o < 4 { sym::choose(cap as u64 + 1, "key") as u64 } else { 0 };
        match o {
            0 => {
                vals += 1;
                let v = sym::u8("value");
                let got = c.ins(k, v);
                m.now += 1;
                let now = m.now;
                match m.at(k) {
                    Some(e) => {
                        chk!(got == Some(e.v), "replacing a value returns the old one");
                        e.v = v;
                        if kind != Kind::Lfu {
                            e.hist.push(now);
                        }
                    }
                    None => {
                        chk!(got.is_none(), "a new entry replaces nothing");
                        if m.e.len() == cap {
                            let vs = m.victims();
                            let gone: Vec<u64> = m.e.iter().map(|e| e.k).filter(|k| !c.has(*k)).collect();
                            chk!(gone.len() == (cap > 0) as usize, "one entry makes room for one");
                            for g in gone {
                                chk!(vs.contains(&g), "the policy's victim is evicted");
                                m.del(g);
                            }
                        }
                        if cap > 0 {
                            m.e.push(E { k, v, born: now, freq: 1, hist: vec![now] });
                        }
                    }
                }
            }
            1 => {
                let got = c.get(k);
                chk!(got == m.at(k).map(|e| e.v), "a get returns the last value inserted");
                m.used(k);
            }
            2 => {
                if !T::REM {
                    return;
                }
                let got = c.rem(k);
                chk!(got == m.at(k).map(|e| e.v), "a removal returns the value");
                m.del(k);
            }
            3 => {
                if let Some(t) = c.touch(k) {
                    chk!(t == m.at(k).is_some(), "a touch tells whether the key is there");
                    m.used(k);
                }
            }
            4 => {
                let vs = m.victims();
                let p = c.peek();
                chk!(p.is_some() == !m.e.is_empty(), "peek finds a victim unless empty");
                if let Some((k, v)) = p {
                    chk!(vs.contains(&k), "peek shows a victim of the policy");
                    chk!(m.at(k).map(|e| e.v) == Some(v), "peek shows its value");
                }
                let p = c.pop();
                chk!(p.is_some() == !m.e.is_empty(), "pop finds a victim unless empty");
                if let Some((k, v)) = p {
                    chk!(vs.contains(&k), "pop takes a victim of the policy");
                    chk!(m.at(k).map(|e| e.v) == Some(v), "pop returns its value");
                    m.del(k);
                }
            }
            _ => {
                c.clear();
                m.e.clear();
            }
        }
        chk!(c.len() == m.e.len() && c.len() <= m.cap, "the size is exact and within the capacity");
        for k in 0..cap as u64 + 1 {
            chk!(c.has(k) == m.e.iter().any(|e| e.k == k), "membership is exact");
        }
        c.extra(&m);
    }
    let _ = vals;
    for k in 0..cap as u64 + 1 {
        chk!(c.get(k) == m.at(k).map(|e| e.v), "the final contents are the last values inserted");
    }
    sym::cover("done");
}

/// accesses, so that an entry is in any tier, then stores and gets: a get never returns an old version
fn manager(mb: usize, pre: bool, n: usize, pages: u64) {
    let mut c = crate::db::cfg();
    c.cache_size_mb = mb;
    let m = CacheManager::new(&c);
    let mut last: Vec<Option<u8>> = vec![None; pages as usize];
    let mut seen = 0;
    if pre {
        // reach every temperature, with the page stored at any of them
        let first = sym::choose(12, "accesses before the first store");
        for _ in 0..first {
            m.get_page(0);
        }
        m.store_page(0, vec![7; 4]);
        last[0] = Some(7);
        let second = sym::choose(12, "accesses after it");
        for _ in 0..second {
            if let Some(d) = m.get_page(0) {
                seen += 1;
                chk!(d == vec![7; 4], "a cached page is the version stored last");
            }
        }
    }
    for _ in 0..n {
        let o = sym::choose(3, "op");
        match o {
            0 => {
                let p = sym::choose(pages, "page");
                let v = sym::choose(3, "content") as u8;
                m.store_page(p as u64, vec![v; 4]);
                last[p] = Some(v);
            }
            1 => {
                let p = sym::choose(pages, "page");
                if let Some(d) = m.get_page(p as u64) {
                    seen += 1;
                    chk!(last[p].is_some(), "only stored pages are cached");
                    chk!(d.len() == 4 && d.iter().all(|x| Some(*x) == last[p]), "a cached page is the version stored last");
                }
            }
            _ => m.perform_specialized_maintenance(),
        }
    }
    for p in 0..pages as usize {
        if let Some(d) = m.get_page(p as u64) {
            seen += 1;
            chk!(d.len() == 4 && d.iter().all(|x| Some(*x) == last[p]), "a cached page is the version stored last");
        }
    }
    let s = m.get_cache_statistics();
    chk!(s.hot_cache_used <= s.hot_cache_size && s.warm_cache_used <= s.warm_cache_size && s.cold_cache_used <= s.cold_cache_size, "no tier holds more than its size");
    if seen > 0 {
        sym::cover("hit");
    }
    sym::cover("done");
}
/// a store while another thread gets the page: afterwards the cache holds the new version or none
fn conc(acc: usize) {
    let mut c = crate::db::cfg();
    c.cache_size_mb = 8;
    let m = Arc::new(CacheManager::new(&c));
    m.store_page(0, vec![1; 4]);
    for _ in 0..acc {
        m.get_page(0);
    }
    let m2 = m.clone();
    sym::explore(true, 2);
    let t = std::thread::spawn(move || {
        m2.store_page(0, vec![2; 4]);
        if let Some(d) = m2.get_page(0) {
            chk!(d == vec![2; 4], "a writer sees its own version");
        }
    });
    if let Some(d) = m.get_page(0) {
        chk!(d == vec![1; 4] || d == vec![2; 4], "a reader sees one of the versions");
    }
    t.join().unwrap();
    sym::explore(false, 0);
    for _ in 0..3 {
        if let Some(d) = m.get_page(0) {
            chk!(d == vec![2; 4], "an old version does not survive a store");
        }
    }
    sym::cover("done");
}
crate::harness! {
    cache_fifo => { run(&mut FIFOCache::new(2), Kind::Fifo, 2, 4) }
    cache_lru => { run(&mut LRUCore::new(2), Kind::Lru, 2, 4) }
    cache_lru_conc => { run(&mut ConcurrentLRUCache::new(2), Kind::Lru, 2, 3) }
    cache_lfu => { run(&mut LFUCache::new(2), Kind::Lfu, 2, 4) }
    cache_heap => { run(&mut HeapLFUCache::new(2), Kind::Lfu, 2, 4) }
    cache_lruk => { run(&mut LRUKCache::with_k(2, 2), Kind::LruK(2), 2, 4) }
    cache_lruk3 => { run(&mut LRUKCache::with_k(2, 3), Kind::LruK(3), 2, 4) }
    cache_zero => { match sym::choose(5, "cache") {
        0 => run(&mut FIFOCache::new(0), Kind::Fifo, 0, 2),
        1 => run(&mut LRUCore::new(0), Kind::Lru, 0, 2),
        2 => run(&mut LFUCache::new(0), Kind::Lfu, 0, 2),
        3 => run(&mut HeapLFUCache::new(0), Kind::Lfu, 0, 2),
        _ => run(&mut LRUKCache::with_k(0, 2), Kind::LruK(2), 0, 2),
    } }
    cachemgr_temps => { manager(8, true, 2, 2) }
    cachemgr_ops => { manager(8, false, 4, 2) }
    cachemgr_small => { manager(sym::choose(4, "size"), false, 3, 3) }
    cachemgr_temps3 => { manager(8, true, 3, 2) }
    cachemgr_ops5 => { manager(8, false, 5, 2) }
    cachemgr_conc => { conc([0, 1, 4, 9][sym::choose(4, "accesses")]) }
    cache_fifo5 => { run(&mut FIFOCache::new(2), Kind::Fifo, 2, 5) }
    cache_lru5 => { run(&mut LRUCore::new(2), Kind::Lru, 2, 5) }
    cache_lru3x5 => { run(&mut LRUCore::new(3), Kind::Lru, 3, 5) }
    cache_lfu5 => { run(&mut LFUCache::new(2), Kind::Lfu, 2, 5) }
    cache_heap5 => { run(&mut HeapLFUCache::new(2), Kind::Lfu, 2, 5) }
    cache_lruk5 => { run(&mut LRUKCache::with_k(2, 2), Kind::LruK(2), 2, 5) }
    cache_lruk35 => { run(&mut LRUKCache::with_k(2, 3), Kind::LruK(3), 2, 5) }
}
