//! Direct I/O helpers, compression, write staging, and the I/O queue and its completion tracking.
use crate::{chk, db, sym, vfs};
use ferrite::storage::disk::async_disk::compression::{CompressionAlgorithm, CompressionEngine};
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::async_disk::io::operations::IOOperationType;
use ferrite::storage::disk::async_disk::io::queue::IOQueueManager;
use ferrite::storage::disk::async_disk::memory::coalescing::{CoalesceResult, CoalescingEngine, SizeAnalyzer};
use ferrite::storage::disk::async_disk::memory::write_staging_buffer::WriteStagingBuffer;
use ferrite::storage::disk::direct_io::*;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;

// ---- P08 ----
fn t_dio_round() {
    let size = sym::usize("size");
    let al = [0usize, 1, 512, 4096, 3, 520][sym::choose(6, "alignment")];
    sym::assume(size < if al & 7 == 3 || al == 520 { 1 << 12 } else { 1 << 40 });
    let r = round_up_to_alignment(size, al);
    chk!(r >= size, "a rounded size is no smaller");
    if al != 0 {
        chk!(r % al == 0 && r - size < al, "a rounded size is the next multiple");
        chk!(is_size_aligned(r, al), "a rounded size is aligned");
        chk!(is_size_aligned(size, al) == (r == size), "only multiples are aligned");
    } else {
        chk!(r == size, "no alignment changes nothing");
    }
    sym::cover("done");
}
fn t_dio_buf() {
    let al = [1usize, 8, 512, 4096][sym::choose(4, "alignment")];
    let n = [0usize, 1, 7, 512, 513][sym::choose(5, "size")];
    let d = sym::bytes::<3>("data");
    let mut src = vec![0u8; n];
    for (i, b) in d.iter().enumerate() {
        if n > 0 {
            src[(i * 255) % n] = *b;
        }
    }
    let extra = [0usize, 600][sym::choose(2, "room")];
    let b = if sym::flip("with size") { AlignedBuffer::from_slice_with_size(&src, extra, al) } else { AlignedBuffer::from_slice(&src, al) };
    chk!(b.len() % al == 0 && b.len() >= n, "a buffer is a multiple of the alignment");
    chk!(b.is_empty() || b.as_slice().as_ptr() as usize % al == 0, "a buffer is aligned in memory");
    chk!(is_aligned(&b, al), "a buffer is recognised as aligned");
    chk!(b[..n] == src[..] && b[n..].iter().all(|x| *x == 0), "a buffer holds the data, then zeros");
    chk!(b.to_vec() == b.as_slice(), "copies are equal");
    sym::cover("done");
}
/// one write, overlapping another, and reads of every kind, against the file as a byte array
fn t_dio_rw() {
    let enabled = sym::flip("direct");
    let al = if enabled { [512usize, 1024, 0, 3][sym::choose(4, "alignment")] } else { 512 };
    let c = DirectIOConfig { enabled, alignment: al };
    let valid = !enabled || (al != 0 && al.is_power_of_two());
    let mut f = open_direct_io(db::DB, true, true, true, &c).unwrap();
    let mut model = vec![0u8; 4096];
    for (i, b) in sym::bytes::<4>("old").iter().enumerate() {
        model[i * 513 + 5] = *b;
    }
    write_aligned(&mut f, 0, &AlignedBuffer::from_slice(&model, 4096), &DirectIOConfig::default()).unwrap();
    let off = [0u64, 512, 1024, 1536, 100][sym::choose(5, "offset")];
    let n = [0usize, 512, 1024, 600, 1][sym::choose(5, "size")];
    let mut src = AlignedBuffer::new(2048, 2048);
    for (i, b) in sym::bytes::<4>("new").iter().enumerate() {
        src.as_mut_slice()[[0, 1, 511, 512][i]] = *b;
    }
    let shift = [0usize, 1][sym::choose(2, "buffer offset")];
    let mut ok = valid && (!enabled || (off as usize % al == 0 && n % al == 0));
    let r = write_aligned(&mut f, off, &src[shift..shift + n], &c);
    chk!(r.is_ok() == (n == 0 || ok), "a write is refused only if it is not aligned");
    if r.is_ok() {
        model[off as usize..off as usize + n].copy_from_slice(&src[shift..shift + n]);
    }
    let off = [0u64, 512, 1024, 700][sym::choose(4, "read offset")];
    let n = [512usize, 1024, 600, 0][sym::choose(4, "read size")];
    sym::assume(al != 3 || n > 0);
    ok = valid && (!enabled || off as usize % al == 0);
    match sym::choose(2, "read") {
        0 => match read_aligned(&mut f, off, n, &c) {
            Ok(b) => {
                chk!(n == 0 || ok, "a misaligned read is refused");
                chk!(b.len() >= n && b[..n] == model[off as usize..off as usize + n], "a read returns what was written");
            }
            Err(_) => chk!(n > 0 && !ok, "an aligned read succeeds"),
        },
        _ => {
            let mut buf = AlignedBuffer::new(2048, 2048);
            let shift = [0usize, 1][sym::choose(2, "read buffer offset")];
            let r = read_aligned_into(&mut f, off, &mut buf.as_mut_slice()[shift..shift + n], &c);
            chk!(r.is_ok() == (n == 0 || ok), "a read is refused only if it is not aligned");
            if r.is_ok() {
                chk!(buf[shift..shift + n] == model[off as usize..off as usize + n], "a read returns what was written");
            }
            chk!(buf[shift + n..].iter().all(|b| *b == 0), "a read touches only its buffer");
        }
    }
    chk!(vfs::with(|v| v.misaligned) == 0, "no unaligned request reaches the device");
    sym::cover("done");
}

// ---- P10 ----
fn algo() -> CompressionAlgorithm {
    [CompressionAlgorithm::None, CompressionAlgorithm::LZ4][sym::choose(2, "algorithm")]
}
fn trip(data: &[u8], a: CompressionAlgorithm) {
    let mut e = CompressionEngine::new();
    let c = e.compress_data(data, a, 3);
    let d = e.decompress_data(&c);
    chk!(d == data, "decompression restores the data");
    let (before, after, _) = e.get_stats();
    chk!(before == data.len() as u64 && after == c.len() as u64, "sizes are accounted for");
    sym::cover("done");
}
fn t_comp_small(max: usize) {
    let n = sym::choose(max as u64 + 1, "size");
    let d = sym::vec(n, "data");
    trip(&d, algo());
}
/// data of repeated runs, where LZ4 has something to find
fn t_comp_runs(segs: usize) {
    let mut d = Vec::new();
    for _ in 0..segs {
        let k = [1usize, 7, 20, 300][sym::choose(4, "run length")];
        match sym::choose(3, "run") {
            0 => d.extend(std::iter::repeat_n(0u8, k)),
            1 => d.extend((0..k).map(|i| 0xF0 + (i % 16) as u8)),
            _ => d.extend((0..k).map(|i| (i * i) as u8)),
        }
    }
    trip(&d, algo());
}

// ---- P11 ----
fn t_staging(n: usize) {
    let comp = sym::flip("compressed");
    let mut b = WriteStagingBuffer::new(10, comp);
    let mut model: HashMap<u64, Vec<u8>> = HashMap::new();
    for _ in 0..n {
        match sym::choose(2, "op") {
            0 => {
                let p = sym::choose(2, "page") as u64;
                let n = [0usize, 3, 4, 8, 11][sym::choose(5, "size")];
                let d = sym::vec(n, "data");
                let used: usize = model.values().map(|d| d.len()).sum();
                let fits = used - model.get(&p).map_or(0, |d| d.len()) + n <= 10;
                let r = b.buffer_write(p, d.clone()).unwrap();
                chk!(r == fits, "a write is staged exactly if it fits");
                if r {
                    model.insert(p, d);
                }
            }
            _ => {
                let d: HashMap<u64, Vec<u8>> = b.drain_buffer().into_iter().map(|(p, d)| (p, b.decompress_data(&d))).collect();
                chk!(d == model, "draining yields the last version of every staged page");
                model.clear();
            }
        }
        let used: usize = model.values().map(|d| d.len()).sum();
        chk!(b.buffer_size_bytes() == used, "the staged size is exact");
        chk!(b.dirty_page_count() == model.len() && b.is_empty() == model.is_empty(), "the staged count is exact");
        chk!(b.get_stats().dirty_pages == model.len() && b.get_stats().buffer_size_bytes == used, "statistics agree");
    }
    sym::cover("done");
}
fn t_adjacent() {
    sym::const_hash(true);
    let mut e = CoalescingEngine::new(Duration::from_secs(10), 64);
    // one page anywhere, or two among the first 64
    let ps = if sym::flip("two") { vec![sym::below(64, "a"), sym::below(64, "b")] } else { vec![sym::u64("a")] };
    for (i, p) in ps.iter().enumerate() {
        e.pending_writes.insert(*p, vec![i as u8]);
    }
    let q = if ps.len() == 2 { sym::below(64, "page") } else { sym::u64("page") };
    let r = e.find_adjacent_pages(q);
    for p in ps {
        let near = p != q && p.abs_diff(q) <= 4;
        chk!(r.contains(&p) == near, "adjacent pages are the pending ones within 4");
    }
    chk!(r.windows(2).all(|w| w[0] < w[1]), "adjacent pages are sorted and distinct");
    sym::cover("done");
}
fn t_ranges() {
    let id = |n| sym::u16(n) as u64;
    let ps: [u64; 3] = [id("a"), id("b"), id("c")];
    sym::assume(ps[0] != ps[1] && ps[0] != ps[2] && ps[1] != ps[2]);
    let n = sym::choose(4, "count");
    let rs = SizeAnalyzer::new().build_page_ranges(&ps[..n], &HashMap::new());
    let x = sym::u16("any page") as u64;
    let within = rs.iter().filter(|r| r.start <= x && x <= r.end).count();
    chk!(within == ps[..n].contains(&x) as usize, "ranges cover exactly the pages, once");
    for w in rs.windows(2) {
        chk!(w[0].end < w[1].start && w[1].start - w[0].end > 1, "ranges are apart and in order");
    }
    for r in &rs {
        chk!(r.size_bytes as u64 == (r.end - r.start + 1) * 4096, "a range counts its pages");
    }
    chk!(SizeAnalyzer::new().validate_page_ranges(&rs).is_ok(), "ranges are valid");
    sym::cover("done");
}
/// what a coalesced write hands on is the newest version of the page, and it is what stays pending
fn t_coalesce() {
    let mut e = CoalescingEngine::new(Duration::from_millis(50), [2usize, 64][sym::choose(2, "limit")]);
    let mut last: HashMap<u64, Vec<u8>> = HashMap::new();
    for i in 0..3u8 {
        if sym::flip("time passes") {
            sym::clock(200_000_000, 0);
        }
        let p = [10u64, 11, 15, 20][sym::choose(4, "page")];
        let d = sym::vec(1 + sym::choose(2, "longer"), "data");
        let r = e.try_coalesce_write(p, d.clone()).unwrap();
        let out = match r {
            CoalesceResult::NoCoalesce(x) | CoalesceResult::Coalesced(x) | CoalesceResult::Merged(x) => x,
        };
        chk!(out == d, "a coalesced write hands on the page as written");
        last.insert(p, d);
        let now = std::time::Instant::now();
        if sym::flip("clean up") {
            chk!(e.cleanup_expired_writes(now).is_ok(), "cleaning up keeps the bookkeeping consistent");
        }
        for (p, d) in &e.pending_writes {
            chk!(last.get(p) == Some(d), "a pending write is the newest version of its page");
        }
        let _ = i;
    }
    chk!(e.try_coalesce_write(1, Vec::new()).is_err(), "empty data is refused");
    sym::cover("done");
}

// ---- P09 ----
/// dequeuing: highest priority first, and among equals in the order of submission
fn t_io_queue(n: usize) {
    let rt = db::rt();
    sym::clock(0, 1000);
    rt.block_on(async {
        let q = IOQueueManager::new();
        let mut model: Vec<(u8, u64)> = Vec::new();
        let mut id = 0;
        for _ in 0..n {
            if sym::flip("dequeue") {
                let best = model.iter().copied().reduce(|a, b| if b.0 > a.0 { b } else { a });
                chk!(q.peek_highest_priority().await == best.map(|b| b.0), "the next priority is the highest");
                let got = q.dequeue_operation().await;
                chk!(got.as_ref().map(|o| (o.priority, o.id)) == best, "the oldest of the highest priority comes next");
                if let Some(o) = got {
                    chk!(matches!(o.operation_type, IOOperationType::ReadPage { page_id } if page_id == 100 + o.id), "an operation keeps its arguments");
                }
                model.retain(|m| Some(*m) != best);
            } else {
                let p = sym::below(3, "priority") as u8;
                q.enqueue_operation(IOOperationType::ReadPage { page_id: 100 + id }, p, id).await;
                model.push((p, id));
                id += 1;
            }
            chk!(q.queue_size().await == model.len() && q.is_empty().await == model.is_empty(), "the queue size is exact");
        }
        let d: Vec<u64> = q.drain_queue().await.iter().map(|o| o.id).collect();
        model.sort_by_key(|m| (255 - m.0, m.1));
        chk!(d == model.iter().map(|m| m.1).collect::<Vec<_>>(), "draining yields everything left, in order");
        chk!(q.is_empty().await, "a drained queue is empty");
    });
    sym::cover("done");
    sym::stop();
}
async fn engine() -> AsyncIOEngine {
    let f = |n: &'static str| async move { Arc::new(tokio::sync::Mutex::new(tokio::fs::OpenOptions::new().read(true).write(true).create(true).open(n).await.unwrap())) };
    AsyncIOEngine::new(f(db::DB).await, f(db::LOG).await).unwrap()
}
/// the result type has no public name
fn show(r: &impl std::fmt::Debug) -> String {
    sym::exact_fmt(true);
    let s = format!("{r:?}");
    sym::exact_fmt(false);
    s
}
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Pending,
    Done(u8),
    Failed,
    Cancelled,
}
/// every operation is resolved once, with the first outcome, and its receiver told
fn t_io_track(n: usize) {
    let rt = db::rt();
    rt.block_on(async {
        let e = engine().await;
        let t = e.completion_tracker();
        let mut ids = Vec::new();
        let mut rxs = Vec::new();
        let mut m: Vec<Op> = Vec::new();
        for _ in 0..2 {
            let (id, rx) = t.start_operation(Some(Duration::from_millis(100))).await;
            chk!(!ids.contains(&id), "operation ids are distinct");
            ids.push(id);
            rxs.push(Some(rx));
            m.push(Op::Pending);
        }
        for _ in 0..n {
            let i = sym::choose(2, "operation");
            match sym::choose(6, "event") {
                0 => {
                    let v = [4u8, 7][sym::choose(2, "result")];
                    let r = t.complete_operation(ids[i], vec![v]).await;
                    chk!(r.is_ok() == (m[i] == Op::Pending), "an operation completes once");
                    if r.is_ok() {
                        m[i] = Op::Done(v);
                    }
                }
                1 => {
                    let r = t.fail_operation(ids[i], "no".into()).await;
                    chk!(r.is_ok() == (m[i] == Op::Pending), "an operation fails once");
                    if r.is_ok() {
                        m[i] = Op::Failed;
                    }
                }
                2 => {
                    let r = t.cancel_operation(ids[i], "off".into()).await;
                    chk!(r.is_ok() == (m[i] == Op::Pending), "an operation is cancelled once");
                    if r.is_ok() {
                        m[i] = Op::Cancelled;
                    }
                }
                3 => {
                    sym::clock(200_000_000, 0);
                    let k = t.check_timeouts().await;
                    chk!(k == m.iter().filter(|o| **o == Op::Pending).count(), "exactly the pending operations time out");
                    for o in &mut m {
                        if *o == Op::Pending {
                            *o = Op::Failed;
                        }
                    }
                }
                4 => {
                    let k = t.check_timeouts().await;
                    chk!(k == 0, "nothing times out early");
                }
                _ => {
                    let k = t.cancel_all_pending("all".into()).await;
                    chk!(k == m.iter().filter(|o| **o == Op::Pending).count(), "exactly the pending operations are cancelled");
                    for o in &mut m {
                        if *o == Op::Pending {
                            *o = Op::Cancelled;
                        }
                    }
                }
            }
            let s = t.get_operation_stats().await;
            let pend = m.iter().filter(|o| **o == Op::Pending).count();
            chk!(s.pending_count == pend && t.pending_operations_count().await == pend, "the pending count is exact");
            chk!(s.cancelled_count == m.iter().filter(|o| **o == Op::Cancelled).count() && s.total_count == 2, "the other counts are exact");
        }
        for i in 0..2 {
            let mut rx = rxs[i].take().unwrap();
            let got = rx.try_recv();
            let waited = t.wait_for_operation(ids[i], Duration::from_millis(1)).await;
            match m[i] {
                Op::Pending => chk!(got.is_err() && waited.is_err(), "a pending operation has no result"),
                Op::Done(v) => {
                    chk!(show(&got) == format!("Ok(Success([{v}]))"), "the receiver gets the first result");
                    chk!(show(&waited) == format!("Ok(Success([{v}]))"), "a waiter gets the first result");
                }
                Op::Failed => chk!(show(&got).starts_with("Ok(Error(") && show(&waited).starts_with("Ok(Error("), "a failure is reported"),
                Op::Cancelled => chk!(got.is_err() && waited.is_err(), "a cancelled operation is reported as such"),
            }
        }
        chk!(t.wait_for_operation(999, Duration::from_millis(1)).await.is_err(), "an unknown operation is refused");
    });
    sym::cover("done");
    sym::stop();
}
/// a waiter always hears of a completion, whenever it comes
fn t_io_wait(pre: u64) {
    let rt = db::rt();
    let e = rt.block_on(engine());
    let t = e.completion_tracker();
    let (id, _rx) = rt.block_on(t.start_operation(None));
    let (id2, _rx2) = rt.block_on(t.start_operation(None));
    let many = sym::flip("two operations");
    let cancel = sym::flip("cancelled");
    let h = rt.handle().clone();
    let t2 = t.clone();
    sym::explore(true, pre);
    let th = std::thread::spawn(move || {
        h.block_on(async {
            if cancel {
                t2.cancel_operation(id, "off".into()).await.unwrap();
            } else {
                t2.complete_operation(id, vec![5]).await.unwrap();
            }
            if many {
                t2.complete_operation(id2, vec![6]).await.unwrap();
            }
        })
    });
    if many {
        let r = rt.block_on(t.wait_for_operations(&[id, id2], Duration::from_secs(1)));
        chk!(r.is_ok_and(|r| r.len() == 2), "a waiter for several operations hears of all");
    } else {
        let r = rt.block_on(t.wait_for_operation(id, Duration::from_secs(1)));
        let r = show(&r);
        if cancel {
            chk!(r.contains("ancel"), "a waiter hears of the cancellation");
        } else {
            chk!(r == "Ok(Success([5]))", "a waiter gets the result");
        }
    }
    th.join().unwrap();
    sym::explore(false, 0);
    sym::cover("done");
    sym::stop();
}
/// log appends from two threads never share bytes; every operation is answered, with its own result
fn t_io_engine(pre: u64, fault: bool) {
    let rt = db::rt();
    let mut e = rt.block_on(engine());
    let _g = rt.enter();
    e.start(1);
    if fault {
        vfs::with(|v| v.fail_write = 1 + sym::below(3, "failing write"));
    }
    let e = Arc::new(e);
    let e2 = e.clone();
    let h = rt.handle().clone();
    let direct = sym::flip("direct append");
    sym::explore(true, pre);
    let th = std::thread::spawn(move || h.block_on(e2.append_log(&[1, 2, 3])));
    let b = if direct { rt.block_on(e.append_log_direct(&[4, 5])) } else { rt.block_on(e.append_log(&[4, 5])) };
    let a = th.join().unwrap();
    sym::explore(false, 0);
    let w = rt.block_on(e.write_page(1, &[9u8; 4096]));
    chk!(fault || (a.is_ok() && b.is_ok() && w.is_ok()), "operations succeed");
    chk!([a.is_err(), b.is_err(), w.is_err()].iter().filter(|x| **x).count() as u64 == vfs::with(|v| v.failed), "a failed operation is reported, and no other");
    vfs::with(|v| v.fail_write = 0);
    for (r, d) in [(&a, &[1u8, 2, 3][..]), (&b, &[4, 5][..])] {
        if let Ok(o) = r {
            chk!(rt.block_on(e.read_log(*o, d.len())).unwrap() == d, "an appended record is found at the offset returned");
        }
    }
    if w.is_ok() {
        chk!(rt.block_on(e.read_page(1)).unwrap() == [9u8; 4096], "a page reads as written");
    }
    chk!(rt.block_on(e.pending_operations_count()) == 0 && rt.block_on(e.queue_size()) == 0, "nothing is left pending");
    sym::cover("done");
    sym::stop();
}
/// cancelling what is queued resolves every operation once
fn t_io_cancel(pre: u64) {
    let rt = db::rt();
    let mut e = rt.block_on(engine());
    let _g = rt.enter();
    if sym::flip("workers") {
        e.start(1);
    }
    let e = Arc::new(e);
    let e2 = e.clone();
    let h = rt.handle().clone();
    sym::explore(true, pre);
    let th = std::thread::spawn(move || h.block_on(async { tokio::time::timeout(Duration::from_secs(5), e2.append_log(&[1, 2, 3])).await }));
    let mut n = 0;
    for _ in 0..2 {
        n += rt.block_on(async { if sym::flip("clear") { e.clear_queue().await } else { e.cancel_all_pending_operations("x").await } });
    }
    let r = th.join().unwrap();
    sym::explore(false, 0);
    chk!(n <= 1, "an operation is cancelled once");
    match r {
        Ok(Ok(_)) => chk!(n == 0, "a completed operation was not cancelled"),
        Ok(Err(_)) => chk!(n == 1, "a cancelled operation is reported as such"),
        Err(_) => chk!(n == 0, "an operation that is neither cancelled nor executed stays pending"),
    }
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    io_engine => { t_io_engine(1, false) }
    io_engine2 => { t_io_engine(2, false) }
    io_engine_fault => { t_io_engine(0, true) }
    io_cancel => { t_io_cancel(1) }
    io_cancel2 => { t_io_cancel(2) }
    dio_round => { t_dio_round() }
    dio_buf => { t_dio_buf() }
    dio_rw => { t_dio_rw() }
    comp_small => { t_comp_small(4) }
    comp_small8 => { t_comp_small(7) }
    comp_runs => { t_comp_runs(2) }
    comp_runs3 => { t_comp_runs(3) }
    staging => { t_staging(3) }
    staging4 => { t_staging(4) }
    adjacent => { t_adjacent() }
    ranges => { t_ranges() }
    coalesce => { t_coalesce() }
    io_queue => { t_io_queue(5) }
    io_queue6 => { t_io_queue(6) }
    io_track => { t_io_track(2) }
    io_track3 => { t_io_track(3) }
    io_wait => { t_io_wait(1) }
    io_wait2 => { t_io_wait(2) }
}
