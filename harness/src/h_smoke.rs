use crate::sym;
use ferrite::common::rid::RID;
use std::collections::HashMap;
harness! {
    smoke_rid => {
        let p = sym::u64("page");
        let s = sym::u32("slot");
        let r = RID::new(p, s);
        sym::assume(p <= u32::MAX as u64);
        let v = r.to_i64().unwrap();
        sym::assume(p <= u32::MAX as u64);
        let r2 = RID::from_i64(v);
        chk!(r2.get_page_id() == p, "page");
        chk!(r2.get_slot_num() == s, "slot");
    }
    smoke_map => {
        sym::const_hash(true);
        let mut m: HashMap<u64, u64> = HashMap::new();
        for i in 0..20 { m.insert(i * 7, i); }
        let k = sym::u64("k");
        let r = m.get(&k).copied();
        if k == 14 { chk!(r == Some(2), "found"); sym::cover("f"); }
        if k > 200 { chk!(r.is_none(), "absent"); sym::cover("n"); }
    }
    smoke_thread => {
        let a = std::sync::Arc::new(parking_lot::Mutex::new(0));
        let b = a.clone();
        sym::explore(true, 2);
        let t = std::thread::spawn(move || { *b.lock() += 1; });
        *a.lock() += 1;
        t.join().unwrap();
        chk!(*a.lock() == 2, "sum");
    }
    smoke_panic => {
        let x = sym::u8("x");
        let v = [1u8, 2, 3];
        let r = std::panic::catch_unwind(|| v[x as usize]);
        chk!(r.is_err() == (x >= 3), "bounds");
        let y = sym::u8("y");
        let _ = v[(y & 3) as usize];
    }
}
#[no_mangle]
pub fn smoke_speed() {
    let mut m: HashMap<u64, u64> = HashMap::new();
    let mut v: Vec<u64> = (0..3000).map(|i| (i * 7919) % 3001).collect();
    v.sort();
    for i in v.iter() { m.insert(*i, *i * 2); }
    let s: u64 = m.values().sum();
    chk!(s > 0, "s");
    let mut st = String::new();
    for i in 0..300 { st.push_str(&format!("{}-{:?}", i, v[i])); }
    chk!(st.len() > 10, "l");
}
