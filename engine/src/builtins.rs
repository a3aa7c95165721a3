//! Models of everything the IR does not define: the symbolic API, allocation, threads, time, intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Res;
use std::rc::Rc;

macro_rules! tr {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(k) => return Act::Kill(k),
        }
    };
}

const MAX_ALLOC: u64 = 1 << 30;

fn cstr(e: &mut Engine, st: &mut State, p: u64, n: u64) -> Result<String, Kill> {
    Ok(String::from_utf8_lossy(&e.read_bytes(st, p, n as usize)?).to_string())
}
fn a64(e: &mut Engine, st: &mut State, a: &[Val], i: usize) -> Result<u64, Kill> {
    match &a[i] {
        Val::C(c) => Ok(*c),
        v => {
            let v = v.clone();
            let w = match &v {
                Val::S(x) => e.ar.w(*x),
                _ => 64,
            };
            Ok(e.concretize(st, &v, w)? as u64)
        }
    }
}

// ---------- symbolic API ----------
fn sym_bytes(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let n = tr!(a64(e, st, a, 1)) as usize;
    let np = tr!(a64(e, st, a, 2));
    let nn = tr!(a64(e, st, a, 3));
    let name = tr!(cstr(e, st, np, nn));
    let idx = st.inputs.len();
    if let Some(r) = &e.opts.replay {
        let b = r.get(idx).cloned().unwrap_or_default();
        for i in 0..n {
            let v = Val::C(b.get(i).copied().unwrap_or(0) as u64);
            tr!(e.write_int(st, p + i as u64, 1, &v));
        }
        st.inputs.push(Input { name, bytes: n, vars: vec![] });
        return Act::Void;
    }
    let mut vars = vec![];
    // the same input position yields the same variable on every path
    if matches!(n, 1 | 2 | 4 | 8 | 16) {
        let v = named(e, format!("{}@{}:{}", name, idx, n), 8 * n as u16);
        vars.push(v);
        tr!(e.write_int(st, p, n, &Val::S(v)));
    } else {
        for i in 0..n {
            let v = named(e, format!("{}@{}[{}]", name, idx, i), 8);
            vars.push(v);
            tr!(e.write_int(st, p + i as u64, 1, &Val::S(v)));
        }
    }
    st.inputs.push(Input { name, bytes: n, vars });
    Act::Void
}
fn named(e: &mut Engine, n: String, w: u16) -> E {
    if let Some(v) = e.vnames.get(&n) {
        return *v;
    }
    let v = e.ar.var(n.clone(), w);
    e.vnames.insert(n, v);
    v
}
fn cond(e: &mut Engine, v: &Val, t: Ty) -> Val {
    // i1 or wider: non-zero
    let w = e.ir.bits(t);
    if w == 1 {
        return v.clone();
    }
    e.icmp(Pred::Ne, w, v, &Val::C(0))
}
fn sym_assume(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    match cond(e, &a[0], c.args[0].1) {
        Val::C(0) => Act::Kill(Kill::Infeasible),
        Val::S(x) => {
            let x = e.subst(st, x);
            match e.ar.is_c(x) {
                Some(0) => return Act::Kill(Kill::Infeasible),
                Some(_) => return Act::Void,
                None => {}
            }
            if e.eval_model(st, x) != 1 {
                let (r, m) = e.feas(st, x);
                match r {
                    Res::Unsat => return Act::Kill(Kill::Infeasible),
                    Res::Unknown => return Act::Kill(Kill::Limit("solver gave no answer (assume)".into())),
                    Res::Sat => st.model = m.unwrap(),
                }
            }
            e.add_pc(st, x);
            Act::Void
        }
        _ => Act::Void,
    }
}
fn sym_check(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    let lp = tr!(a64(e, st, a, 1));
    let ll = tr!(a64(e, st, a, 2));
    let label = tr!(cstr(e, st, lp, ll));
    e.labels.entry(label.clone()).or_insert((0, 0, 0)).0 += 1;
    match cond(e, &a[0], c.args[0].1) {
        Val::C(0) => Act::Kill(Kill::Violation(label, "check failed".into())),
        Val::S(x) => {
            let x = e.subst(st, x);
            match e.ar.is_c(x) {
                Some(0) => return Act::Kill(Kill::Violation(label, "check failed".into())),
                Some(_) => {
                    e.st.checks_concrete += 1;
                    return Act::Void;
                }
                None => {}
            }
            let nx = e.ar.not(x);
            let (r, m) = e.feas(st, nx);
            match r {
                Res::Unsat => {
                    e.st.checks_proved += 1;
                    e.labels.get_mut(&label).unwrap().1 += 1;
                    let t = e.ar.cst(1, 1);
                    let k = Rc::make_mut(&mut st.known);
                    k.insert(x, t);
                    e.gen += 1;
                    st.known_gen = e.gen;
                    Act::Void
                }
                Res::Unknown => Act::Kill(Kill::Limit(format!("solver gave no answer (check {})", label))),
                Res::Sat => {
                    let m = m.unwrap();
                    e.violation(st, &label, "check failed", &m);
                    // continue with the inputs for which it holds
                    let (r, m) = e.feas(st, x);
                    match r {
                        Res::Sat => {
                            st.model = m.unwrap();
                            e.add_pc(st, x);
                            Act::Void
                        }
                        _ => Act::Kill(Kill::Done),
                    }
                }
            }
        }
        _ => {
            e.st.checks_concrete += 1;
            Act::Void
        }
    }
}
fn sym_cover(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let lp = tr!(a64(e, st, a, 0));
    let ll = tr!(a64(e, st, a, 1));
    let label = tr!(cstr(e, st, lp, ll));
    *e.covers.entry(label).or_insert(0) += 1;
    Act::Void
}
fn sym_note(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let lp = tr!(a64(e, st, a, 0));
    let ll = tr!(a64(e, st, a, 1));
    let s = tr!(cstr(e, st, lp, ll));
    if e.opts.verbose {
        eprintln!("note: {}", s);
    }
    if st.notes.len() < 200 {
        st.notes.push(s);
    }
    Act::Void
}
fn sym_concretize(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let v = tr!(e.concretize(st, &a[0].clone(), 64));
    Act::V(Val::C(v as u64))
}
fn sym_is_symbolic(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let r = match &a[0] {
        Val::S(x) => {
            let y = e.subst(st, *x);
            e.ar.is_c(y).is_none()
        }
        _ => false,
    };
    Act::V(Val::C(r as u64))
}
fn sym_explore(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    st.explore = tr!(a64(e, st, a, 0)) != 0;
    st.preempt = tr!(a64(e, st, a, 1)) as u32;
    Act::Void
}
fn sym_exact_fmt(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    st.exact_fmt = tr!(a64(e, st, a, 0)) != 0;
    Act::Void
}
fn sym_clock(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let adv = tr!(a64(e, st, a, 0));
    st.clock += adv;
    st.clock_step = tr!(a64(e, st, a, 1));
    Act::V(Val::C(st.clock))
}
fn sym_yes(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(1))
}
fn sym_fail(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let lp = tr!(a64(e, st, a, 0));
    let ll = tr!(a64(e, st, a, 1));
    let s = tr!(cstr(e, st, lp, ll));
    Act::Kill(Kill::Violation(s, "failed".into()))
}
fn sym_stop(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Done)
}
fn sym_thread(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(st.cur as u64))
}

// ---------- allocation ----------
fn do_alloc(e: &mut Engine, st: &mut State, n: u64) -> Act {
    if n > MAX_ALLOC {
        return Act::V(Val::C(0));
    }
    let _ = e;
    Act::V(Val::C(st.mem.alloc(n as usize, true)))
}
fn b_alloc(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 0));
    do_alloc(e, st, n)
}
fn b_calloc(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 0)) * tr!(a64(e, st, a, 1));
    do_alloc(e, st, n)
}
fn b_posix_memalign(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let n = tr!(a64(e, st, a, 2));
    let m = st.mem.alloc(n as usize, true);
    tr!(e.write_int(st, p, 8, &Val::C(m)));
    Act::V(Val::C(0))
}
fn free_obj(e: &mut Engine, st: &mut State, p: u64) -> Result<(), Kill> {
    let id = (p >> 32) as u32;
    match st.mem.get(id) {
        Some(o) if o.heap && p & 0xffff_ffff == 0 => {
            st.mem.free(id);
            st.mem.live_heap = st.mem.live_heap.wrapping_sub(1);
            Ok(())
        }
        _ => Err(e.oob(st, p, 0, "free")),
    }
}
fn b_dealloc(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    if p == 0 {
        return Act::Void;
    }
    tr!(free_obj(e, st, p));
    Act::Void
}
fn b_realloc(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    // __rust_realloc(ptr, old, align, new)
    let p = tr!(a64(e, st, a, 0));
    let n = tr!(a64(e, st, a, 3));
    realloc(e, st, p, n)
}
fn b_crealloc(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let n = tr!(a64(e, st, a, 1));
    if p == 0 {
        return do_alloc(e, st, n);
    }
    realloc(e, st, p, n)
}
fn realloc(e: &mut Engine, st: &mut State, p: u64, n: u64) -> Act {
    if n > MAX_ALLOC {
        return Act::V(Val::C(0));
    }
    let id = (p >> 32) as u32;
    let old = match st.mem.get(id) {
        Some(o) => o.data.len() as u64,
        None => return Act::Kill(e.oob(st, p, 0, "realloc")),
    };
    let q = st.mem.alloc(n as usize, true);
    tr!(e.copy_mem(st, q, p, old.min(n) as usize));
    tr!(free_obj(e, st, p));
    Act::V(Val::C(q))
}
fn b_void(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Void
}
fn b_zero(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(0))
}
fn b_one(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(1))
}
fn b_neg32(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(0xffff_ffff))
}
fn b_oom(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Violation("allocation-failure".into(), "unbounded allocation requested".into()))
}

// ---------- memory functions ----------
fn b_memcpy(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 2)) as usize;
    if n == 0 {
        return ret_ptr(a, c);
    }
    let d = tr!(a64(e, st, a, 0));
    let s = match &a[1] {
        Val::C(c) => *c,
        Val::S(_) if n <= 16 && n.is_power_of_two() => {
            // small constant-size copy from a symbolic address: treat it as a load
            let t = e.ir.ty(TyK::Int(8 * n as u16));
            let v = tr!(e.load_sym(st, t, &a[1]));
            tr!(e.write_int(st, d, n, &v));
            return ret_ptr(a, c);
        }
        _ => tr!(a64(e, st, a, 1)),
    };
    tr!(e.copy_mem(st, d, s, n));
    ret_ptr(a, c)
}
fn ret_ptr(a: &[Val], c: &CallI) -> Act {
    if c.dst != u32::MAX {
        Act::V(a[0].clone())
    } else {
        Act::Void
    }
}
fn b_memset(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 2)) as usize;
    if n == 0 {
        return ret_ptr(a, c);
    }
    let d = tr!(a64(e, st, a, 0));
    let (id, off) = tr!(e.check_range(st, d, n, "write"));
    let v = match &a[1] {
        Val::S(x) => {
            let x = e.ar.trunc(*x, 8);
            e.val(x)
        }
        v => Val::C(Engine::conc(v).unwrap() as u64 & 0xff),
    };
    let o = st.mem.get_mut(id).unwrap();
    if o.ro {
        return Act::Kill(Kill::Violation("memory-safety".into(), "memset of a constant".into()));
    }
    match v {
        Val::C(b) => {
            o.data[off..off + n].fill(b as u8);
            if !o.sym.is_empty() {
                o.sym[off..off + n].fill(0);
            }
        }
        Val::S(x) => {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n].fill(x);
        }
        _ => {}
    }
    ret_ptr(a, c)
}
fn b_memcmp(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    memcmp(e, st, a, false)
}
fn b_bcmp(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    memcmp(e, st, a, true)
}
fn memcmp(e: &mut Engine, st: &mut State, a: &[Val], eqonly: bool) -> Act {
    let n = tr!(a64(e, st, a, 2)) as usize;
    if n == 0 {
        return Act::V(Val::C(0));
    }
    let p = tr!(a64(e, st, a, 0));
    let q = tr!(a64(e, st, a, 1));
    let (pi, po) = tr!(e.check_range(st, p, n, "read"));
    let (qi, qo) = tr!(e.check_range(st, q, n, "read"));
    let (x, y) = (st.mem.get(pi).unwrap(), st.mem.get(qi).unwrap());
    let xs = !x.sym.is_empty() && x.sym[po..po + n].iter().any(|v| *v != 0);
    let ys = !y.sym.is_empty() && y.sym[qo..qo + n].iter().any(|v| *v != 0);
    if !xs && !ys {
        let r = x.data[po..po + n].cmp(&y.data[qo..qo + n]);
        return Act::V(Val::C(match r {
            std::cmp::Ordering::Less => 0xffff_ffff,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        }));
    }
    let one = |o: &Obj, i: usize| -> (E, u8) { (if o.sym.is_empty() { 0 } else { o.sym[i] }, o.data[i]) };
    let pairs: Vec<((E, u8), (E, u8))> = (0..n).map(|i| (one(x, po + i), one(y, qo + i))).collect();
    let ar = &mut e.ar;
    let mut r = ar.cst(0, 32);
    if eqonly {
        let mut all = ar.cst(1, 1);
        for (u, v) in pairs {
            let (u, v) = (if u.0 != 0 { u.0 } else { ar.cst(u.1 as u128, 8) }, if v.0 != 0 { v.0 } else { ar.cst(v.1 as u128, 8) });
            let q = ar.eq(u, v);
            all = ar.and(all, q);
        }
        let nall = ar.not(all);
        let r = ar.zext(nall, 32);
        return Act::V(e.val(r));
    }
    for (u, v) in pairs.into_iter().rev() {
        if u.0 == v.0 && (u.0 != 0 || u.1 == v.1) {
            continue;
        }
        let (u, v) = (if u.0 != 0 { u.0 } else { ar.cst(u.1 as u128, 8) }, if v.0 != 0 { v.0 } else { ar.cst(v.1 as u128, 8) });
        let q = ar.eq(u, v);
        let lt = ar.bin(Op::Ult, u, v);
        let (m1, p1) = (ar.cst(0xffff_ffff, 32), ar.cst(1, 32));
        let d = ar.ite(lt, m1, p1);
        r = ar.ite(q, r, d);
    }
    Act::V(e.val(r))
}
fn b_strlen(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let mut n = 0;
    loop {
        let v = tr!(e.read_int(st, p + n, 1));
        let b = tr!(e.concretize(st, &v, 8));
        if b == 0 {
            break;
        }
        n += 1;
    }
    Act::V(Val::C(n))
}
fn b_memchr(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let ch = tr!(a64(e, st, a, 1)) & 0xff;
    let n = tr!(a64(e, st, a, 2));
    for i in 0..n {
        let v = tr!(e.read_int(st, p + i, 1));
        let eq = e.icmp(Pred::Eq, 8, &v, &Val::C(ch));
        if tr!(e.concretize(st, &eq, 1)) == 1 {
            return Act::V(Val::C(p + i));
        }
    }
    Act::V(Val::C(0))
}

// ---------- panics and unwinding ----------
fn location(e: &mut Engine, st: &mut State, p: u64) -> String {
    let r = (|| -> Result<String, Kill> {
        let f = e.read_int(st, p, 8)?;
        let l = e.read_int(st, p + 8, 8)?;
        let ln = e.read_int(st, p + 16, 4)?;
        let (f, l, ln) = (Engine::conc(&f).unwrap_or(0) as u64, Engine::conc(&l).unwrap_or(0) as u64, Engine::conc(&ln).unwrap_or(0));
        if l > 1000 {
            return Ok(String::new());
        }
        let s = cstr(e, st, f, l)?;
        let s = s.trim_end_matches('\0').to_string();
        Ok(format!("{}:{}", s, ln))
    })();
    r.unwrap_or_default()
}
fn do_panic(e: &mut Engine, st: &mut State, what: &str, loc: u64) -> Act {
    if e.has_catch(st) {
        let at = if loc != 0 { location(e, st, loc) } else { String::new() };
        if st.notes.len() < 200 {
            st.notes.push(format!("caught panic at {}", at));
        }
        if let Some(d) = e.ir.find_func(0, b"sym_panic_entry") {
            let f = e.func(d, b"sym_panic_entry");
            e.push_frame(st, f, &[]);
            return Act::Moved;
        }
    }
    let at = if loc != 0 { location(e, st, loc) } else { String::new() };
    Act::Kill(Kill::Violation("panic".into(), format!("{} at {}", what, at)))
}
fn b_panic_fmt(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let loc = a.last().and_then(Engine::conc).unwrap_or(0) as u64;
    do_panic(e, st, "panic", loc)
}
fn b_panic_nounwind(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Violation("abort".into(), "panic in a function that cannot unwind".into()))
}
fn b_abort(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Violation("abort".into(), "process aborted".into()))
}
fn b_exit(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Violation("abort".into(), "process exit".into()))
}
fn b_raise(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let x = tr!(a64(e, st, a, 0));
    e.unwind(st, x)
}

// ---------- threads, futex, time ----------
fn b_pthread_create(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let tp = tr!(a64(e, st, a, 0));
    let f = tr!(a64(e, st, a, 2));
    let id = st.threads.len();
    let Some(Target::F(fun)) = e.fn_at(f, 1) else { return Act::Kill(Kill::Error("thread entry".into())) };
    let mut t = new_thread();
    t.stat = TStat::Run;
    st.threads.push(t);
    let cur = st.cur;
    st.cur = id;
    e.push_frame(st, fun, &[a[3].clone()]);
    st.cur = cur;
    tr!(e.write_int(st, tp, 8, &Val::C(id as u64 + 1)));
    Act::V(Val::C(0))
}
fn b_pthread_join(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let t = tr!(a64(e, st, a, 0)) as usize - 1;
    if st.threads[t].stat == TStat::Done {
        return Act::V(Val::C(0));
    }
    let c = st.cur;
    st.threads[c].stat = TStat::Join(t);
    Act::Block
}
fn b_pthread_self(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(st.cur as u64 + 1))
}
fn b_yield(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Yield(Val::C(0))
}
fn b_clock_gettime(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 1));
    st.clock += st.clock_step;
    let c = st.clock;
    tr!(e.write_int(st, p, 8, &Val::C(c / 1_000_000_000)));
    tr!(e.write_int(st, p + 8, 8, &Val::C(c % 1_000_000_000)));
    Act::V(Val::C(0))
}
fn b_nanosleep(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    // clock_nanosleep(clock, flags, req, rem)
    let cur = st.cur;
    if st.threads[cur].woken & 2 != 0 {
        st.threads[cur].woken &= !3;
        return Act::V(Val::C(0));
    }
    let fl = tr!(a64(e, st, a, 1));
    let p = tr!(a64(e, st, a, 2));
    let s = tr!(e.read_int(st, p, 8));
    let n = tr!(e.read_int(st, p + 8, 8));
    let d = (Engine::conc(&s).unwrap_or(0) as u64).saturating_mul(1_000_000_000).saturating_add(Engine::conc(&n).unwrap_or(0) as u64);
    let d = if fl & 1 == 1 { d } else { st.clock.saturating_add(d) };
    st.threads[cur].stat = TStat::Sleep(d);
    Act::Block
}
fn b_nanosleep2(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    b_nanosleep(e, st, &[Val::C(1), Val::C(0), a[0].clone(), a[1].clone()], c)
}
fn set_errno(e: &mut Engine, st: &mut State, v: u64) -> Result<(), Kill> {
    let p = errno_ptr(st);
    e.write_int(st, p, 4, &Val::C(v))
}
fn errno_ptr(st: &mut State) -> u64 {
    let c = st.cur;
    if st.threads[c].errno == 0 {
        let a = st.mem.alloc(4, false);
        st.threads[c].errno = a;
    }
    st.threads[c].errno
}
fn b_errno(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(errno_ptr(st)))
}
fn b_syscall(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 0));
    match n {
        202 => {
            let addr = tr!(a64(e, st, a, 1));
            let op = tr!(a64(e, st, a, 2)) & 0x7f;
            let val = tr!(a64(e, st, a, 3));
            match op {
                0 | 9 => {
                    let cur = st.cur;
                    let w = st.threads[cur].woken & 3;
                    if w != 0 {
                        st.threads[cur].woken &= !3;
                        if w & 1 == 0 {
                            tr!(set_errno(e, st, 110));
                            return Act::V(Val::C(u64::MAX));
                        }
                        return Act::V(Val::C(0));
                    }
                    let v = tr!(e.read_int(st, addr, 4));
                    let v = tr!(e.concretize(st, &v, 32)) as u64;
                    if v != val & 0xffff_ffff {
                        tr!(set_errno(e, st, 11));
                        return Act::V(Val::C(u64::MAX));
                    }
                    let ts = tr!(a64(e, st, a, 4));
                    let mut dl = u64::MAX;
                    if ts != 0 {
                        let s = tr!(e.read_int(st, ts, 8));
                        let ns = tr!(e.read_int(st, ts + 8, 8));
                        let d = (Engine::conc(&s).unwrap_or(0) as u64).saturating_mul(1_000_000_000).saturating_add(Engine::conc(&ns).unwrap_or(0) as u64);
                        dl = if op == 9 { d } else { st.clock.saturating_add(d) };
                        if dl == u64::MAX {
                            dl -= 1;
                        }
                    }
                    st.threads[cur].stat = TStat::Futex(addr, dl);
                    Act::Block
                }
                1 | 10 => {
                    let mut k = 0;
                    for t in st.threads.iter_mut() {
                        if k >= val & 0x7fff_ffff {
                            break;
                        }
                        if let TStat::Futex(ad, _) = t.stat {
                            if ad == addr {
                                t.stat = TStat::Run;
                                t.woken |= 1;
                                k += 1;
                            }
                        }
                    }
                    Act::V(Val::C(k))
                }
                _ => Act::Kill(Kill::Error(format!("futex op {}", op))),
            }
        }
        318 => {
            // getrandom: zeros
            let p = tr!(a64(e, st, a, 1));
            let l = tr!(a64(e, st, a, 2));
                        for i in 0..l {
                tr!(e.write_int(st, p + i, 1, &Val::C((i * 37 + 11) & 0xff)));
            }
            Act::V(Val::C(l))
        }
        186 => Act::V(Val::C(1000 + st.cur as u64)),
        332 | 326 | 316 => {
            tr!(set_errno(e, st, 38));
            Act::V(Val::C(u64::MAX))
        }
        _ => Act::Kill(Kill::Error(format!("syscall {}", n))),
    }
}
fn b_getrandom(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    let l = tr!(a64(e, st, a, 1));
    for i in 0..l {
        tr!(e.write_int(st, p + i, 1, &Val::C((i * 37 + 11) & 0xff)));
    }
    Act::V(Val::C(l))
}
fn b_sysconf(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let n = tr!(a64(e, st, a, 0)) as u32;
    Act::V(Val::C(match n {
        30 => 4096,
        83 | 84 => 2,
        _ => u64::MAX,
    }))
}
fn b_affinity(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 2));
    tr!(e.write_int(st, p, 1, &Val::C(3)));
    Act::V(Val::C(0))
}
fn b_strerror(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 1));
    for (i, b) in b"error\0".iter().enumerate() {
        tr!(e.write_int(st, p + i as u64, 1, &Val::C(*b as u64)));
    }
    Act::V(Val::C(0))
}
fn b_minstack(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(16384))
}
fn b_gettid(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(1000 + st.cur as u64))
}
fn b_enoent(e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    tr!(set_errno(e, st, 2));
    Act::V(Val::C(u64::MAX))
}
fn b_key_create(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    st.fresh += 1;
    let k = st.fresh as u64;
    tr!(e.write_int(st, p, 4, &Val::C(k)));
    Act::V(Val::C(0))
}
fn b_setspecific(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let k = tr!(a64(e, st, a, 0));
    let v = tr!(a64(e, st, a, 1));
    let c = st.cur;
    st.threads[c].rsv.insert(k, v);
    Act::V(Val::C(0))
}
fn b_getspecific(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let k = tr!(a64(e, st, a, 0));
    let c = st.cur;
    Act::V(Val::C(st.threads[c].rsv.get(&k).copied().unwrap_or(0)))
}
// epoll: descriptors are numbers; an eventfd write wakes every waiter
fn b_fd(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    st.fresh += 1;
    Act::V(Val::C(500 + st.fresh as u64))
}
fn b_epoll_wait(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let cur = st.cur;
    let w = st.threads[cur].woken & 3;
    if w != 0 {
        st.threads[cur].woken &= !3;
        return Act::V(Val::C(0));
    }
    let t = tr!(a64(e, st, a, 3)) as u32 as i32;
    if t == 0 {
        return Act::V(Val::C(0));
    }
    let d = if t < 0 { u64::MAX } else { st.clock + t as u64 * 1_000_000 };
    st.threads[cur].stat = TStat::Epoll(d);
    Act::Block
}

// ---------- formatting of symbolic numbers ----------
/// Display of a symbolic integer would fork on every digit; unless exact formatting is requested, the text is that of
/// the current witness.
fn f_fmt_int(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI, f: F) -> Act {
    if !st.exact_fmt {
        if let Val::C(p) = a[0] {
            let id = (p >> 32) as u32;
            if let Some(o) = st.mem.get(id) {
                let off = (p & 0xffff_ffff) as usize;
                let n = (o.data.len() - off.min(o.data.len())).min(16);
                if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) {
                    let mut d = o.data[off..off + n].to_vec();
                    let sy: Vec<E> = o.sym[off..off + n].to_vec();
                    for i in 0..n {
                        if sy[i] != 0 {
                            d[i] = e.eval_model(st, sy[i]) as u8;
                        }
                    }
                    let q = st.mem.alloc(n, false);
                    st.mem.put((q >> 32) as u32, Obj { data: d, sym: vec![], ro: false, heap: false });
                    let mut b = a.to_vec();
                    b[0] = Val::C(q);
                    e.push_frame(st, f, &b);
                    return Act::Moved;
                }
            }
        } else if let Val::S(x) = a[0] {
            // by value
            let v = e.eval_model(st, x);
            let mut b = a.to_vec();
            let w = e.ar.w(x);
            b[0] = mkc(v, w);
            e.push_frame(st, f, &b);
            return Act::Moved;
        }
    }
    e.push_frame(st, f, a);
    Act::Moved
}
fn b_const_hash(_e: &mut Engine, st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(st.const_hash as u64))
}
fn sym_const_hash(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    st.const_hash = tr!(a64(e, st, a, 0)) != 0;
    Act::Void
}

// ---------- intrinsics ----------
fn suffix_w(n: &str) -> u16 {
    // width of a trailing .iN / .fN
    let t = n.rsplit('.').next().unwrap_or("");
    t.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(64)
}
fn aw(e: &Engine, c: &CallI, i: usize) -> u16 {
    e.ir.bits(c.args[i].1)
}
fn elementwise(e: &mut Engine, a: &[Val], c: &CallI, nargs: usize, f: &dyn Fn(&mut Engine, &[Val], u16) -> Result<Val, Kill>) -> Act {
    if let Val::Agg(x) = &a[0] {
        let et = match e.ir.ti(c.args[0].1).k {
            TyK::Vec(_, t) => t,
            _ => return Act::Kill(Kill::Error("intrinsic on aggregate".into())),
        };
        let w = e.ir.bits(et);
        let mut out = vec![];
        for i in 0..x.len() {
            let mut v = vec![];
            for y in a.iter().take(nargs) {
                v.push(match y {
                    Val::Agg(z) => z[i].clone(),
                    o => o.clone(),
                });
            }
            out.push(tr!(f(e, &v, w)));
        }
        return Act::V(Val::Agg(Rc::new(out)));
    }
    let w = aw(e, c, 0);
    match f(e, a, w) {
        Ok(v) => Act::V(v),
        Err(k) => Act::Kill(k),
    }
}
fn sel(e: &mut Engine, c: &Val, a: &Val, b: &Val, w: u16) -> Result<Val, Kill> {
    Ok(match c {
        Val::C(0) => b.clone(),
        Val::C(_) => a.clone(),
        Val::S(x) => {
            let (p, q) = (e.e(a, w), e.e(b, w));
            let r = e.ar.ite(*x, p, q);
            e.val(r)
        }
        _ => return Err(Kill::Error("sel".into())),
    })
}
macro_rules! minmax {
    ($n:ident, $p:expr) => {
        fn $n(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
            elementwise(e, a, c, 2, &|e, v, w| {
                let k = e.icmp($p, w, &v[0], &v[1]);
                sel(e, &k, &v[0], &v[1], w)
            })
        }
    };
}
minmax!(i_umin, Pred::Ult);
minmax!(i_umax, Pred::Ugt);
minmax!(i_smin, Pred::Slt);
minmax!(i_smax, Pred::Sgt);

fn ovf(e: &mut Engine, op: u8, w: u16, x: &Val, y: &Val) -> Result<(Val, Val), Kill> {
    // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    let bop = match op % 3 {
        0 => BinOp::Add,
        1 => BinOp::Sub,
        _ => BinOp::Mul,
    };
    let r = e.bin(bop, w, false, x, y)?;
    if let (Some(a), Some(b)) = (Engine::conc(x), Engine::conc(y)) {
        let o = match op {
            0 => a.checked_add(b).map(|v| v > mask(w)).unwrap_or(true),
            1 => a < b,
            2 => a.checked_mul(b).map(|v| v > mask(w)).unwrap_or(true),
            _ => {
                let (p, q) = (sx(a, w), sx(b, w));
                let v = match op {
                    3 => p.checked_add(q),
                    4 => p.checked_sub(q),
                    _ => p.checked_mul(q),
                };
                match v {
                    None => true,
                    Some(v) => sx(v as u128 & mask(w), w) != v,
                }
            }
        };
        return Ok((r, Val::C(o as u64)));
    }
    let o = match op {
        0 => e.icmp(Pred::Ult, w, &r, x),
        1 => e.icmp(Pred::Ult, w, x, y),
        2 => {
            if w > 64 {
                // only products of 64-bit values are supported symbolically
                return Err(Kill::Error("wide umul.with.overflow".into()));
            }
            let (p, q) = (e.e(x, w), e.e(y, w));
            let (p, q) = (e.ar.zext(p, 2 * w), e.ar.zext(q, 2 * w));
            let m = e.ar.bin(Op::Mul, p, q);
            let h = e.ar.extract(m, w, w);
            let z = e.ar.eqc(h, 0);
            let nz = e.ar.not(z);
            e.val(nz)
        }
        3 | 4 => {
            if w >= 128 {
                // sign rule
                let (p, q, s) = (e.e(x, w), e.e(y, w), e.e(&r, w));
                let (ps, qs, ss) = (e.ar.extract(p, w - 1, 1), e.ar.extract(q, w - 1, 1), e.ar.extract(s, w - 1, 1));
                let qs = if op == 4 { e.ar.not(qs) } else { qs };
                let same = e.ar.eq(ps, qs);
                let d = e.ar.eq(ps, ss);
                let d = e.ar.not(d);
                let o = e.ar.and(same, d);
                return Ok((r, e.val(o)));
            }
            let (p, q) = (e.e(x, w), e.e(y, w));
            let (p, q) = (e.ar.sext(p, w + 1), e.ar.sext(q, w + 1));
            let m = e.ar.bin(if op == 3 { Op::Add } else { Op::Sub }, p, q);
            let h = e.ar.extract(m, w, 1);
            let l = e.ar.extract(m, w - 1, 1);
            let z = e.ar.eq(h, l);
            let nz = e.ar.not(z);
            e.val(nz)
        }
        _ => {
            if w > 64 {
                return Err(Kill::Error("wide smul.with.overflow".into()));
            }
            let (p, q) = (e.e(x, w), e.e(y, w));
            let (p, q) = (e.ar.sext(p, 2 * w), e.ar.sext(q, 2 * w));
            let m = e.ar.bin(Op::Mul, p, q);
            let l = e.ar.extract(m, 0, w);
            let s = e.ar.sext(l, 2 * w);
            let z = e.ar.eq(s, m);
            let nz = e.ar.not(z);
            e.val(nz)
        }
    };
    Ok((r, o))
}
macro_rules! overflow {
    ($n:ident, $k:expr) => {
        fn $n(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
            let w = aw(e, c, 0);
            let (r, o) = tr!(ovf(e, $k, w, &a[0], &a[1]));
            Act::V(Val::Agg(Rc::new(vec![r, o])))
        }
    };
}
overflow!(i_uadd_o, 0);
overflow!(i_usub_o, 1);
overflow!(i_umul_o, 2);
overflow!(i_sadd_o, 3);
overflow!(i_ssub_o, 4);
overflow!(i_smul_o, 5);
macro_rules! sat {
    ($n:ident, $k:expr) => {
        fn $n(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
            elementwise(e, a, c, 2, &|e, v, w| {
                let (r, o) = ovf(e, $k, w, &v[0], &v[1])?;
                let lim = match $k {
                    0 => mkc(mask(w), w),
                    1 => mkc(0, w),
                    _ => {
                        let neg = e.icmp(Pred::Slt, w, &v[0], &mkc(0, w));
                        sel(e, &neg, &mkc(1u128 << (w - 1), w), &mkc(mask(w) >> 1, w), w)?
                    }
                };
                sel(e, &o, &lim, &r, w)
            })
        }
    };
}
sat!(i_uadd_s, 0);
sat!(i_usub_s, 1);
sat!(i_sadd_s, 3);
sat!(i_ssub_s, 4);

fn i_ctpop(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(x.count_ones() as u128, w));
        }
        let x = e.e(&v[0], w);
        let mut r = e.ar.cst(0, w);
        for i in 0..w {
            let b = e.ar.extract(x, i, 1);
            let z = e.ar.zext(b, w);
            r = e.ar.bin(Op::Add, r, z);
        }
        Ok(e.val(r))
    })
}
fn i_ctlz(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 2, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc((x.leading_zeros() as u128) - (128 - w as u128), w));
        }
        let x = e.e(&v[0], w);
        let mut r = e.ar.cst(w as u128, w);
        for i in 0..w {
            let b = e.ar.extract(x, i, 1);
            let k = e.ar.cst((w - 1 - i) as u128, w);
            r = e.ar.ite(b, k, r);
        }
        Ok(e.val(r))
    })
}
fn i_cttz(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 2, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, w));
        }
        let x = e.e(&v[0], w);
        let mut r = e.ar.cst(w as u128, w);
        for i in (0..w).rev() {
            let b = e.ar.extract(x, i, 1);
            let k = e.ar.cst(i as u128, w);
            r = e.ar.ite(b, k, r);
        }
        Ok(e.val(r))
    })
}
fn i_bswap(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(x.swap_bytes() >> (128 - w as u32), w));
        }
        let x = e.e(&v[0], w);
        let mut r = e.ar.extract(x, 0, 8);
        for i in 1..w / 8 {
            let b = e.ar.extract(x, 8 * i, 8);
            r = e.ar.concat(r, b);
        }
        Ok(e.val(r))
    })
}
fn i_bitrev(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(x.reverse_bits() >> (128 - w as u32), w));
        }
        let x = e.e(&v[0], w);
        let mut r = e.ar.extract(x, 0, 1);
        for i in 1..w {
            let b = e.ar.extract(x, i, 1);
            r = e.ar.concat(r, b);
        }
        Ok(e.val(r))
    })
}
fn fsh(e: &mut Engine, a: &[Val], c: &CallI, left: bool) -> Act {
    elementwise(e, a, c, 3, &|e, v, w| {
        if let (Some(x), Some(y), Some(s)) = (Engine::conc(&v[0]), Engine::conc(&v[1]), Engine::conc(&v[2])) {
            let s = (s % w as u128) as u32;
            let w32 = w as u32;
            let r = if left {
                if s == 0 {
                    x
                } else {
                    ((x << s) | (y >> (w32 - s))) & mask(w)
                }
            } else if s == 0 {
                y
            } else {
                ((x << (w32 - s)) | (y >> s)) & mask(w)
            };
            return Ok(mkc(r, w));
        }
        let (x, y) = (e.e(&v[0], w), e.e(&v[1], w));
        if let Some(s) = Engine::conc(&v[2]) {
            let s = (s % w as u128) as u16;
            let s = if left { s } else { (w - s) % w };
            // left funnel by s
            if s == 0 {
                return Ok(e.val(if left { x } else { y }));
            }
            let h = e.ar.extract(x, 0, w - s);
            let l = e.ar.extract(y, w - s, s);
            let r = e.ar.concat(h, l);
            return Ok(e.val(r));
        }
        let s = e.e(&v[2], w);
        let wc = e.ar.cst(w as u128, w);
        let s = e.ar.bin(Op::URem, s, wc);
        let d = e.ar.bin(Op::Sub, wc, s);
        let (p, q, z) = if left {
            (e.ar.bin(Op::Shl, x, s), e.ar.bin(Op::LShr, y, d), x)
        } else {
            (e.ar.bin(Op::Shl, x, d), e.ar.bin(Op::LShr, y, s), y)
        };
        let r = e.ar.bin(Op::Or, p, q);
        let is0 = e.ar.eqc(s, 0);
        let r = e.ar.ite(is0, z, r);
        Ok(e.val(r))
    })
}
fn i_fshl(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fsh(e, a, c, true)
}
fn i_fshr(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fsh(e, a, c, false)
}
fn i_abs(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        let n = e.icmp(Pred::Slt, w, &v[0], &mkc(0, w));
        let m = e.bin(BinOp::Sub, w, false, &mkc(0, w), &v[0])?;
        sel(e, &n, &m, &v[0], w)
    })
}
fn cmp3(e: &mut Engine, a: &[Val], c: &CallI, lt: Pred, gt: Pred) -> Act {
    let rw = e.ir.bits(c.ret);
    let w = aw(e, c, 0);
    let l = e.icmp(lt, w, &a[0], &a[1]);
    let g = e.icmp(gt, w, &a[0], &a[1]);
    let x = tr!(sel(e, &g, &mkc(1, rw), &mkc(0, rw), rw));
    let r = tr!(sel(e, &l, &mkc(mask(rw), rw), &x, rw));
    Act::V(r)
}
fn i_ucmp(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    cmp3(e, a, c, Pred::Ult, Pred::Ugt)
}
fn i_scmp(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    cmp3(e, a, c, Pred::Slt, Pred::Sgt)
}
fn i_id(_e: &mut Engine, _st: &mut State, a: &[Val], _c: &CallI) -> Act {
    Act::V(a[0].clone())
}
fn i_is_constant(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(0))
}
fn i_threadlocal(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let g = tr!(a64(e, st, a, 0));
    Act::V(Val::C(e.tls_addr(st, g)))
}
fn i_load_relative(e: &mut Engine, st: &mut State, a: &[Val], c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 0));
    if let Val::C(o) = a[1] {
        let o = o as i64;
        let v = tr!(e.read_int(st, p.wrapping_add(o as u64), 4));
        let r = Engine::conc(&v).unwrap_or(0) as u32 as i32 as i64;
        if r >= 0x4000_0000 {
            if let Some(d) = e.ir.rel.get((r & 0x3fff_ffff) as usize) {
                return Act::V(Val::C(p.wrapping_add(*d)));
            }
        }
        return Act::V(Val::C(p.wrapping_add(r as u64)));
    }
    let o = tr!(a64(e, st, a, 1));
    i_load_relative(e, st, &[Val::C(p), Val::C(o)], c)
}
fn i_trap(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::Kill(Kill::Violation("abort".into(), "trap".into()))
}
fn i_fabs(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| e.bin(BinOp::And, w, false, &v[0], &mkc(mask(w) >> 1, w)))
}
fn i_copysign(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 2, &|e, v, w| {
        let m = e.bin(BinOp::And, w, false, &v[0], &mkc(mask(w) >> 1, w))?;
        let s = e.bin(BinOp::And, w, false, &v[1], &mkc(1u128 << (w - 1), w))?;
        e.bin(BinOp::Or, w, false, &m, &s)
    })
}
fn fround(e: &mut Engine, a: &[Val], c: &CallI, m: u32) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(feval(Op::FRound, w, w, x, 0, m), w));
        }
        let x = e.e(&v[0], w);
        let r = e.ar.fop(Op::FRound, w, x, m);
        Ok(e.val(r))
    })
}
fn i_floor(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fround(e, a, c, 0)
}
fn i_ceil(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fround(e, a, c, 1)
}
fn i_ftrunc(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fround(e, a, c, 2)
}
fn i_round(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fround(e, a, c, 3)
}
fn i_rint(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fround(e, a, c, 4)
}
fn i_sqrt(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    elementwise(e, a, c, 1, &|e, v, w| {
        if let Some(x) = Engine::conc(&v[0]) {
            return Ok(mkc(feval(Op::FSqrt, w, w, x, 0, 0), w));
        }
        let x = e.e(&v[0], w);
        let r = e.ar.fop(Op::FSqrt, w, x, 0);
        Ok(e.val(r))
    })
}
fn fminmax(e: &mut Engine, a: &[Val], c: &CallI, max: bool) -> Act {
    elementwise(e, a, c, 2, &|e, v, w| {
        let (x, y) = (e.e(&v[0], w), e.e(&v[1], w));
        let lt = if max { e.ar.fop(Op::FLt, 1, y, x) } else { e.ar.fop(Op::FLt, 1, x, y) };
        let ny = e.ar.fop(Op::FIsNan, 1, y, 0);
        let c = e.ar.or(lt, ny);
        let r = e.ar.ite(c, x, y);
        // x NaN: lt false, y returned; equal values (signed zeros): y returned
        Ok(e.val(r))
    })
}
fn i_fmin(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fminmax(e, a, c, false)
}
fn i_fmax(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fminmax(e, a, c, true)
}
fn i_fma(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let v: Vec<f64> = {
        let mut r = vec![];
        for i in 0..3 {
            let x = tr!(e.concretize(st, &a[i].clone(), 64));
            r.push(f64::from_bits(x as u64));
        }
        r
    };
    Act::V(Val::C(v[0].mul_add(v[1], v[2]).to_bits()))
}
fn fn1(e: &mut Engine, st: &mut State, a: &[Val], f: fn(f64) -> f64) -> Act {
    let x = tr!(e.concretize(st, &a[0].clone(), 64)) as u64;
    Act::V(Val::C(f(f64::from_bits(x)).to_bits()))
}
fn i_log10(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    fn1(e, st, a, f64::log10)
}
fn i_log2(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    fn1(e, st, a, f64::log2)
}
fn i_log(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    fn1(e, st, a, f64::ln)
}
fn i_exp(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    fn1(e, st, a, f64::exp)
}
fn i_pow(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let x = tr!(e.concretize(st, &a[0].clone(), 64)) as u64;
    let y = tr!(e.concretize(st, &a[1].clone(), 64)) as u64;
    Act::V(Val::C(f64::from_bits(x).powf(f64::from_bits(y)).to_bits()))
}
fn i_powi(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let x = tr!(e.concretize(st, &a[0].clone(), 64)) as u64;
    let y = tr!(e.concretize(st, &a[1].clone(), 32)) as u32 as i32;
    Act::V(Val::C(f64::from_bits(x).powi(y).to_bits()))
}
fn i_fptosi_sat(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fpsat(e, a, c, Op::FToSI)
}
fn i_fptoui_sat(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    fpsat(e, a, c, Op::FToUI)
}
fn fpsat(e: &mut Engine, a: &[Val], c: &CallI, op: Op) -> Act {
    let (fw, tw) = (aw(e, c, 0), e.ir.bits(c.ret));
    if let Some(x) = Engine::conc(&a[0]) {
        return Act::V(mkc(feval(op, tw, fw, x, 0, 0), tw));
    }
    let x = e.e(&a[0], fw);
    let r = e.ar.fop(op, tw, x, 0);
    Act::V(e.val(r))
}
fn i_fpclass(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    let w = aw(e, c, 0);
    let m = Engine::conc(&a[1]).unwrap() as u32;
    let (eb, mb) = match w {
        64 => (11, 52),
        32 => (8, 23),
        16 => (5, 10),
        _ => return Act::Kill(Kill::Error("fpclass width".into())),
    };
    let x = e.e(&a[0], w);
    let ar = &mut e.ar;
    let man = ar.extract(x, 0, mb);
    let ex = ar.extract(x, mb, eb);
    let sg = ar.extract(x, w - 1, 1);
    let qb = ar.extract(x, mb - 1, 1);
    let m0 = ar.eqc(man, 0);
    let e0 = ar.eqc(ex, 0);
    let e1 = ar.eqc(ex, mask(eb));
    let nm0 = ar.not(m0);
    let nan = ar.and(e1, nm0);
    let inf = ar.and(e1, m0);
    let zero = ar.and(e0, m0);
    let sub = ar.and(e0, nm0);
    let t = ar.or(e0, e1);
    let norm = ar.not(t);
    let nq = ar.not(qb);
    let pos = ar.not(sg);
    let classes = [
        ar.and(nan, nq),
        ar.and(nan, qb),
        ar.and(inf, sg),
        ar.and(norm, sg),
        ar.and(sub, sg),
        ar.and(zero, sg),
        ar.and(zero, pos),
        ar.and(sub, pos),
        ar.and(norm, pos),
        ar.and(inf, pos),
    ];
    let mut r = ar.cst(0, 1);
    for (i, k) in classes.iter().enumerate() {
        if m >> i & 1 == 1 {
            r = ar.or(r, *k);
        }
    }
    Act::V(e.val(r))
}
fn i_reduce(e: &mut Engine, _st: &mut State, a: &[Val], c: &CallI) -> Act {
    let n = match &c.callee {
        Callee::Direct(n) => String::from_utf8_lossy(n).to_string(),
        _ => String::new(),
    };
    let w = e.ir.bits(c.ret);
    let Val::Agg(x) = &a[0] else { return Act::Kill(Kill::Error("reduce".into())) };
    let mut r = x[0].clone();
    for y in x.iter().skip(1) {
        r = if n.contains(".or.") {
            tr!(e.bin(BinOp::Or, w, false, &r, y))
        } else if n.contains(".and.") {
            tr!(e.bin(BinOp::And, w, false, &r, y))
        } else if n.contains(".add.") {
            tr!(e.bin(BinOp::Add, w, false, &r, y))
        } else if n.contains(".xor.") {
            tr!(e.bin(BinOp::Xor, w, false, &r, y))
        } else if n.contains(".mul.") {
            tr!(e.bin(BinOp::Mul, w, false, &r, y))
        } else {
            let p = if n.contains("umax") {
                Pred::Ugt
            } else if n.contains("umin") {
                Pred::Ult
            } else if n.contains("smax") {
                Pred::Sgt
            } else {
                Pred::Slt
            };
            let k = e.icmp(p, w, &r, y);
            tr!(sel(e, &k, &r, y, w))
        };
    }
    Act::V(r)
}

pub fn intrinsic(n: &str) -> Option<Builtin> {
    if !n.starts_with("llvm.") {
        return None;
    }
    let b = &n[5..];
    let tab: &[(&str, Builtin)] = &[
        ("memcpy.", b_memcpy),
        ("memmove.", b_memcpy),
        ("memset.", b_memset),
        ("lifetime.", b_void),
        ("assume", b_void),
        ("experimental.noalias", b_void),
        ("dbg.", b_void),
        ("expect.", i_id),
        ("umin.", i_umin),
        ("umax.", i_umax),
        ("smin.", i_smin),
        ("smax.", i_smax),
        ("uadd.with", i_uadd_o),
        ("usub.with", i_usub_o),
        ("umul.with", i_umul_o),
        ("sadd.with", i_sadd_o),
        ("ssub.with", i_ssub_o),
        ("smul.with", i_smul_o),
        ("uadd.sat", i_uadd_s),
        ("usub.sat", i_usub_s),
        ("sadd.sat", i_sadd_s),
        ("ssub.sat", i_ssub_s),
        ("ctpop.", i_ctpop),
        ("ctlz.", i_ctlz),
        ("cttz.", i_cttz),
        ("bswap.", i_bswap),
        ("bitreverse.", i_bitrev),
        ("fshl.", i_fshl),
        ("fshr.", i_fshr),
        ("abs.", i_abs),
        ("ucmp.", i_ucmp),
        ("scmp.", i_scmp),
        ("threadlocal.address", i_threadlocal),
        ("load.relative", i_load_relative),
        ("is.constant", i_is_constant),
        ("trap", i_trap),
        ("fabs.", i_fabs),
        ("copysign.", i_copysign),
        ("floor.", i_floor),
        ("ceil.", i_ceil),
        ("trunc.", i_ftrunc),
        ("rint.", i_rint),
        ("nearbyint.", i_rint),
        ("roundeven.", i_rint),
        ("round.", i_round),
        ("sqrt.", i_sqrt),
        ("minnum.", i_fmin),
        ("maxnum.", i_fmax),
        ("minimumnum.", i_fmin),
        ("maximumnum.", i_fmax),
        ("fma.f64", i_fma),
        ("fmuladd.f64", i_fma),
        ("log10.f64", i_log10),
        ("log2.f64", i_log2),
        ("log.f64", i_log),
        ("exp.f64", i_exp),
        ("pow.f64", i_pow),
        ("powi.f64", i_powi),
        ("fptosi.sat", i_fptosi_sat),
        ("fptoui.sat", i_fptoui_sat),
        ("is.fpclass", i_fpclass),
        ("vector.reduce.", i_reduce),
        ("x86.sse2.pause", b_yield),
        ("ptrmask", i_ptrmask),
        ("prefetch", b_void),
    ];
    let _ = suffix_w;
    tab.iter().find(|(p, _)| b.starts_with(p)).map(|x| x.1)
}
fn i_ptrmask(e: &mut Engine, _st: &mut State, a: &[Val], _c: &CallI) -> Act {
    Act::V(tr!(e.bin(BinOp::And, 64, false, &a[0], &a[1])))
}

pub fn inline_asm(e: &mut Engine, st: &mut State, s: &str, a: &[Val], c: &CallI) -> Result<Val, Kill> {
    if s.contains("cpuid") {
        // no optional features
        return Ok(zero(&e.ir, c.ret));
    }
    if s.contains("rep movs") || s.contains("rep stos") {
        return Err(Kill::Error("inline asm string op".into()));
    }
    let _ = st;
    let trimmed = s.trim();
    if trimmed.is_empty() || trimmed.starts_with("/*") || trimmed.starts_with('#') {
        if c.ret == e.ir.t_void {
            return Ok(Val::C(0));
        }
        return Ok(a.first().cloned().unwrap_or(Val::C(0)));
    }
    Err(Kill::Error(format!("inline asm {:?}", s)))
}

pub fn overridable(n: &str) -> bool {
    matches!(
        n,
        "open" | "open64" | "read" | "pread64" | "write" | "pwrite64" | "writev" | "readv" | "pwritev" | "preadv" | "fsync" | "fdatasync" | "ftruncate64" | "lseek64" | "close" | "fstat64" | "stat64" | "lstat64" | "statx" | "unlink" | "mkdir" | "rename" | "fcntl" | "opendir" | "readdir64" | "closedir" | "rmdir" | "realpath" | "getcwd" | "fstatat64" | "unlinkat" | "openat64" | "fdopendir" | "dirfd" | "flock" | "copy_file_range"
    )
}

pub fn register(e: &mut Engine) {
    let t: &[(&'static str, Builtin)] = &[
        ("__sym_bytes", sym_bytes),
        ("__sym_assume", sym_assume),
        ("__sym_check", sym_check),
        ("__sym_cover", sym_cover),
        ("__sym_note", sym_note),
        ("__sym_concretize", sym_concretize),
        ("__sym_is_symbolic", sym_is_symbolic),
        ("__sym_explore", sym_explore),
        ("__sym_exact_fmt", sym_exact_fmt),
        ("__sym_clock", sym_clock),
        ("__sym_const_hash", b_const_hash),
        ("__sym_set_const_hash", sym_const_hash),
        ("__sym_engine", sym_yes),
        ("__sym_fail", sym_fail),
        ("__sym_stop", sym_stop),
        ("__sym_thread", sym_thread),
        ("malloc", b_alloc),
        ("calloc", b_calloc),
        ("free", b_dealloc),
        ("realloc", b_crealloc),
        ("posix_memalign", b_posix_memalign),
        ("memcpy", b_memcpy),
        ("memmove", b_memcpy),
        ("memset", b_memset),
        ("memcmp", b_memcmp),
        ("bcmp", b_bcmp),
        ("strlen", b_strlen),
        ("__xpg_strerror_r", b_strerror),
        ("memchr", b_memchr),
        ("abort", b_abort),
        ("_exit", b_exit),
        ("exit", b_exit),
        ("_Unwind_RaiseException", b_raise),
        ("_Unwind_DeleteException", b_void),
        ("pthread_create", b_pthread_create),
        ("pthread_join", b_pthread_join),
        ("pthread_detach", b_zero),
        ("pthread_self", b_pthread_self),
        ("pthread_attr_init", b_zero),
        ("pthread_attr_destroy", b_zero),
        ("pthread_attr_setstacksize", b_zero),
        ("pthread_attr_getstack", b_zero),
        ("pthread_attr_getguardsize", b_zero),
        ("pthread_getattr_np", b_one),
        ("pthread_setname_np", b_zero),
        ("pthread_sigmask", b_zero),
        ("pthread_key_create", b_key_create),
        ("pthread_key_delete", b_zero),
        ("pthread_setspecific", b_setspecific),
        ("pthread_getspecific", b_getspecific),
        ("__pthread_get_minstack", b_minstack),
        ("__cxa_thread_atexit_impl", b_zero),
        ("sigaltstack", b_zero),
        ("sigaction", b_zero),
        ("signal", b_zero),
        ("getauxval", b_zero),
        ("mmap", b_neg_ptr),
        ("mmap64", b_neg_ptr),
        ("munmap", b_zero),
        ("mprotect", b_zero),
        ("dl_iterate_phdr", b_zero),
        ("dlsym", b_zero),
        ("sched_yield", b_yield),
        ("clock_gettime", b_clock_gettime),
        ("clock_nanosleep", b_nanosleep),
        ("nanosleep", b_nanosleep2),
        ("__errno_location", b_errno),
        ("syscall", b_syscall),
        ("getrandom", b_getrandom),
        ("getenv", b_zero),
        ("sysconf", b_sysconf),
        ("sched_getaffinity", b_affinity),
        ("gettid", b_gettid),
        ("getpid", b_minstack),
        ("epoll_create1", b_fd),
        ("eventfd", b_fd),
        ("timerfd_create", b_fd),
        ("epoll_ctl", b_zero),
        ("epoll_wait", b_epoll_wait),
        ("ioctl", b_zero),
        ("poll", b_zero),
        ("close", b_zero),
        ("fcntl", b_fd),
        ("write", b_write_fd),
        ("read", b_enoent),
        ("pipe2", b_zero),
        ("socketpair", b_socketpair),
        ("open64", b_enoent),
        ("open", b_enoent),
        ("statx", b_enoent),
        ("stat64", b_enoent),
        ("lstat64", b_enoent),
        ("unlink", b_enoent),
        ("readlink", b_enoent),
        ("realpath", b_zero),
        ("getcwd", b_zero),
        ("mkdir", b_enoent),
        ("rename", b_enoent),
        ("rmdir", b_enoent),
        ("opendir", b_zero),
        ("pow", i_pow),
        ("exp", i_exp),
        ("log", i_log),
        ("log2", i_log2),
        ("log10", i_log10),
    ];
    for (n, b) in t {
        e.bt.insert(n, *b);
    }
    let p: &[(&'static [&'static str], Builtin)] = &[
        (&["7___rustc12___rust_alloc"], b_alloc),
        (&["7___rustc19___rust_alloc_zeroed"], b_alloc),
        (&["7___rustc14___rust_dealloc"], b_dealloc),
        (&["7___rustc14___rust_realloc"], b_realloc),
        (&["7___rustc35___rust_no_alloc_shim"], b_void),
        (&["4core9panicking9panic_fmt"], b_panic_fmt),
        (&["4core9panicking18panic_nounwind_fmt"], b_panic_nounwind),
        (&["4core9panicking14panic_nounwind"], b_panic_nounwind),
        (&["4core9panicking30panic_null_pointer_dereference"], b_panic_nounwind),
        (&["4core9panicking36panic_misaligned_pointer_dereference"], b_panic_nounwind),
        (&["4core9panicking19panic_cannot_unwind"], b_panic_nounwind),
        (&["4core9panicking16panic_in_cleanup"], b_panic_nounwind),
        (&["4core9panicking5panic"], b_panic_fmt),
        (&["4core9panicking18panic_bounds_check"], b_panic_fmt),
        (&["4core6option13unwrap_failed"], b_panic_fmt),
        (&["4core6option13expect_failed"], b_panic_fmt),
        (&["4core6result13unwrap_failed"], b_panic_fmt),
        (&["4core9panicking19assert_failed_inner"], b_panic_fmt),
        (&["5alloc5alloc18handle_alloc_error"], b_oom),
        (&["5alloc7raw_vec12handle_error"], b_oom),
        (&["5alloc7raw_vec17capacity_overflow"], b_oom),
        (&["3std7process5abort"], b_abort),
        (&["3std12backtrace_rs"], b_void),
    ];
    for x in p {
        e.pats.push(*x);
    }
    let f: &[(&'static [&'static str], BuiltinF)] = &[
        (&["4core3fmt3num3imp", "7Display3fmt"], f_fmt_int),
        (&["4core3fmt3num", "5Debug3fmt"], f_fmt_int),
        (&["4core3fmt3num", "8LowerHex3fmt"], f_fmt_int),
        (&["4core3fmt3num", "8UpperHex3fmt"], f_fmt_int),
        (&["4core3fmt5float", "7Display3fmt"], f_fmt_int),
        (&["4core3fmt5float", "5Debug3fmt"], f_fmt_int),
    ];
    for x in f {
        e.fpats.push(*x);
    }
}
fn b_neg_ptr(_e: &mut Engine, _st: &mut State, _a: &[Val], _c: &CallI) -> Act {
    Act::V(Val::C(u64::MAX))
}
fn b_write_fd(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let fd = tr!(a64(e, st, a, 0));
    let n = tr!(a64(e, st, a, 2));
    let p = tr!(a64(e, st, a, 1));
    if fd <= 2 {
        if e.opts.verbose {
            let s = tr!(cstr(e, st, p, n.min(2000)));
            eprint!("{}", s);
        }
        return Act::V(Val::C(n));
    }
    // eventfd: wake pollers
    for t in st.threads.iter_mut() {
        if let TStat::Epoll(_) = t.stat {
            t.stat = TStat::Run;
            t.woken |= 1;
        }
    }
    Act::V(Val::C(n))
}
fn b_socketpair(e: &mut Engine, st: &mut State, a: &[Val], _c: &CallI) -> Act {
    let p = tr!(a64(e, st, a, 3));
    st.fresh += 2;
    let f = st.fresh as u64;
    tr!(e.write_int(st, p, 4, &Val::C(500 + f)));
    tr!(e.write_int(st, p + 4, 4, &Val::C(501 + f)));
    let _ = b_neg32;
    Act::V(Val::C(0))
}
