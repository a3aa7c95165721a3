//! Native replay of a counterexample: replay HARNESS VECTOR-FILE
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = std::fs::read_to_string(&a[2]).unwrap();
    let v: Vec<Vec<u8>> = s
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| {
            let h = l.rsplit(' ').next().unwrap_or("");
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
        })
        .collect();
    fharness::sym::INPUTS.lock().unwrap().0 = v;
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i);
    }));
    match fharness::find(&a[1]) {
        Some(f) => {
            let r = std::panic::catch_unwind(|| f());
            if r.is_err() {
                println!("UNCAUGHT-PANIC");
                std::process::exit(11);
            }
            println!("COMPLETED");
        }
        None => {
            println!("NO-HARNESS");
            std::process::exit(12);
        }
    }
}
