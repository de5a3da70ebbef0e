//! Runs one harness entry natively on a recorded counterexample (plain text: name, hex per line).
#[cfg(not(symex))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (entry, file) = (&a[1], &a[2]);
    let mut v = vec![];
    for l in std::fs::read_to_string(file).unwrap().lines() {
        if l.starts_with('#') || l.is_empty() { continue; }
        let (n, h) = l.split_once('=').unwrap();
        v.push((n.to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
    }
    std::panic::set_hook(Box::new(|i| { println!("REPLAY: panic: {i}"); std::process::exit(1); }));
    vfh::vf::load(v);
    let f = vfh::entries().into_iter().find(|e| e.0 == entry.as_str()).expect("no such entry").1;
    f();
    println!("REPLAY: completed without a failure");
}
#[cfg(symex)]
fn main() {}
