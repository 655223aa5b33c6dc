//! histories <seed> <from> <to>: runs these histories (in miri)
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut abandoned = 0;
    let mut types = std::collections::BTreeSet::new();
    for i in a[1]..a[2] {
        let mut x = a[0].wrapping_mul(0x9e3779b97f4a7c15) ^ (i + 1).wrapping_mul(0xd1342543de82ef95);
        let mut next = move |n: usize| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((x >> 33) as usize) % n };
        for _ in 0..4 { next(2); }
        println!("history {i}");
        match cursorlib::history(&mut next) {
            Ok(s) => { abandoned += s.abandoned as u64; types.insert(s.ty); }
            Err(b) => { println!("BAD {}\n{}", b.sig, b.msg); std::process::exit(1); }
        }
    }
    println!("DONE {} histories, {} abandoned, {} element types", a[2] - a[1], abandoned, types.len());
}
