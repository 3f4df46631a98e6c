//! kn NAME v1 v2 …   runs a harness on the bytes of a counterexample (each value in hex, least byte first)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--list" {
        for n in kn::names() {
            println!("{n}");
        }
        return;
    }
    let v = a[2..].iter().map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    if !kn::replay(&a[1], &mut kn::Bytes(v)) {
        println!("no such harness");
        std::process::exit(2);
    }
}
