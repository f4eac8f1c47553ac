//! kanichk CHECK BITS...   runs one check natively on the given bit patterns
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    let f = kanichk::CHECKS.iter().find(|c| c.0 == a[1]).unwrap().1;
    match std::panic::catch_unwind(|| f(&v)) {
        Ok(Ok(())) => println!("HOLDS"),
        Ok(Err(e)) => println!("VIOLATES {}", e),
        Err(_) => println!("VIOLATES panic"),
    }
}
