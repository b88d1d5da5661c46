//! runs pieces of the touch-everything workload one after another (for interpreters)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, from, to): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let set = a.get(4).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    let jobs = match &set[..] { "mini" => fv::touch::mini_jobs(), "long" => fv::touch::long_jobs(), _ => fv::touch::jobs() };
    for i in from..to {
        let (name, f) = jobs[i as usize % jobs.len()];
        let mut r = fv::rng::R::new(fv::rng::hash64(&[name.as_bytes(), &seed.to_le_bytes(), &i.to_le_bytes()]));
        let t = std::time::Instant::now();
        match fv::engine::guard(|| f(&mut r)) {
            Ok(Ok(n)) => println!("@ ok {} {} {} {:.1}", name, i, n, t.elapsed().as_secs_f64()),
            Ok(Err(e)) => println!("@ bad {} {} {}", name, i, e.replace('\n', " ")),
            Err(e) => println!("@ bad {} {} unexpected panic: {}", name, i, e.replace('\n', " ")),
        }
    }
    println!("@ end");
}
