//! Replays one assignment of the symbolic inputs against the service.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let mut m = std::collections::HashMap::new();
    for l in text.lines() {
        if let Some((k, v)) = l.split_once(' ') {
            m.insert(k.to_string(), v.parse::<u64>().expect("value"));
        }
    }
    tgsvc::vrt::set_inputs(m);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.to_string().replace('\n', " ");
        println!("PANIC {loc} {msg}");
        std::process::exit(12);
    }));
    for (n, f) in tgsvc::VENTRIES {
        if *n == a[1] {
            f();
            println!("DONE");
            return;
        }
    }
    println!("no such harness");
    std::process::exit(13);
}
