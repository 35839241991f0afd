use crate::engine;
pub fn main() {
    main_with(vec![])
}
pub fn main_with(extra: Vec<engine::Prop>) {
    let a: Vec<String> = std::env::args().collect();
    let mut props = crate::p::all();
    props.extend(extra);
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => engine::run(find(&a[2])),
        Some("replay") => {
            let v: engine::Violation =
                serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            engine::replay(find(&v.property), &a[2])
        }
        // failed ID WHAT LOGFILE: a violation found while building
        Some("failed") => engine::failed(&a[2], &a[3], &a[4]),
        _ => {
            eprintln!("usage: mc run ID | mc replay FILE");
            2
        }
    };
    std::process::exit(code)
}
