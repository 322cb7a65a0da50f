#![allow(unreachable_patterns)]
mod alloc;
mod engine;
mod model;
mod prog;
mod props;
mod real;
mod refparse;

use engine::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if let Some(what) = get("--cold") { return props::cold(&what); }
    let prop = get("--prop").expect("--prop");
    let tier = match get("--tier").as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    let only = get("--only").map(|o| {
        let v: Vec<u64> = o.split(':').map(|x| x.parse().expect("--only f:j:c")).collect();
        (v[0] as usize, v[1] as usize, v[2])
    });
    let cfg = Config {
        tier,
        threads: get("--threads").map_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()), |t| t.parse().unwrap()),
        progress: get("--progress"),
        only,
        hang_s: get("--hang").map_or(30, |t| t.parse().unwrap()),
        deadline_s: get("--deadline").map_or(600, |t| t.parse().unwrap()),
    };
    let mut fams = props::families(&prop, tier);
    if let Some(f) = get("--family") { fams.retain(|x| x.name.contains(&f)); }
    let rep = explore(fams, &cfg);
    if a.iter().any(|x| x == "-v") {
        for f in &rep.families { eprintln!("{:>10} {:<28} {}", f.2, f.0, engine::clip(&f.1, 90)); }
        eprintln!("cases {} validated {} states {} steps {} outcomes {}", rep.cases, rep.validated, rep.states, rep.steps, rep.outcomes);
    }
    if cfg.only.is_some() {
        for v in &rep.violations { println!("VIOLATED {}\n  {}", v.desc, v.detail); }
        if rep.cases == 0 && rep.violations.is_empty() { println!("no such case"); }
    }
    let j = report_json(&rep);
    match get("--out") { Some(p) => std::fs::write(p, j).expect("report"), None => if cfg.only.is_none() { println!("{}", &j) } }
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}
