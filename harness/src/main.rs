mod alloc;
mod checks;
mod domain;
mod engine;
mod env;
mod explore;
mod low;
mod lowdom;
mod ops;
mod schema;
mod val;

use engine::*;

#[global_allocator]
static A: alloc::Track = alloc::Track;

fn usage() -> ! {
    eprintln!("usage: pfs-mc run <property> [quick|thorough] | replay <property> <tier> <job>:<case> | list");
    std::process::exit(2)
}
fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}
fn at(s: &str) -> (usize, usize) {
    let (a, b) = s.split_once(':').unwrap_or_else(|| usage());
    (a.parse().unwrap_or_else(|_| usage()), b.parse().unwrap_or_else(|_| usage()))
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| -> Check { checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| usage()) };
    match a.first().map(|s| s.as_str()) {
        Some("run") if a.len() >= 2 => {
            let t = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(supervise(&find(&a[1]), tier(&t)))
        }
        Some("child") if a.len() >= 4 => child(&find(&a[1]), tier(&a[2]), &a[3], a.get(4).map(|s| at(s))),
        Some("replay") if a.len() == 4 => std::process::exit(replay(&find(&a[1]), tier(&a[2]), at(&a[3]))),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => usage(),
    }
}
