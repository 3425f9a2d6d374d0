//! The part of the model checker that needs the build without the standard library of the bip324 workspace: see /verif/DESIGN.md.
#[path = "../../mc/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/fx.rs"]
mod fx;
#[path = "../../mc/src/refm.rs"]
mod refm;
#[path = "../../mc/src/vectors.rs"]
mod vectors;

macro_rules! checks {
    ($($m:ident),*) => {
        $(mod $m;)*
        fn build(id: &str, t: engine::Tier) -> Option<engine::Check> {
            $(if id.eq_ignore_ascii_case(stringify!($m)) { return Some($m::check(t)); })*
            None
        }
        const IDS: &[&str] = &[$(stringify!($m)),*];
    };
}
checks!(c26);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => {
            let t = match std::env::args().find(|x| x == "thorough") {
                Some(_) => engine::Tier::Thorough,
                None => engine::Tier::Quick,
            };
            match build(&a[2], t) {
                Some(c) => engine::run_check(c, t),
                None => {
                    eprintln!("unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("replay") if a.len() >= 3 => {
            let s = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let id = s.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("").to_string();
            let mut r = 2;
            for t in [engine::Tier::Quick, engine::Tier::Thorough] {
                if let Some(c) = build(&id, t) {
                    let name = s.lines().find_map(|l| l.strip_prefix("scenario ")).unwrap_or("");
                    if c.scen.iter().any(|x| x.name == name) {
                        r = engine::replay(c, &a[2]);
                        break;
                    }
                }
            }
            r
        }
        Some("list") => {
            println!("{}", IDS.join(" ").to_uppercase());
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> [thorough] | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}
