mod checks;
mod fw;
mod gen;
mod lock;
mod model;
mod render;
mod rng;
mod sess;
mod tty;
mod vt;

use fw::{Check, Tier};

fn main() {
    let all: Vec<&'static dyn Check> = checks::all();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    };
    let find = |id: &str| -> &'static dyn Check {
        match all.iter().find(|c| c.id() == id) {
            Some(c) => *c,
            None => {
                eprintln!("no check {id:?}");
                std::process::exit(2)
            }
        }
    };
    let code = match arg(0) {
        "check" => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let t = if args.len() > 2 {
                arg(2).to_string()
            } else {
                std::env::var("VERIF_TIER").unwrap_or_default()
            };
            fw::supervise(find(arg(1)), seed, tier(&t))
        }
        "worker" => fw::worker(
            find(arg(1)),
            arg(2).parse().unwrap(),
            tier(arg(3)),
            arg(4).parse().unwrap(),
            arg(5).parse().unwrap(),
            std::path::Path::new(arg(6)),
            arg(4).parse().unwrap(),
            arg(7).parse().unwrap(),
        ),
        "replay" => fw::replay(&all, arg(1)),
        "append-child" => checks::histfile::append_child(
            arg(1),
            arg(2).parse().unwrap(),
            arg(3).parse().unwrap(),
            arg(4).parse().unwrap(),
        ),
        "pty-child" => checks::pty::child(arg(1), arg(2).parse().unwrap(), arg(3).parse().unwrap()),
        "list" => {
            for c in &all {
                println!("{}", c.id());
            }
            0
        }
        _ => {
            eprintln!("usage: lv check <id> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
