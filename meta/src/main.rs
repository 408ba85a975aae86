mod behaves;
mod csharp;
mod def;
mod expect;
mod gen;
mod meta;
#[path = "../../mc/src/run.rs"]
#[allow(dead_code)]
mod run;
mod schemas;

use run::Run;

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("usage: meta ID [--replay FILE]");
    let mut replay = None;
    while let Some(arg) = args.next() {
        match &*arg {
            "--replay" => {
                let text = std::fs::read_to_string(args.next().unwrap()).unwrap();
                replay = Some(serde_json::from_str(&text).unwrap());
            }
            _ => panic!("unknown argument {}", arg),
        }
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    match &*id {
        "C21" => {
            let run = Run::new("C21", thorough, replay);
            gen::check(run);
            run.finish()
        }
        "C22" => {
            let run = Run::new("C22", thorough, replay);
            meta::check(run);
            run.finish()
        }
        _ => panic!("unknown property"),
    }
}
