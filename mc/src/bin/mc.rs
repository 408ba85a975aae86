use mc::run::Run;

#[global_allocator]
static ALLOCATOR: mc::run::Counting = mc::run::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("usage: mc ID [--replay FILE]");
    if id == "--probe" {
        let what = args.next().unwrap();
        return mc::props_codec::probe(&what, args.next().unwrap().parse().unwrap());
    }
    let mut replay = None;
    while let Some(arg) = args.next() {
        match &*arg {
            "--replay" => {
                let text = std::fs::read_to_string(args.next().unwrap()).unwrap();
                replay = Some(serde_json::from_str(&text).unwrap());
            }
            _ => panic!("unknown argument {}", arg),
        }
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let (id, check) = mc::CHECKS.iter().find(|c| c.0 == id).expect("unknown property");
    let run = Run::new(id, thorough, replay);
    // Types are interned by a single thread.
    mc::hist::roots();
    mc::hist::eq_roots();
    mc::props_codec::codecs();
    mc::props_codec::families();
    mc::props_codec::entry_ty();
    steit::rt::sync::install_hook(mc::conc::hook);
    check(run);
    run.finish()
}
