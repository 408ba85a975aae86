//! Runs a C# program: `cs Namespace.Class.Method file.cs...`

use mc::cs::{eval::*, load::*, syntax};

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let mut args = std::env::args().skip(1);
    let target = args.next().unwrap();
    let world = World::new();
    let mut units = Vec::new();
    for file in args {
        match syntax::parse(&file, &std::fs::read_to_string(&file).unwrap()) {
            Ok(u) => units.push(u),
            Err(e) => println!("{}: {}", file, e),
        }
    }
    world.load(units);
    world.check();
    for p in world.errors.borrow().iter() {
        println!("{}: {}: {}", p.file, p.within, p.what);
    }
    for u in world.unsupported.borrow().iter() {
        println!("unsupported: {}", u);
    }
    let parts: Vec<&str> = target.split('.').collect();
    let [ns @ .., class, method] = &parts[..] else { return };
    let ns: std::rc::Rc<str> = ns.join(".").into();
    let id = world.top.borrow()[&(ns, syntax::sym(class), 0)];
    let class = world.class(id);
    let targs: std::rc::Rc<[TypeId]> = [].into();
    world.fuel.set(100_000_000);
    *world.out.borrow_mut() = Some(Vec::new());
    let Some((Slot::Methods(m), c, t)) = world.member(&class, &targs, syntax::sym(method)) else { panic!("no such method") };
    let r = world.call_group(&c, &t, &m, &V::Null, &[ArgV::plain(V::Null)], &[], &mut Vec::new());
    for line in world.out.borrow().iter().flatten() {
        println!("{}", line);
    }
    match r {
        Ok(Some(_)) => {}
        Ok(None) => println!("no overload"),
        Err(Err::Throw(v)) => println!("thrown: {}", world.text(&v).unwrap_or_default()),
        Err(Err::Compile(e)) => println!("compile: {}", e),
        Err(Err::Unsupported(e)) => println!("unsupported: {}", e),
        Err(Err::Budget) => println!("budget"),
    }
    println!("{} evals", world.evals.get());
}
