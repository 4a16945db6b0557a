#![allow(dead_code)]
mod api;
mod boxes; mod cli;
#[cfg(feature = "wire")]
mod wire; mod conc; mod engine; mod obs; mod pos; mod refchar; mod refissue; mod reftok; mod spec_tables; mod toks; mod tree; mod refparse; mod csts; mod refast; mod asts; mod gens; mod inv; mod rel; mod props; mod run;
use engine::*;
#[global_allocator] static ALLOC: conc::Points = conc::Points;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let find = |id: &str| props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    let rc = match arg(1) {
        "check" => run::parent(find(arg(2)), arg(3)),
        "child" => run::child(find(arg(2)), arg(3), arg(4)),
        "one" => run::one(find(arg(2)), arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap()),
        "sizes" => { for p in props::PROPS { for t in [false, true] { let s = (p.build)(t); println!("{} {} {}", p.id, if t { "thorough" } else { "quick" }, s.iter().map(|s| s.n).sum::<u64>()); } } 0 }
        "baseline" => { install_hook(); println!("{}", conc::digest(&conc::calls()[arg(2).parse::<usize>().unwrap()])); 0 }
        "words" => { adhoc(&a[2..]); 0 }
        x => { eprintln!("unknown command {x}"); 2 }
    };
    std::process::exit(rc)
}
/// mc words N "sym sym" check naux
fn adhoc(a: &[String]) {
    install_hook();
    let n: usize = a[0].parse().unwrap();
    let check: CheckFn = match a[2].as_str() { "ast" => asts::full, "cst" => csts::full, "tok" => toks::full, x => props::check_named(x) };
    let sp = vec![gens::Gen::words("adhoc", &gens::syms(&a[1]), 0, n).check(a.get(3).map_or(1, |x| x.parse().unwrap()), check)];
    let o = explore(&sp, &Status::open(None), Limits { wall: std::time::Duration::from_secs(900), hang: std::time::Duration::from_secs(10), threads: NT }, |f| { println!("hang {} {}", f.idx, f.msg); std::process::exit(1) }, |_, _| false);
    println!("cases {} states {} steps {} wall {:.1}", o.cases, o.states, o.steps, o.wall);
    if let Some(f) = o.fail { let mut b = vec![]; let aux = (sp[f.space].gen)(f.idx, &mut b); println!("FAIL {} aux {aux}: {}", show(&b), f.msg) }
}
