#![allow(dead_code)]
mod eval;
mod expr;
mod iter;
mod lin;
mod load;
mod loops;
mod methods;
mod place;
mod report;
mod rules;
mod spec;
mod stdlib;
mod term;
mod val;
use std::path::Path;
use std::rc::Rc;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = arg("--repo").unwrap_or_else(|| "/repo".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("dump") => {
            let feat = arg("--feature").unwrap_or_else(|| "3d".into());
            let prog = Rc::new(load::Program::load(Path::new(&repo), &[feat]).unwrap());
            let pat = &a[2];
            for f in prog.fns.iter().filter(|f| f.qual().ends_with(pat.as_str()) && f.block.is_some() && !f.in_test) {
                let mut ev = eval::Ev::new(prog.clone(), eval::Opts { max_depth: 24, ..Default::default() });
                let r = ev.run(f.id);
                println!("== {} ({}:{})", f.qual(), f.file, f.line);
                println!("ret = {}", spec::clip(&ev.tm.show(r.ret)));
                for (n, t) in &r.muts {
                    println!("{n} := {}", spec::clip(&ev.tm.show(*t)));
                }
                println!("world = {}", ev.tm.show(r.world));
                println!("panics = {}", spec::clip(&ev.tm.show(r.panics)));
                println!("notes = {:?} terms {}", ev.notes, ev.tm.nodes.len());
            }
        }
        Some("scan") => {
            report::quiet_panics();
            let feat = arg("--feature").unwrap_or_else(|| "3d".into());
            let prog = Rc::new(load::Program::load(Path::new(&repo), &[feat]).unwrap());
            let pat = a.get(2).cloned().unwrap_or_default();
            for f in prog.fns.iter().filter(|f| f.file.contains(pat.as_str()) && f.block.is_some() && !f.in_test) {
                let t0 = std::time::Instant::now();
                let mut ev = eval::Ev::new(prog.clone(), eval::Opts { max_depth: 24, ..Default::default() });
                eprintln!("{}", f.qual());
                let r = match report::guarded(|| ev.run(f.id)) {
                    Ok(r) => r,
                    Err(e) => {
                        println!("{} {} {:?} GAVE UP {e}", f.file, f.qual(), t0.elapsed());
                        continue;
                    }
                };
                let mut op = ev.tm.has_opaque(r.ret) || ev.tm.has_opaque(r.world);
                for m in &r.muts {
                    op |= ev.tm.has_opaque(m.1);
                }
                println!("{} {} {:?} opaque={} terms={}", f.file, f.qual(), t0.elapsed(), op, ev.tm.nodes.len());
            }
        }
        Some("baseline") => {
            let mut w = report::World { repo, verif: String::new(), progs: Default::default() };
            for n in report::declared(&mut w).unwrap() {
                println!("{n}");
            }
        }
        Some("check") => {
            let verif = arg("--verif").unwrap_or_else(|| "/verif".into());
            let mut w = report::World { repo, verif, progs: Default::default() };
            let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let verbose = a.iter().any(|x| x == "-v");
            if std::env::var("VG_PANIC").is_err() {
                report::quiet_panics();
            }
            let rc = report::check(&mut w, &a[2], &tier, arg("--only").as_deref(), verbose);
            std::process::exit(rc);
        }
        _ => eprintln!("usage"),
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
