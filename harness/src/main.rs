mod chain;
mod ex;
mod model;
mod models;
mod ops;
mod props;
mod run;
mod vm;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = arg(&a, "--root").unwrap_or_else(|| "/verif".into());
    let wasm = arg(&a, "--wasm").unwrap_or_else(|| format!("{}/build/wasm", root));
    ex::WASM_DIR.with(|d| *d.borrow_mut() = wasm.clone());
    let seed: u64 = arg(&a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(&a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let defs = props::all();
    let find = |id: &str| -> &run::Def {
        defs.iter().find(|d| d.id == id).unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| &s[..]) {
        Some("run") => {
            let c = run::parent(find(&a[2]), &root, &wasm, &tier, seed, arg(&a, "--cases").and_then(|s| s.parse().ok()));
            std::process::exit(c);
        }
        Some("worker") => {
            let d = find(&a[2]);
            run::install_hook();
            let cfg = run::Cfg {
                id: d.id.into(),
                seed,
                worker: arg(&a, "--worker").unwrap().parse().unwrap(),
                cases: arg(&a, "--cases").unwrap().parse().unwrap(),
                shrink: 1500,
                known: run::Known::load(&format!("{}/known-findings.json", root)),
            };
            let v = (d.exec)(&cfg);
            std::fs::write(arg(&a, "--out").unwrap(), v.to_string()).unwrap();
        }
        Some("replay") => {
            let d = find(&a[2]);
            run::install_hook();
            let text = std::fs::read_to_string(&a[3]).expect("replay file");
            match (d.replay)(&text) {
                Ok(()) => println!("replay: property {} holds on this case", d.id),
                Err(v) => {
                    println!("{}: {}", v.sig, v.msg);
                    println!("VIOLATION property={} replay={}", d.id, a[3]);
                    std::process::exit(1);
                }
            }
        }
        Some("list") => {
            for d in &defs {
                println!("{}", d.id);
            }
        }
        _ => {
            eprintln!("usage: refverif run|replay|list …");
            std::process::exit(2);
        }
    }
}
