mod checks;
mod cli;
mod cliprops;
mod dom;
mod facts;
mod interp;
mod json;
mod p05;
mod p35;
mod plumb;
mod pmodel;
mod report;
mod rules;
mod rx;
mod stdlib;
mod syntax;
mod track;
mod tree;
mod treeprops;
mod world;

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

/// engine PROPERTY FACTS-DIRECTORY VERIF-DIRECTORY
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let t0 = std::time::Instant::now();
    report::late();
    let r = checks::run(&a[1], &a[2]);
    let Some(r) = r else {
        eprintln!("no check for {}", a[1]);
        return 2;
    };
    r.finish(&a[3], t0)
}
