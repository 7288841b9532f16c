#![recursion_limit = "512"]
#![allow(dead_code)]
mod child;
mod mesh_oracle;
mod seq;
use simwork::geom;
use simwork::par::ops;
mod oracle;
mod pool;
mod props;
mod runner;
mod scenario;
mod shims;
mod shrink;
mod statics;
mod workload;

fn main() {
    statics::save();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "child" => runner::child_main(a[2].parse().unwrap_or(0)),
        "check" => runner::check(&a[2..]),
        "replay" => runner::replay(&a[2]),
        "determinism" => runner::determinism(&a[2..]),
        "shrink" => runner::dev_shrink(&a[2], a[3].parse().unwrap()),
        "scan" => runner::scan(&a[2..]),
        "gen" => {
            println!("{}", serde_json::to_string(&props::generate(&a[2], a[3].parse().unwrap())).unwrap());
            0
        }
        "dev" => dev(&a),
        _ => {
            eprintln!("usage: iosim check PROP quick|thorough | replay FILE | determinism [N]");
            2
        }
    };
    std::process::exit(code);
}

/// run seeds in this process and list what fails (for development)
fn dev(a: &[String]) -> i32 {
    child::install();
    let (prop, s0, n) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let show = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(6);
    let t = std::time::Instant::now();
    let mut bad = std::collections::BTreeMap::new();
    let mut j = props::Judged::default();
    let mut slow = (0.0, 0);
    for s in s0..s0 + n {
        let t1 = std::time::Instant::now();
        let sc = props::generate(&prop, s);
        let r = props::run(&sc);
        let e = t1.elapsed().as_secs_f64();
        if e > slow.0 {
            slow = (e, s);
        }
        match r.verdict {
            Ok(k) => {
                j.evals += k.evals;
                j.nontrivial += k.nontrivial;
                j.exact += k.exact;
            }
            Err(v) => {
                let e = bad.entry(v.class.clone()).or_insert((0, vec![]));
                e.0 += 1;
                if e.1.len() < show {
                    e.1.push(format!("seed {}: {}", s, v.msg));
                }
            }
        }
    }
    println!("{} {} runs in {:?} {:?} slowest {:?}", prop, n, t.elapsed(), j, slow);
    for (c, (n, m)) in bad {
        println!("  {} x{}", c, n);
        for x in m {
            println!("     {}", x);
        }
    }
    0
}
