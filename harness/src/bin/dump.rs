use relp_verif::iface::*;
use relp_verif::mpsgen;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let fixed = a[2] == "fixed";
    let doc = match mpsgen::read(&text, fixed) { Ok(d) => d, Err(e) => { println!("READ {e}"); return; } };
    let Some((lp, _)) = mpsgen::meaning(&doc) else { println!("MEANING none"); return; };
    if a.get(3).map(|s| s.as_str()) == Some("dump") {
        let b = |v: &Option<relp_verif::big::Rat>| v.as_ref().map_or("-".to_string(), |v| v.to_string());
        println!("{} {} {}", lp.rows.len(), lp.vars.len(), if lp.max { "max" } else { "min" });
        for v in &lp.vars { println!("{} {} {}", v.cost, b(&v.lb), b(&v.ub)); }
        for r in &lp.rows {
            print!("{} {}", b(&r.lo()), b(&r.hi()));
            for (j, c) in &r.coef { print!(" {j} {c}"); }
            println!();
        }
        println!("{}", lp.fixed);
        return;
    }
    print!("m={} n={} nnz={} ", lp.rows.len(), lp.vars.len(), lp.rows.iter().map(|r| r.coef.len()).sum::<usize>());
    if a.len() > 3 {
        let o = Opts { presolve: a[3].contains('p'), scale: a[3].contains('s'), lu: a[3].contains('l') };
        let t = std::time::Instant::now();
        let out = solve(&lp, o);
        print!("{} {:.2}s ", out.kind(), t.elapsed().as_secs_f64());
        if let Outcome::Optimal { obj, .. } = out { let s = obj.to_string(); print!("{}", &s[..s.len().min(40)]); }
    }
    println!();
}
