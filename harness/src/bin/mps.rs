//! Monitors of reading MPS files: exactness, agreement of the layouts, rejection, meaning.
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{ConstraintRelation, Objective, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use relp::io::mps::{self, Bound, BoundType, Column, MPS};
use relp::io::mps::{parse_fixed, parse_free};
use relp_num::Rational64;
use relp_verif::big::Rat;
use relp_verif::drv::{guarded, main as run, Ctx, Prop, Res};
use relp_verif::iface::*;
use relp_verif::lp::Lp;
use relp_verif::mpsgen::{self, BoundLine, Col, Doc, Pairs, KINDS};
use relp_verif::oracle::{self, Truth};
use relp_verif::rng::Rng;
use relp_verif::mk;
use std::collections::HashMap;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
type Parsed = MPS<Rational64>;

fn r64(v: &Rat) -> Rational64 {
    let s = v.to_string();
    let s = if s.contains('/') { s } else { format!("{s}/1") };
    s.parse().unwrap_or_else(|e| panic!("harness: number {s}: {e}"))
}
/// The text of an error and of everything that caused it; all of it has to end.
fn report(e: &dyn std::error::Error) -> String {
    let mut s = format!("{e} {}", format!("{e:?}").len());
    let mut next = e.source();
    let mut depth = 0;
    while let Some(c) = next {
        depth += 1;
        if depth > 1000 {
            panic!("monitor: the causes of an error never end: {e}");
        }
        s.push_str(&format!(": {c}"));
        next = c.source();
    }
    s
}
/// An error that names a place in the file, names a line that is there.
fn placed(e: &dyn std::error::Error, text: &str) {
    let all = format!("{e:?}");
    for part in all.split("FileLocation(").skip(1) {
        let Some((number, rest)) = part.split_once(", \"") else { continue };
        let Ok(number) = number.trim().parse::<usize>() else { continue };
        PLACES.with(|p| p.set(p.get() + 1));
        let line = number.checked_sub(1).and_then(|n| text.lines().nth(n));
        let Some(line) = line else {
            panic!("monitor: an error is placed at line {number} of a text of {} lines", text.lines().count());
        };
        let mut said = String::new();
        let mut escaped = false;
        for c in rest.chars() {
            if c == '"' && !escaped {
                break;
            }
            escaped = c == '\\' && !escaped;
            said.push(c);
        }
        let is = format!("{line:?}");
        if !is.contains(&said) || said.is_empty() && !line.is_empty() {
            panic!("monitor: an error is placed at line {number}, which reads {is}, not \"{said}\"");
        }
    }
}
thread_local! {
    /// Places in the text that errors have named.
    static PLACES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn read_free(text: &str) -> Result<Parsed, String> {
    mps::parse(&text).map_err(|e| { placed(&e, text); report(&e) })
}
fn read_fixed(text: &str) -> Result<Parsed, String> {
    parse_fixed(text).map_err(|e| { placed(&e, text); report(&e) })
}
fn convert(p: Parsed) -> Result<GeneralForm<RB>, String> {
    let g: Result<GeneralForm<RB>, relp::io::error::Inconsistency> = p.try_into();
    g.map_err(|e| report(&e))
}

/// The number as the nearest float: both parts are exact, so the quotient is rounded once.
fn float(v: &Rat) -> f64 {
    let s = v.to_string();
    let (n, d) = s.split_once('/').unwrap_or((&s, "1"));
    let of = |t: &str| t.trim().parse::<i64>().ok().filter(|v| v.unsigned_abs() < 1 << 53).map(|v| v as f64);
    match (of(n), of(d)) {
        (Some(n), Some(d)) => n / d,
        _ => f64::NAN,
    }
}
/// What the file states, rows sorted by name or in the order of the file.
fn stated<F>(d: &Doc, sorted: bool, number: fn(&Rat) -> F) -> MPS<F> {
    let mut rows: Vec<&(char, String)> = d.rows.iter().collect();
    if sorted {
        rows.sort_by(|a, b| a.1.as_bytes().cmp(b.1.as_bytes()));
    }
    let index: HashMap<&str, usize> = rows.iter().enumerate().map(|(i, r)| (r.1.as_str(), i)).collect();
    let cols: HashMap<&str, usize> = d.cols.iter().enumerate().map(|(i, c)| (c.name.as_str(), i)).collect();
    let values = |p: &Pairs| {
        let mut v: Vec<(usize, F)> =
            p.iter().filter(|e| e.0 != d.cost_row).map(|(n, v)| (index[n.as_str()], number(v))).collect();
        v.sort_by_key(|e| e.0);
        v
    };
    MPS::new(
        d.name.clone(),
        if d.max == Some(true) { Objective::Maximize } else { Objective::Minimize },
        d.cost_row.clone(),
        d.cols
            .iter()
            .enumerate()
            .filter_map(|(j, c)| c.entries.iter().find(|e| e.0 == d.cost_row).map(|e| (j, number(&e.1))))
            .collect(),
        rows.iter()
            .map(|r| mps::Row {
                name: r.1.clone(),
                constraint_type: match r.0 {
                    'L' => ConstraintRelation::Less,
                    'G' => ConstraintRelation::Greater,
                    _ => ConstraintRelation::Equal,
                },
            })
            .collect(),
        d.cols
            .iter()
            .map(|c| Column {
                name: c.name.clone(),
                variable_type: if c.integer { VariableType::Integer } else { VariableType::Continuous },
                values: values(&c.entries),
            })
            .collect(),
        d.rhs.iter().map(|(n, p)| mps::Rhs { name: n.clone(), values: values(p) }).collect(),
        d.ranges.iter().map(|(n, p)| mps::Range { name: n.clone(), values: values(p) }).collect(),
        d.bounds
            .iter()
            .map(|(n, lines)| {
                let mut v: Vec<(usize, BoundType<F>)> = lines
                    .iter()
                    .map(|l| {
                        let x = || number(l.value.as_ref().unwrap());
                        let b = match l.kind {
                            "LO" => BoundType::LowerContinuous(x()),
                            "UP" => BoundType::UpperContinuous(x()),
                            "FX" => BoundType::Fixed(x()),
                            "FR" => BoundType::Free,
                            "MI" => BoundType::LowerMinusInfinity,
                            "PL" => BoundType::UpperInfinity,
                            "BV" => BoundType::Binary,
                            "LI" => BoundType::LowerInteger(x()),
                            "UI" => BoundType::UpperInteger(x()),
                            k => panic!("harness: bound {k}"),
                        };
                        (cols[l.col.as_str()], b)
                    })
                    .collect();
                v.sort_by_key(|e| e.0);
                Bound { name: n.clone(), values: v }
            })
            .collect(),
    )
}
/// Order of several bounds of a variable inside of a group is free: compare as multisets there.
fn same(got: &Parsed, d: &Doc) -> Res {
    same_as(got, d, r64)
}
fn same_as<F: PartialEq + std::fmt::Debug>(got: &MPS<F>, d: &Doc, number: fn(&Rat) -> F) -> Res {
    let expected = |d, sorted| stated(d, sorted, number);
    if *got == expected(d, true) || *got == expected(d, false) {
        return Ok(());
    }
    let norm = |p: &MPS<F>| {
        let s = format!("{p:?}").replace("-0.0)", "0.0)");
        let (a, b) = s.split_once(", bounds: [").unwrap_or((s.as_str(), ""));
        let parts: Vec<String> = b
            .split("Bound { ")
            .map(|g| {
                let (name, v) = g.split_once("values: [").unwrap_or((g, ""));
                let v = v.trim_end_matches([']', '}', ' ', ',']);
                let mut t: Vec<&str> = v.trim_start_matches('(').strip_suffix(')').unwrap_or(v).split("), (").collect();
                t.sort();
                format!("{name}{}", t.join("), ("))
            })
            .collect();
        (a.to_string(), parts)
    };
    let g = norm(got);
    if g == norm(&expected(d, true)) || g == norm(&expected(d, false)) {
        return Ok(());
    }
    let (e, g) = (format!("{:?}", expected(d, true)), format!("{got:?}"));
    let at = e.bytes().zip(g.bytes()).take_while(|(a, b)| a == b).count();
    let show = |s: &str| {
        let mut from = at.saturating_sub(60);
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        s[from..].chars().take(200).collect::<String>()
    };
    Err(format!("the file is read as ...{}... where it states ...{}...", show(&g), show(&e)))
}

fn value(r: &mut Rng) -> Rat {
    match r.below(10) {
        0 => Rat::zero(),
        1 => Rat::one(),
        2 => Rat::int(-1),
        3 => Rat::int(r.range(-999_999_999, 999_999_999)),
        4 => Rat::new(r.range(-999_999_999, 999_999_999), 10i64.pow(r.range(1, 9) as u32)),
        5 => Rat::new(r.range(-99, 99), 100_000),
        6 => Rat::new(r.range(-9999, 9999), 100),
        7 => Rat::new(r.range(-99, 99), 10),
        _ => Rat::int(r.range(-20, 20)),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Names {
    Plain,
    /// Anything that is one token.
    Token,
    /// At most eight bytes, spaces inside allowed.
    Spaced,
}
fn name(r: &mut Rng, style: Names, taken: &mut Vec<String>) -> String {
    loop {
        let mut s: String = match r.below(if style == Names::Plain { 2 } else { 8 }) {
            0 => format!("{}{}", r.pick(&["x", "R", "c", "ROW", "y_", "A."]), r.below(100)),
            1 => {
                let l = 1 + r.below(8);
                (0..l).map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '_', '.', '#'])).collect()
            }
            2 => r.pick(&["ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA", "NAME", "N", "E", "L", "G", "UP", "MARKER", "'INTORG'", "OBJSENSE", "MAX", "FR"]).to_string(),
            3 => r.pick(&["1", "-1", "0", "1.5", "1e5", "+", "-", ".", "00", "NaN", "inf"]).to_string(),
            4 => r.pick(&["é", "λ1", "变量", "x²", "ß"]).to_string(),
            5 => r.pick(&["$x", "a*b", "\"q\"", "a=b", "(x)", "x,y", "<>", "\\n", "a;b", "'x'"]).to_string(),
            6 => r.pick(&["AAAAAAAA", "12345678", "abcdefgh"]).to_string(),
            _ if style == Names::Spaced => {
                // Interior and leading blanks belong to the name, trailing ones do not.
                r.pick(&["a b", "x  y", "1 2 3", "A B C D", "CELL 1 2", "A      B", "N x", " lead"]).to_string()
            }
            _ => format!("{}~{}", r.below(1000), r.below(1000)),
        };
        if taken.iter().any(|t| *t == s) {
            s = format!("{}{}", s.trim_start_matches('*'), r.below(10000));
        }
        if s.is_empty() || s.starts_with('*') || s == "'MARKER'" || taken.contains(&s) || (style != Names::Token && s.len() > 8) {
            continue;
        }
        taken.push(s.clone());
        return s;
    }
}
/// A random document; with `sane` set only of combinations that have a meaning.
fn document(r: &mut Rng, style: Names, sane: bool) -> Doc {
    let max = if r.chance(1, 12) { 40 } else { 6 };
    let (mut m, mut n) = (r.below(max), r.below(max));
    let large = r.chance(1, 1000);
    if large {
        // More than a hundred, or few of the other kind.
        (m, n) = *r.pick(&[(290, 20), (12, 300), (130, 130), (70, 66)]);
        (m, n) = (m + r.below(40), n + r.below(40));
    }
    let mut taken = vec![];
    let cost_row = name(r, style, &mut taken);
    let rows: Vec<(char, String)> = (0..m).map(|_| (*r.pick(&['E', 'L', 'G']), name(r, style, &mut taken))).collect();
    // Names of columns and groups live apart from those of rows.
    let mut taken = vec![];
    let density = 1 + r.below(4);
    let mut integer = false;
    let mut cols = vec![];
    for _ in 0..n {
        if r.chance(1, 4) {
            integer = !integer;
        }
        let mut entries: Pairs = vec![];
        if r.chance(1, 2) {
            entries.push((cost_row.clone(), value(r)));
        }
        for row in &rows {
            if r.chance(density, 4) && (!large || r.chance(8, m)) {
                entries.push((row.1.clone(), value(r)));
            }
        }
        if entries.is_empty() {
            entries.push((cost_row.clone(), value(r)));
        }
        if r.chance(1, 2) {
            r.shuffle(&mut entries);
        }
        cols.push(Col { name: name(r, style, &mut taken), integer, entries });
    }
    let mut ranged = vec![false; m];
    let mut first: Vec<Option<Rat>> = vec![None; m];
    let mut side = |r: &mut Rng, range: bool, groups: usize| {
        let mut taken = vec![];
        let mut out: Vec<(String, Pairs)> = vec![];
        for g in 0..groups {
            let mut p: Pairs = vec![];
            for (i, row) in rows.iter().enumerate() {
                if range {
                    if !ranged[i] && r.chance(1, 3) {
                        ranged[i] = true;
                        p.push((row.1.clone(), value(r)));
                    }
                } else if r.chance(2, 3) {
                    let mut v = value(r);
                    if sane && (row.0 == 'E' || g > 0 && r.chance(1, 2)) {
                        if let Some(f) = &first[i] {
                            v = f.clone();
                        }
                    }
                    first[i].get_or_insert(v.clone());
                    p.push((row.1.clone(), v));
                }
            }
            if r.chance(1, 2) {
                r.shuffle(&mut p);
            }
            if !p.is_empty() {
                out.push((name(r, style, &mut taken), p));
            }
        }
        out
    };
    let groups = |r: &mut Rng| if r.chance(1, 5) { 0 } else if r.chance(1, 5) { 2 + r.below(2) } else { 1 };
    let g = groups(r);
    let rhs = side(r, false, g);
    let g = groups(r);
    let ranges = side(r, true, g);
    let mut taken = vec![];
    let mut bounds: Vec<(String, Vec<BoundLine>)> = vec![];
    for _ in 0..groups(r) {
        let mut lines = vec![];
        for c in &cols {
            for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2, 2, 3]) {
                let kind = *r.pick(&KINDS);
                let value = mpsgen::needs_value(kind).then(|| value(r));
                lines.push(BoundLine { kind, col: c.name.clone(), value });
            }
        }
        if r.chance(1, 3) {
            r.shuffle(&mut lines);
        }
        if !lines.is_empty() {
            bounds.push((name(r, style, &mut taken), lines));
        }
    }
    let mut d = Doc {
        name: r.pick(&["TESTPROB", "x", "some-name", "1", "NAME", "ROWS", "é"]).to_string(),
        max: *r.pick(&[None, None, Some(true), Some(false)]),
        cost_row,
        cost_pos: r.below(m + 1),
        rows,
        cols,
        rhs,
        ranges,
        bounds,
    };
    if sane {
        // Rows with a range need one right-hand side.
        let ranged: Vec<String> = d.ranges.iter().flat_map(|g| g.1.iter().map(|e| e.0.clone())).collect();
        let mut seen: HashMap<String, Rat> = HashMap::new();
        for g in &mut d.rhs {
            for (n, v) in &mut g.1 {
                let f = seen.entry(n.clone()).or_insert_with(|| v.clone());
                if ranged.contains(n) {
                    *v = f.clone();
                }
            }
        }
        // A variable is free or bounded.
        let mut kinds: HashMap<String, (bool, bool)> = HashMap::new();
        for g in &d.bounds {
            for l in &g.1 {
                let e = kinds.entry(l.col.clone()).or_default();
                if l.kind == "FR" { e.0 = true } else { e.1 = true }
            }
        }
        for g in &mut d.bounds {
            g.1.retain(|l| !(l.kind == "FR" && kinds[&l.col].1));
        }
        d.bounds.retain(|g| !g.1.is_empty());
    }
    d
}
fn any_doc(r: &mut Rng, style: Names, sane: bool) -> Doc {
    if r.chance(1, 4) && style == Names::Plain {
        let lp = mk::problem(r);
        if let Some(lp) = mpsgen::representable(&lp) {
            if lp.rows.iter().all(|x| x.name.len() <= 8) && lp.vars.iter().all(|x| x.name.len() <= 8) {
                return mpsgen::doc(r, &lp);
            }
        }
    }
    document(r, style, sane)
}
fn signature(d: &Doc, text: &str) -> String {
    let mut kinds: Vec<&str> = d.bounds.iter().flat_map(|g| g.1.iter().map(|l| l.kind)).collect();
    kinds.sort();
    kinds.dedup();
    format!("{} {} {} {} {} {kinds:?} {:?} {}", d.rows.len(), d.cols.len(), d.rhs.len(), d.ranges.len(), d.bounds.len(), d.max, mix(text) % 16)
}
fn mix(s: &str) -> u64 {
    s.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))
}
fn tally(ctx: &mut Ctx, d: &Doc) {
    let numbers = d.cols.iter().map(|c| c.entries.len()).sum::<usize>() + d.rhs.iter().chain(&d.ranges).map(|g| g.1.len()).sum::<usize>();
    ctx.add("numbers", numbers as u64);
    if d.rows.len().max(d.cols.len()) > 64 {
        ctx.count("large");
    }
    ctx.add("bounds", d.bounds.iter().map(|g| g.1.len() as u64).sum());
    if d.cols.iter().any(|c| c.integer) {
        ctx.count("with integer columns");
    }
    if d.rhs.len() > 1 || d.bounds.len() > 1 || d.ranges.len() > 1 {
        ctx.count("with several groups");
    }
}

// C15 ------------------------------------------------------------------------------------------

/// A notation and what it stands for, up to the size the reader supports.
fn notation(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    loop {
        let (i, d) = match r.below(6) {
            0 => (r.below(20), 0),
            1 => (0, 1 + r.below(19)),
            2 => {
                let i = r.below(19);
                (i, r.below(20 - i))
            }
            3 => (1 + r.below(3), r.below(3)),
            4 => (r.below(2), 19 - r.below(3)),
            _ => (r.below(10), r.below(9)),
        };
        let mut int = digits(r, i);
        let mut dec = digits(r, d);
        if r.chance(1, 6) {
            int = "0".repeat(r.below(4)) + &int;
        }
        if r.chance(1, 6) {
            dec.push_str(&"0".repeat(r.below(4)));
        }
        if r.chance(1, 12) {
            (int, dec) = ("18446744073709551615".into(), "".into());
        }
        if int.is_empty() && dec.is_empty() || dec.len() > 19 {
            continue;
        }
        let all = format!("{int}{dec}");
        if all.parse::<u64>().is_err() {
            continue;
        }
        let point = if !dec.is_empty() || r.chance(1, 4) { "." } else { "" };
        return format!("{}{int}{point}{dec}", r.pick(&["", "", "-", "+"]));
    }
}
fn c15(ctx: &mut Ctx) -> Res {
    if ctx.idx % 4 == 3 {
        // Numbers of every notation in every section.
        let n = 1 + ctx.r.below(5);
        let mut t = String::from("NAME n\nROWS\n N c\n");
        for i in 0..n {
            t.push_str(&format!(" {} r{i}\n", ctx.r.pick(&['E', 'L', 'G'])));
        }
        t.push_str("COLUMNS\n");
        let mut all = vec![];
        for i in 0..n {
            let (a, b) = (notation(&mut ctx.r), notation(&mut ctx.r));
            t.push_str(&format!(" x{i} r{i} {a} c {b}\n"));
            all.push((a, b));
        }
        let h: Vec<String> = (0..n).map(|_| notation(&mut ctx.r)).collect();
        let g: Vec<String> = (0..n).map(|_| notation(&mut ctx.r)).collect();
        let u: Vec<String> = (0..n).map(|_| notation(&mut ctx.r)).collect();
        t.push_str("RHS\n");
        h.iter().enumerate().for_each(|(i, v)| t.push_str(&format!(" h r{i} {v}\n")));
        t.push_str("RANGES\n");
        g.iter().enumerate().for_each(|(i, v)| t.push_str(&format!(" g r{i} {v}\n")));
        t.push_str("BOUNDS\n");
        u.iter().enumerate().for_each(|(i, v)| t.push_str(&format!(" UP b x{i} {v}\n")));
        t.push_str("ENDATA\n");
        ctx.describe(t.clone());
        let got = guarded(|| read_free(&t))?.map_err(|e| format!("a well-formed file is rejected: {e}"))?;
        let v = |s: &str| Rat::parse_decimal(s).unwrap_or_else(|| panic!("harness: {s}"));
        let row_types: Vec<char> = t.lines().skip(3).take(n).map(|l| l.as_bytes()[1] as char).collect();
        let d = Doc {
            name: "n".into(),
            max: None,
            cost_row: "c".into(),
            cost_pos: 0,
            rows: (0..n).map(|i| (row_types[i], format!("r{i}"))).collect(),
            cols: (0..n).map(|i| Col { name: format!("x{i}"), integer: false, entries: vec![(format!("r{i}"), v(&all[i].0)), ("c".into(), v(&all[i].1))] }).collect(),
            rhs: vec![("h".into(), (0..n).map(|i| (format!("r{i}"), v(&h[i]))).collect())],
            ranges: vec![("g".into(), (0..n).map(|i| (format!("r{i}"), v(&g[i]))).collect())],
            bounds: vec![("b".into(), (0..n).map(|i| BoundLine { kind: "UP", col: format!("x{i}"), value: Some(v(&u[i])) }).collect())],
        };
        same(&got, &d)?;
        ctx.add("notations", 5 * n as u64);
        ctx.nontrivial(&format!("{:?}", all.iter().map(|a| a.0.len()).collect::<Vec<_>>()));
        return Ok(());
    }
    let style = if ctx.r.chance(1, 2) { Names::Token } else { Names::Plain };
    let d = any_doc(&mut ctx.r, style, false);
    for k in 0..2 {
        let text = mpsgen::free_text(&mut ctx.r, &d);
        ctx.describe(text.clone());
        let got = guarded(|| read_free(&text))?.map_err(|e| format!("a well-formed file is rejected: {e}"))?;
        same(&got, &d)?;
        let other = guarded(|| parse_free::<Rational64>(&text).map_err(|e| report(&e)))??;
        ensure!(other == got, "the default reader and the free format reader differ");
        // Floats are read from the same text, if they are neither very small nor very large.
        let mut all = d.cols.iter().flat_map(|c| &c.entries).chain(d.rhs.iter().chain(&d.ranges).flat_map(|g| &g.1)).map(|e| &e.1).chain(d.bounds.iter().flat_map(|g| g.1.iter().filter_map(|l| l.value.as_ref())));
        if all.all(|v| v.is_zero() || (1e-9..1e9).contains(&float(v).abs())) {
            let floats = guarded(|| parse_free::<f64>(&text).map_err(|e| report(&e)))?.map_err(|e| format!("a well-formed file with floats is rejected: {e}"))?;
            same_as(&floats, &d, float).map_err(|e| format!("as floats, {e}"))?;
            ctx.count("files with floats");
        }
        ctx.count("files");
        ctx.nontrivial(&signature(&d, &text));
        if k == 0 && ctx.idx < 6 {
            ctx.sample(text);
        }
    }
    tally(ctx, &d);
    Ok(())
}

// C16 ------------------------------------------------------------------------------------------

fn c16(ctx: &mut Ctx) -> Res {
    let spaced = ctx.r.chance(1, 3);
    let mut d = any_doc(&mut ctx.r, if spaced { Names::Spaced } else { Names::Plain }, false);
    // A name longer than its columns can't be laid out.
    if d.cost_row.len() > 8 {
        d = document(&mut ctx.r, Names::Plain, false);
    }
    let mut blank_group = false;
    if ctx.r.chance(1, 6) {
        // Group names are often left out in fixed format files.
        for g in [d.rhs.first_mut().map(|g| &mut g.0), d.ranges.first_mut().map(|g| &mut g.0), d.bounds.first_mut().map(|g| &mut g.0)].into_iter().flatten() {
            g.clear();
            blank_group = true;
        }
    }
    let text = mpsgen::fixed_text(&mut ctx.r, &d);
    ctx.describe(text.clone());
    let got = guarded(|| read_fixed(&text))?.map_err(|e| format!("a well-formed fixed format file is rejected: {e}"))?;
    same(&got, &d).map_err(|e| format!("fixed format: {e}"))?;
    ctx.count("fixed files");
    ctx.nontrivial(&signature(&d, &text));
    let spaces = d.rows.iter().map(|r| &r.1).chain(d.cols.iter().map(|c| &c.name)).chain(d.rhs.iter().chain(&d.ranges).map(|g| &g.0)).chain(d.bounds.iter().map(|g| &g.0)).chain([&d.cost_row]).any(|n| n.contains(' '));
    if spaces {
        ctx.count("with spaces in names");
    } else if !blank_group {
        let free = guarded(|| read_free(&text))?.map_err(|e| format!("read as free format it is rejected: {e}"))?;
        ensure!(free == got, "the free format reader reads it differently: {free:?} and {got:?}");
        ctx.count("read by both");
        let again = mpsgen::free_text(&mut ctx.r, &d);
        ctx.describe_more(&again);
        let free = guarded(|| read_free(&again))?.map_err(|e| format!("laid out as free format it is rejected: {e}"))?;
        ensure!(same(&free, &d).is_ok(), "laid out as free format it is read differently: {free:?} and {got:?}");
        ctx.count("laid out both ways");
    } else {
        ctx.count("with a blank group name");
    }
    // Lines that end early, or in blanks.
    let trimmed: String = text.lines().map(|l| format!("{}\n", l.trim_end())).collect();
    let padded: String = text.lines().map(|l| if l.starts_with(' ') && !l.trim().is_empty() && !l.trim().starts_with('*') { format!("{l}{}\n", " ".repeat(ctx.r.below(70))) } else { format!("{l}\n") }).collect();
    for (t, how) in [(trimmed, "without trailing blanks"), (padded, "with trailing blanks")] {
        let other = guarded(|| read_fixed(&t)).and_then(|x| x).map_err(|e| format!("{how}: {e}\n{t}"))?;
        ensure!(other == got, "{how} it is read differently:\n{t}\n{other:?}\n{got:?}");
        ctx.count("line ends");
    }
    tally(ctx, &d);
    if ctx.idx < 6 {
        ctx.sample(text);
    }
    Ok(())
}

// C17 ------------------------------------------------------------------------------------------

const NOT_NUMBERS: [&str; 22] = [
    "abc", "1.2.3", "--1", "-", "+", ".", "-.", "+-1", "1e", "0x10", "1,5", "NaN", "inf", "1_000", "1-", "1+1", "٣", "1.é", "½", "1/2", "''", "1.-2",
];
const TOO_LARGE: [&str; 7] = [
    "18446744073709551616", "-18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456",
    "0.00000000000000000001", "1.8446744073709551616", "184467440737095516.160",
];
/// Lines of a document in a plain free layout, one pair per line, for precise damage.
fn plain_lines(d: &Doc) -> Vec<String> {
    let num = |v: &Rat| {
        let mut r = Rng::new(1);
        mpsgen::number_text(&mut r, v, 12).unwrap_or_else(|| panic!("harness: number {v}"))
    };
    let mut t = vec![format!("NAME {}", d.name)];
    if let Some(m) = d.max {
        t.push("OBJSENSE".into());
        t.push(if m { "  MAX" } else { "  MIN" }.into());
    }
    t.push("ROWS".into());
    t.push(format!(" N {}", d.cost_row));
    t.extend(d.rows.iter().map(|r| format!(" {} {}", r.0, r.1)));
    t.push("COLUMNS".into());
    for c in &d.cols {
        t.extend(c.entries.iter().map(|e| format!(" {} {} {}", c.name, e.0, num(&e.1))));
    }
    t.push("RHS".into());
    d.rhs.iter().for_each(|g| t.extend(g.1.iter().map(|e| format!(" {} {} {}", g.0, e.0, num(&e.1)))));
    t.push("RANGES".into());
    d.ranges.iter().for_each(|g| t.extend(g.1.iter().map(|e| format!(" {} {} {}", g.0, e.0, num(&e.1)))));
    t.push("BOUNDS".into());
    for g in &d.bounds {
        t.extend(g.1.iter().map(|l| format!(" {} {} {} {}", l.kind, g.0, l.col, l.value.as_ref().map_or("".into(), num)).trim_end().to_string()));
    }
    t.push("ENDATA".into());
    t
}
/// The same lines in fixed columns.
fn in_columns(line: &str, section: &str) -> String {
    if !line.starts_with(' ') {
        return line.to_string();
    }
    if section == "OBJSENSE" {
        return line.to_string();
    }
    let f: Vec<&str> = line.split_whitespace().collect();
    let at = |i: usize| f.get(i).copied().unwrap_or("");
    match section {
        "ROWS" => format!(" {:<2} {:<8}", at(0), at(1)),
        "BOUNDS" => format!(" {:<2} {:<8}  {:<8}  {:>12}", at(0), at(1), at(2), at(3)).trim_end().to_string(),
        _ if f.len() > 3 => format!("    {:<8}  {:<8}  {:>12}   {:<8}  {:>12}", at(0), at(1), at(2), at(3), at(4)),
        _ => format!("    {:<8}  {:<8}  {:>12}", at(0), at(1), at(2)),
    }
}
fn section_of(lines: &[String], i: usize) -> String {
    lines[..=i].iter().rev().find(|l| !l.starts_with(' ')).map_or(String::new(), |l| l.split_whitespace().next().unwrap_or("").to_string())
}
fn data_lines(lines: &[String], sections: &[&str]) -> Vec<usize> {
    (0..lines.len()).filter(|&i| lines[i].starts_with(' ') && sections.contains(&section_of(lines, i).as_str())).collect()
}
fn set_field(line: &mut String, k: usize, t: &str) {
    let mut f: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
    if k < f.len() {
        f[k] = t.to_string();
    } else {
        f.push(t.to_string());
    }
    *line = format!(" {}", f.join(" "));
}
/// State once more, anywhere among the lines of the same column or group, possibly as a second pair
/// and with another value.
fn repeat_entry(r: &mut Rng, lines: &mut Vec<String>, i: usize, section: &str) {
    let first = |l: &String| l.split_whitespace().next().unwrap_or("").to_string();
    let own: Vec<usize> = data_lines(lines, &[section]).into_iter().filter(|&k| first(&lines[k]) == first(&lines[i])).collect();
    let mut l = lines[i].clone();
    if r.chance(1, 2) {
        set_field(&mut l, 2, *r.pick(&["1", "-3", "0", "2.5", "0.0", "7"]));
    }
    let k = *r.pick(&own);
    if r.chance(1, 3) {
        let f: Vec<&str> = l.split_whitespace().collect();
        let more = format!(" {} {}", f[1], f[2]);
        lines[k].push_str(&more);
    } else {
        lines.insert(if r.chance(1, 5) { k } else { k + 1 }, l);
    }
}
/// Damage that makes the file say something that can't be understood.
fn damage(r: &mut Rng, d: &Doc, lines: &mut Vec<String>) -> Option<&'static str> {
    let find = |lines: &[String], h: &str| lines.iter().position(|l| l == h || (h == "NAME" && l.starts_with("NAME ")));
    let any = |r: &mut Rng, v: Vec<usize>| if v.is_empty() { None } else { Some(*r.pick(&v)) };
    let numbers = ["COLUMNS", "RHS", "RANGES"];
    Some(match r.below(29) {
        0 => {
            let i = any(r, data_lines(lines, &numbers))?;
            set_field(&mut lines[i], 1, "nowhere");
            "unknown row"
        }
        1 => {
            let i = any(r, data_lines(lines, &["BOUNDS"]))?;
            set_field(&mut lines[i], 2, "nowhere");
            "unknown column in a bound"
        }
        2 => {
            let i = any(r, data_lines(lines, &["ROWS"]))?;
            let l = lines[i].clone();
            let at = i + 1 + r.below(data_lines(lines, &["ROWS"]).iter().filter(|k| **k > i).count() + 1);
            lines.insert(at, l);
            "a row defined twice"
        }
        3 => {
            let i = any(r, data_lines(lines, &["COLUMNS"]))?;
            repeat_entry(r, lines, i, "COLUMNS");
            "an entry of a column given twice"
        }
        4 => {
            if d.cols.len() < 2 || d.cols[0].entries.len() < 2 {
                return None;
            }
            // The first line of the first column goes behind the last column, or into the middle of it.
            let v = data_lines(lines, &["COLUMNS"]);
            let l = lines[v[0]].clone();
            let own = d.cols[0].entries.len();
            let at = if r.chance(1, 2) { v[v.len() - 1] + 1 } else { v[own + r.below(v.len() - own)] + 1 };
            lines.insert(at, l);
            lines.remove(v[0]);
            "a column that is split in two"
        }
        5 | 6 => {
            let bad = r.pick(&NOT_NUMBERS).to_string();
            let i = any(r, data_lines(lines, &numbers))?;
            set_field(&mut lines[i], 2, &bad);
            "a number that can't be read"
        }
        7 => {
            let v: Vec<usize> = data_lines(lines, &["BOUNDS"]).into_iter().filter(|&i| lines[i].split_whitespace().count() == 4).collect();
            let i = any(r, v)?;
            let bad = if r.chance(1, 3) { r.pick(&TOO_LARGE).to_string() } else { r.pick(&NOT_NUMBERS).to_string() };
            set_field(&mut lines[i], 3, &bad);
            "a bound that can't be read"
        }
        8 | 9 => {
            let bad = r.pick(&TOO_LARGE).to_string();
            let i = any(r, data_lines(lines, &numbers))?;
            set_field(&mut lines[i], 2, &bad);
            "a number that is too large"
        }
        10 => {
            let h = *r.pick(&["NAME", "ROWS", "COLUMNS", "ENDATA"]);
            let i = find(lines, h)?;
            // A name line can be an unread row of another section otherwise.
            lines.remove(i);
            match h {
                "ROWS" if d.max.is_some() => "no rows section",
                "NAME" => "no name",
                "ROWS" => "no rows section",
                "COLUMNS" => "no columns section",
                _ => "no end",
            }
        }
        11 => {
            let v = data_lines(lines, &["ROWS"]);
            lines.remove(v[0]);
            if d.cols.iter().any(|c| c.entries.iter().any(|e| e.0 == d.cost_row)) { "no cost row, which is used" } else { "no cost row" }
        }
        12 => {
            let i = find(lines, "COLUMNS")?;
            lines.insert(i, " N another_cost".into());
            "two cost rows"
        }
        13 => {
            let (a, b) = *r.pick(&[("COLUMNS", "RHS"), ("RHS", "RANGES"), ("RHS", "BOUNDS"), ("RANGES", "BOUNDS"), ("ROWS", "COLUMNS")]);
            let (i, j) = (find(lines, a)?, find(lines, b)?);
            lines[i] = b.into();
            lines[j] = a.into();
            "sections out of order"
        }
        14 => {
            let h: Vec<usize> = (0..lines.len()).filter(|&i| !lines[i].starts_with(' ') && i > 0).collect();
            let i = any(r, h)?;
            let bad = ["XYZ", "XROWS", "rows", "RH", "ENDDATA", "R", "BOUND", "COLUMN", "RHSS", "QUADOBJ", "SOS"];
            lines[i] = r.pick(&bad).to_string();
            "an unknown section"
        }
        15 => {
            let i = any(r, data_lines(lines, &["BOUNDS"]))?;
            let bad = ["XX", "up", "SC", "U", "UPP", "LOW", "F", "1", "BI"];
            set_field(&mut lines[i], 0, *r.pick(&bad));
            "an unknown or unsupported bound type"
        }
        16 => {
            let v: Vec<usize> = data_lines(lines, &["BOUNDS"]).into_iter().filter(|&i| lines[i].split_whitespace().count() == 4).collect();
            let i = any(r, v)?;
            let cut = lines[i].rfind(' ').unwrap();
            lines[i].truncate(cut);
            "a bound without a value"
        }
        17 => {
            let i = any(r, data_lines(lines, &["ROWS"]))?;
            set_field(&mut lines[i], 0, *r.pick(&["X", "e", "g", "=", "<", "1", "Q"]));
            "an unknown row type"
        }
        18 => {
            let more = [" x", "ROWS", "ENDATA", "NAME again", "garbage", " N c"];
            lines.push(r.pick(&more).to_string());
            "text after the end"
        }
        19 => {
            let i = any(r, data_lines(lines, &numbers))?;
            let cut = lines[i].rfind(' ').unwrap();
            lines[i].truncate(cut);
            "a line without its value"
        }
        20 => {
            let i = any(r, data_lines(lines, &numbers))?;
            let extra = *r.pick(&["", " 1 nowhere 1", ""]);
            if extra.is_empty() {
                lines[i].push_str(" lonely");
            } else {
                lines[i].push_str(extra);
            }
            "a line with an incomplete second pair"
        }
        21 => {
            // Second pair refers to an unknown row.
            let i = any(r, data_lines(lines, &numbers))?;
            lines[i].push_str(" nowhere 1");
            "unknown row in the second pair"
        }
        22 => {
            let i = any(r, data_lines(lines, &["RHS"]))?;
            repeat_entry(r, lines, i, "RHS");
            "a right-hand side given twice"
        }
        23 => {
            let i = any(r, data_lines(lines, &["RANGES"]))?;
            let mut l = lines[i].clone();
            if r.chance(1, 2) {
                set_field(&mut l, 0, "OTHER");
            }
            let end = *data_lines(lines, &["RANGES"]).last()?;
            lines.insert(end + 1, l);
            "two ranges for one row"
        }
        24 => {
            let v = data_lines(lines, &["RHS"]);
            let i = any(r, v)?;
            set_field(&mut lines[i], 1, &d.cost_row);
            "a right-hand side for the cost row"
        }
        25 => {
            let i = find(lines, "COLUMNS")?;
            let bad = r.pick(&[" M1 'MARKER' 'INTORGX'", " M1 'MARKER' 'INT'", " M1 'MARKER' 1", " M1 'MARKER' 'INTEND'", " M1 'MARKER'"]).to_string();
            lines.insert(i + 1, bad);
            "an unknown or misplaced marker"
        }
        27 => {
            // In two lines of which other bounds may lie in between, in one group or in two.
            let v = data_lines(lines, &["BOUNDS"]);
            let col = lines[*v.first()?].split_whitespace().nth(2)?.to_string();
            let kind = *r.pick(&["LO", "UP", "FX", "BV", "LI", "UI"]);
            let value = if kind == "BV" { "" } else { *r.pick(&[" 1", " 0", " -2", " 3", " 0.0"]) };
            let groups = *r.pick(&[["B1", "B1"], ["B1", "B2"]]);
            let mut two = [format!(" FR {} {col}", groups[0]), format!(" {kind} {} {col}{value}", groups[1])];
            if r.chance(1, 2) {
                two.reverse();
            }
            let [first, second] = two;
            let at = v[0] + r.below(v.len() + 1);
            lines.insert(at, first);
            let at = at + 1 + r.below(v[v.len() - 1] + 2 - at);
            lines.insert(at, second);
            "a variable that is free and bounded"
        }
        26 => {
            let h = *r.pick(&["COLUMNS", "COLUMNS", "RHS", "RANGES", "BOUNDS"]);
            let i = find(lines, h)?;
            lines[i] = "ENDATA".into();
            "an early end"
        }
        _ => {
            let i = find(lines, "ROWS")?;
            match d.max {
                Some(_) => {
                    lines[i - 1] = r.pick(&["  MAXIMISE", "  max", " MAX", "MAX", "  ", "  MINI", "  MAX MIN"]).to_string();
                    "an unreadable objective sense"
                }
                None => {
                    lines.insert(i, r.pick(&["OBJSENSE", "OBJSENSE MAX", "OBJ", "MAX", "  MAX"]).to_string());
                    "an incomplete objective sense"
                }
            }
        }
    })
}
fn mutate(r: &mut Rng, text: &str) -> String {
    let mut b: Vec<char> = text.chars().collect();
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    for _ in 0..1 + r.below(4) {
        match r.below(12) {
            0 | 1 | 2 if !b.is_empty() => {
                let i = r.below(b.len());
                let odd = ['\0', '\t', ' ', '\n', '\r', 'é', '*', '-', '9', '.', '\u{feff}', '\u{2028}', '\u{a0}', '😀', 'N', '\''];
                match r.below(3) {
                    0 => b[i] = *r.pick(&odd),
                    1 => b.insert(i, *r.pick(&odd)),
                    _ => {
                        b.remove(i);
                    }
                }
                lines = b.iter().collect::<String>().split('\n').map(|s| s.to_string()).collect();
            }
            3 if !b.is_empty() => {
                b.truncate(r.below(b.len()));
                lines = b.iter().collect::<String>().split('\n').map(|s| s.to_string()).collect();
            }
            k if !lines.is_empty() => {
                let i = r.below(lines.len());
                let j = r.below(lines.len());
                match k {
                    4 => {
                        lines.remove(i);
                    }
                    5 => {
                        let l = lines[i].clone();
                        lines.insert(j, l);
                    }
                    6 => lines.swap(i, j),
                    7 => {
                        let n = r.below(lines[i].chars().count() + 1);
                        lines[i] = lines[i].chars().take(n).collect();
                    }
                    8 => {
                        let mut f: Vec<&str> = lines[i].split(' ').collect();
                        if f.len() > 1 {
                            let (a, c) = (r.below(f.len()), r.below(f.len()));
                            f.swap(a, c);
                        }
                        lines[i] = f.join(" ");
                    }
                    9 => {
                        let f: Vec<&str> = lines[i].split(' ').collect();
                        let k = r.below(f.len());
                        lines[i] = f.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect::<Vec<_>>().join(" ");
                    }
                    10 => {
                        let s = *r.pick(&["NAME", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA", "OBJSENSE", " ", "", "  MAX", " N", " E", " UP", "    x", "    M1  'MARKER'  'INTORG'", "              'MARKER'", "*"]);
                        lines.insert(i, s.to_string());
                    }
                    _ => {
                        let long = r.pick(&["9", "x", " ", ".", "é"]).repeat(1 + r.below(300));
                        lines[i].push_str(&long);
                    }
                }
                b = lines.join("\n").chars().collect();
            }
            _ => {}
        }
    }
    lines.join("\n")
}
/// Both readers and the conversion; the number of results.
fn digest(text: &str) -> Result<[Option<bool>; 2], String> {
    let mut out = [None, None];
    for (k, fixed) in [(0, false), (1, true)] {
        let how = if fixed { "fixed" } else { "free" };
        let p = guarded(|| if fixed { read_fixed(text) } else { read_free(text) }).map_err(|e| format!("reading as {how} format: {e}"))?;
        if let Ok(p) = p {
            let g = guarded(|| convert(p)).map_err(|e| format!("converting what was read as {how} format: {e}"))?;
            out[k] = Some(g.is_ok());
        }
        guarded(|| if fixed { parse_fixed::<f64>(text).is_ok() } else { parse_free::<f64>(&text).is_ok() }).map_err(|e| format!("reading floats as {how} format: {e}"))?;
    }
    Ok(out)
}
fn c17(ctx: &mut Ctx) -> Res {
    PLACES.with(|p| p.set(0));
    let result = rejected(ctx);
    if PLACES.with(|p| p.take()) > 0 {
        ctx.count("cases with errors placed at a line of the text");
    }
    result
}
fn rejected(ctx: &mut Ctx) -> Res {
    match ctx.idx % 5 {
        0 | 1 => {
            // Targeted damage, rejected by both readers.
            let d = any_doc(&mut ctx.r, Names::Plain, true);
            let mut lines = plain_lines(&d);
            let Some(what) = damage(&mut ctx.r, &d, &mut lines) else {
                ctx.count("no place for the damage");
                return Ok(());
            };
            let fixed: String = (0..lines.len()).map(|i| in_columns(&lines[i], &section_of(&lines, i)) + "\n").collect();
            let free = lines.join("\n");
            ctx.describe(format!("{what}\n{free}"));
            let got = guarded(|| read_free(&free))?;
            if let Ok(p) = got {
                let c = guarded(|| convert(p))?;
                ensure!(c.is_err(), "a file with {what} is accepted");
            } else if !what.contains("too large") && what != "a bound that can't be read" {
                // What has no meaning has none with floats either.
                ensure!(guarded(|| parse_free::<f64>(&free).is_err())?, "a file with {what} is accepted with floats");
                ctx.count("rejected with floats");
            }
            // What fits its columns is rejected in the fixed format as well.
            let fits = lines.iter().all(|l| l.split_whitespace().all(|w| w.chars().all(|c| c.is_ascii()) && w.len() <= 12)) && what != "a line with an incomplete second pair" && !what.contains("marker") && what != "text after the end";
            let fits = fits && !what.contains("type") && d.rows.iter().all(|r| r.1.len() <= 8) && d.cols.iter().all(|c| c.name.len() <= 8) && !lines.iter().any(|l| l.contains("another_cost"));
            if fits {
                ctx.describe(format!("{what}\n{fixed}"));
                let got = guarded(|| read_fixed(&fixed))?;
                if let Ok(p) = got {
                    let c = guarded(|| convert(p))?;
                    ensure!(c.is_err(), "a fixed format file with {what} is accepted");
                }
                ctx.count("rejected in fixed format");
            } else {
                guarded(|| read_fixed(&fixed).is_ok())?;
            }
            ctx.count("rejected");
            ctx.count(&format!("rejected: {what}"));
            ctx.nontrivial(&format!("{what}{}", mix(&free) % 64));
        }
        2 | 3 => {
            let style = *ctx.r.pick(&[Names::Plain, Names::Plain, Names::Spaced, Names::Token]);
            let d = any_doc(&mut ctx.r, style, false);
            let text = if ctx.r.chance(1, 2) && style != Names::Token { mpsgen::fixed_text(&mut ctx.r, &d) } else { mpsgen::free_text(&mut ctx.r, &d) };
            let mut accepted = 0;
            for _ in 0..6 {
                let m = mutate(&mut ctx.r, &text);
                ctx.describe(m.clone());
                let out = digest(&m)?;
                for o in out {
                    ctx.count(match o {
                        None => "mutants rejected when read",
                        Some(false) => "mutants rejected when converted",
                        Some(true) => "mutants accepted",
                    });
                    accepted += o.is_some() as u32;
                }
                ctx.count("mutants");
                misread(ctx, &m, false)?;
                misread(ctx, &m, true)?;
            }
            ctx.nontrivial(&format!("{}{accepted}", mix(&text) % 4096));
        }
        _ => {
            // Text that never was a file, and files that are none.
            let words = ["NAME", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA", "OBJSENSE", " N c", " E r", " L s", " x r 1", " h r 1", " UP b x 1", "*", "", " ", "\t", "NAME x", "  MAX", " x c 1 r 2", " \u{a0}", "é", " é é é", "    é       r         1", " M 'MARKER' 'INTORG'", "\u{feff}NAME x", "              'MARKER'", " FR b x", "\r"];
            let n = ctx.r.below(30);
            let mut t = if ctx.r.chance(2, 3) { "NAME x\nROWS\n N c\n E r\n".to_string() } else { String::new() };
            for _ in 0..n {
                t.push_str(*ctx.r.pick(&words));
                t.push_str(*ctx.r.pick(&["\n", "\n", "\n", "\r\n", "", "\n\n"]));
            }
            ctx.describe(t.clone());
            digest(&t)?;
            ctx.count("texts");
            if ctx.idx % 50 == 4 {
                files(ctx, &t)?;
            }
            ctx.nontrivial(&format!("{}", mix(&t)));
        }
    }
    Ok(())
}
/// What is accepted after all is what the text says: nothing wraps, is cut short or left out.
fn misread(ctx: &mut Ctx, text: &str, fixed: bool) -> Res {
    let Ok(p) = guarded(|| if fixed { read_fixed(text) } else { read_free(text) })? else { return Ok(()) };
    let Ok(d) = mpsgen::read(text, fixed) else {
        ctx.count("accepted mutants that only the library reads");
        return Ok(());
    };
    ctx.count("accepted mutants compared");
    same(&p, &d).map_err(|e| format!("a damaged {} format file is accepted, but misread: {e}", if fixed { "fixed" } else { "free" }))
}
fn files(ctx: &mut Ctx, t: &str) -> Res {
    let dir = std::env::temp_dir().join(format!("relp-verif-mps-{}-{}", std::process::id(), ctx.idx));
    std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {e}"))?;
    let res = (|| -> Res {
        for (name, bytes) in [("a.mps", t.as_bytes().to_vec()), ("b.SIF", t.as_bytes().to_vec()), ("c.lp", t.as_bytes().to_vec()), ("d", t.as_bytes().to_vec()), ("e.mps", vec![0xff, 0xfe, 0x00]), (".mps", vec![])] {
            let p = dir.join(name);
            std::fs::write(&p, bytes).map_err(|e| format!("harness: {e}"))?;
            let r = guarded(|| relp::io::import::<RB>(&p).is_ok())?;
            ensure!(!r || name == "a.mps" || name == "b.SIF", "{name} is imported");
            ctx.count("paths");
        }
        for name in ["missing.mps", "missing", "", "."] {
            let p = dir.join(name);
            ensure!(!guarded(|| relp::io::import::<RB>(&p).is_ok())?, "the path {name:?} is imported");
            ctx.count("paths");
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    res
}

// C18 ------------------------------------------------------------------------------------------

fn general_of(lp: &Lp, integer: &[bool], sorted: bool) -> GeneralForm<RB> {
    let mut order: Vec<usize> = (0..lp.rows.len()).collect();
    if sorted {
        order.sort_by(|&a, &b| lp.rows[a].name.as_bytes().cmp(lp.rows[b].name.as_bytes()));
    }
    let mut cols: Vec<Vec<(usize, RB)>> = vec![vec![]; lp.vars.len()];
    for (k, &i) in order.iter().enumerate() {
        for (j, a) in &lp.rows[i].coef {
            cols[*j].push((k, to_rb(a)));
        }
    }
    GeneralForm::new(
        if lp.max { Objective::Maximize } else { Objective::Minimize },
        ColumnMajor::new(cols, order.len(), lp.vars.len()),
        order.iter().map(|&i| relation(&lp.rows[i].rel, to_rb)).collect(),
        DenseVector::new(order.iter().map(|&i| to_rb(&lp.rows[i].rhs)).collect(), order.len()),
        lp.vars
            .iter()
            .zip(integer)
            .map(|(v, int)| Variable {
                variable_type: if *int { VariableType::Integer } else { VariableType::Continuous },
                cost: to_rb(&v.cost),
                lower_bound: v.lb.as_ref().map(to_rb),
                upper_bound: v.ub.as_ref().map(to_rb),
                shift: to_rb(&Rat::zero()),
                flipped: false,
            })
            .collect(),
        lp.vars.iter().map(|v| v.name.clone()).collect(),
        to_rb(&Rat::zero()),
    )
}
/// Problem files shipped with the project, smallest first.
fn shipped() -> Vec<(std::path::PathBuf, u64)> {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".to_string());
    let mut v = vec![];
    for d in std::fs::read_dir(format!("{root}/tests")).into_iter().flatten().flatten() {
        for f in std::fs::read_dir(d.path().join("problem_files")).into_iter().flatten().flatten() {
            let p = f.path();
            if p.extension().is_some_and(|e| e == "mps" || e == "SIF") {
                v.push((p, f.metadata().map_or(0, |m| m.len())));
            }
        }
    }
    v.sort_by_key(|e| (e.1, e.0.clone()));
    v
}
/// A shipped file read and converted by the library and by the independent reader.
fn shipped_case(ctx: &mut Ctx, path: &std::path::Path) -> Res {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("harness: {e}"));
    let fixed = path.extension().is_some_and(|e| e == "SIF");
    ctx.describe(format!("{} read as {}", path.display(), if fixed { "fixed" } else { "free" }));
    // Some files go on with instructions to modify the problem, which is not supported.
    let complete = text.lines().skip_while(|l| !l.starts_with("ENDATA")).skip(1).all(|l| l.trim().is_empty() || l.starts_with('*'))
        && text.lines().all(|l| l.is_empty() || l.starts_with([' ', '*']) || ["NAME", "OBJSENSE", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA"].iter().any(|s| l.starts_with(s)));
    let reader = mpsgen::read(&text, fixed).ok().filter(|_| complete).and_then(|d| mpsgen::meaning(&d));
    let got = guarded(|| if fixed { read_fixed(&text) } else { read_free(&text) })?;
    let got = match got {
        Ok(m) => guarded(|| convert(m))?,
        Err(e) => Err(e),
    };
    match (reader, got) {
        (None, Err(_)) => ctx.count("shipped files rejected"),
        (None, Ok(_)) => return Err("a file without a meaning is accepted".to_string()),
        (Some(_), Err(e)) => return Err(format!("a meaningful file is rejected: {e}")),
        (Some((lp, integer)), Ok(got)) => {
            ensure!(got == general_of(&lp, &integer, true) || got == general_of(&lp, &integer, false), "the problem is not the one the file describes");
            ctx.nontrivial(&format!("shipped {}", path.display()));
            ctx.count("shipped files converted");
        }
    }
    Ok(())
}
fn c18(ctx: &mut Ctx) -> Res {
    let files = shipped();
    if let Some((path, size)) = files.get(ctx.idx as usize) {
        if ctx.thorough || *size < 600_000 {
            return shipped_case(ctx, path);
        }
    }
    let style = if ctx.r.chance(1, 4) { Names::Token } else { Names::Plain };
    let sane = ctx.r.chance(9, 10);
    let d = any_doc(&mut ctx.r, style, sane);
    let fixed = style == Names::Plain && ctx.r.chance(1, 4) && d.cost_row.len() <= 8;
    let text = if fixed { mpsgen::fixed_text(&mut ctx.r, &d) } else { mpsgen::free_text(&mut ctx.r, &d) };
    ctx.describe(text.clone());
    let parsed = guarded(|| if fixed { read_fixed(&text) } else { read_free(&text) })?.map_err(|e| format!("a well-formed file is rejected: {e}"))?;
    let got = guarded(|| convert(parsed))?;
    let Some((lp, integer)) = mpsgen::meaning(&d) else {
        ensure!(got.is_err(), "a file without a meaning is accepted: a free variable with bounds, or different right-hand sides");
        ctx.count("rejected");
        return Ok(());
    };
    ctx.describe_more(&lp.show());
    let got = got.map_err(|e| format!("a meaningful file is rejected: {e}"))?;
    if got != general_of(&lp, &integer, true) && got != general_of(&lp, &integer, false) {
        let (e, g) = (format!("{:?}", general_of(&lp, &integer, true)), format!("{got:?}"));
        let at = e.bytes().zip(g.bytes()).take_while(|(a, b)| a == b).count();
        let show = |s: &str| s.chars().skip(at.saturating_sub(80)).take(240).collect::<String>();
        return Err(format!("converted to ...{}... where the file describes ...{}...", show(&g), show(&e)));
    }
    ctx.count("conversions");
    for g in &d.ranges {
        for (n, v) in &g.1 {
            let t = d.rows.iter().find(|r| r.1 == *n).unwrap().0;
            let has = d.rhs.iter().any(|g| g.1.iter().any(|e| e.0 == *n));
            ctx.count(&format!("range of {t} row, {}, {} right-hand side", ["negative", "zero", "positive"][(v.sign() + 1) as usize], if has { "with" } else { "without" }));
        }
    }
    for g in &d.bounds {
        for l in &g.1 {
            ctx.count(&format!("bound {}", l.kind));
        }
    }
    ctx.nontrivial(&signature(&d, &text));
    tally(ctx, &d);
    // The whole way, from memory or from disk, for problems of a size that the oracle can take.
    if !mk::contradictory(&lp) && lp.rows.len() <= 12 && lp.vars.len() <= 14 && ctx.idx % 3 == 0 {
        let o = Opts { presolve: ctx.r.chance(1, 2), scale: ctx.r.chance(1, 4), lu: ctx.r.chance(2, 3) };
        let truth = oracle::solve(&lp);
        let g = if ctx.r.chance(1, 3) && !fixed {
            let dir = std::env::temp_dir().join(format!("relp-verif-mps-{}-{}", std::process::id(), ctx.idx));
            std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {e}"))?;
            let p = dir.join(if ctx.r.chance(1, 2) { "p.mps" } else { "p.SIF" });
            std::fs::write(&p, &text).map_err(|e| format!("harness: {e}"))?;
            let g = guarded(|| match relp::io::import::<RB>(&p) {
                Ok(x) => {
                    let g: Result<GeneralForm<RB>, _> = x.try_into();
                    g.map_err(|e| format!("{e}"))
                }
                Err(e) => Err(format!("{e}")),
            });
            let _ = std::fs::remove_dir_all(&dir);
            ctx.count("imported from disk");
            let g = g?.map_err(|e| format!("import of a well-formed file fails: {e}"))?;
            ensure!(g == got, "the import from disk differs from the text that was parsed");
            g
        } else {
            got
        };
        let mut out = guarded(|| if o.lu { solve_general::<Lu>(g, o.presolve, o.scale) } else { solve_general::<Rows>(g, o.presolve, o.scale) })?;
        if ctx.r.chance(1, 4) {
            // The problem in numbers of the size of those in the file.
            let parsed = guarded(|| if fixed { read_fixed(&text) } else { read_free(&text) })?.map_err(|e| format!("harness: {e}"))?;
            let solved = guarded(|| {
                let g: GeneralForm<Rational64> = parsed.try_into().map_err(|e| format!("converted once but not to 64 bit numbers: {e}"))?;
                Ok::<_, String>(solve_general_64(g, o.presolve, o.lu).0)
            });
            match solved {
                Ok(s) => {
                    out = s?;
                    ctx.count("solved files in 64 bit numbers");
                }
                Err(e) if e.contains("relp-num") && e.contains("overflow") => ctx.count("numbers overflow"),
                Err(e) => return Err(format!("{e} ({o:?}, 64 bit numbers)")),
            }
        }
        ensure!(out.kind() == truth.kind(), "solving the file reports {}, what it describes is {} ({o:?})", out.kind(), truth.kind());
        if let (Outcome::Optimal { values, .. }, Truth::Optimal { obj, .. }) = (&out, &truth) {
            let map: HashMap<&str, &Rat> = values.iter().map(|(n, v)| (n.as_str(), v)).collect();
            let x: Option<Vec<Rat>> = lp.vars.iter().map(|v| map.get(v.name.as_str()).map(|x| (*x).clone())).collect();
            let x = x.ok_or("the solution of a file lacks variables")?;
            if let Some(e) = lp.infeasibility(&x) {
                return Err(format!("the solution of the file is infeasible: {e} ({o:?})"));
            }
            ensure!(lp.objective(&x) == *obj, "the solution of the file has value {}, the optimum is {obj} ({o:?})", lp.objective(&x));
            ctx.count("optimal files");
        }
        ctx.count("solved files");
    }
    if ctx.idx < 6 {
        ctx.sample(format!("{text}\n->\n{}", lp.show()));
    }
    Ok(())
}

const ASSUME: &str = "The file grammar and its meaning are those of the module documentation of relp::io::mps and the format description it links to, written down in DESIGN.md; exponents in numbers are not part of the supported notation.";

fn main() {
    run(&[
        Prop {
            id: "C15",
            rule: "a random document (or one describing a random problem) written twice in random free layouts and compared with what was read, and files of numbers in every notation up to the supported size; distinct = number of rows, columns and groups, kinds of bounds and layout class",
            quick: 400000, thorough: 20000000, hang: 30, wall: (40, 780),
            floors: &[("large", 40), ("files", 2000), ("numbers", 10000), ("notations", 2000), ("bounds", 2000), ("with integer columns", 200), ("files with floats", 2000), ("with several groups", 200)],
            assumptions: &[ASSUME],
            case: c15,
        },
        Prop {
            id: "C16",
            rule: "a random document laid out in fixed columns with random padding, comments and line ends, read as fixed format, as free format where names allow, and laid out again in free format; distinct = shape of the document and layout class",
            quick: 400000, thorough: 20000000, hang: 30, wall: (40, 780),
            floors: &[("large", 40), ("fixed files", 2000), ("read by both", 1000), ("with spaces in names", 300), ("line ends", 4000), ("laid out both ways", 1000)],
            assumptions: &[ASSUME],
            case: c16,
        },
        Prop {
            id: "C17",
            rule: "well-formed files with one targeted damage that has to be rejected, files after one to four random mutations of characters, fields and lines, texts of random words, and paths that are no problem files; distinct = kind of damage and text",
            quick: 450000, thorough: 30000000, hang: 30, wall: (40, 780),
            floors: &[("rejected", 2000), ("rejected with floats", 1000), ("mutants", 5000), ("mutants accepted", 200), ("texts", 1000), ("rejected in fixed format", 500), ("paths", 50)],
            assumptions: &[ASSUME],
            case: c17,
        },
        Prop {
            id: "C18",
            rule: "a random document with random row types, ranges, right-hand sides, bounds and markers, converted and compared with the independent meaning of the document, a third of the small ones solved in a random configuration from memory or from disk and compared with the exact oracle; distinct = shape of the document and kinds of bounds",
            quick: 200000, thorough: 8000000, hang: 60, wall: (40, 780),
            floors: &[("large", 40), ("conversions", 2000), ("shipped files converted", 40), ("solved files", 200), ("optimal files", 50), ("imported from disk", 50), ("bound MI", 100), ("bound FR", 100), ("bound UI", 100), ("range of E row, negative, without right-hand side", 10)],
            assumptions: &[ASSUME, "The exact oracle verifies every verdict it gives by a certificate before it is used."],
            case: c18,
        },
    ])
}
