//! Abstract MPS documents: built from linear programs or at random, written in either layout and
//! in many styles, read back by an independent reader, and given their documented meaning.
use crate::big::Rat;
use crate::lp::{Lp, Rel, Row, Var};
use crate::rng::Rng;
use std::collections::HashMap;

pub type Pairs = Vec<(String, Rat)>;
#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub integer: bool,
    /// Row (or cost row) and value.
    pub entries: Pairs,
}
#[derive(Clone, Debug)]
pub struct BoundLine {
    pub kind: &'static str,
    pub col: String,
    pub value: Option<Rat>,
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub name: String,
    /// `None` if the section is left out.
    pub max: Option<bool>,
    pub cost_row: String,
    pub cost_pos: usize,
    pub rows: Vec<(char, String)>,
    pub cols: Vec<Col>,
    pub rhs: Vec<(String, Pairs)>,
    pub ranges: Vec<(String, Pairs)>,
    pub bounds: Vec<(String, Vec<BoundLine>)>,
}
pub const KINDS: [&str; 9] = ["LO", "UP", "FX", "FR", "MI", "PL", "BV", "LI", "UI"];
pub fn needs_value(kind: &str) -> bool {
    matches!(kind, "LO" | "UP" | "FX" | "LI" | "UI")
}

/// The meaning of a document, rows in the order of the file; the second part tells which variables
/// are integer. `None` where the documented rules say nothing sensible.
pub fn meaning(d: &Doc) -> Option<(Lp, Vec<bool>)> {
    let index: HashMap<&str, usize> = d.rows.iter().enumerate().map(|(i, r)| (r.1.as_str(), i)).collect();
    let cols: HashMap<&str, usize> = d.cols.iter().enumerate().map(|(i, c)| (c.name.as_str(), i)).collect();
    let m = d.rows.len();
    let mut coef: Vec<Vec<(usize, Rat)>> = vec![vec![]; m];
    let mut vars = vec![];
    let mut integer = vec![];
    for (j, c) in d.cols.iter().enumerate() {
        let mut cost = Rat::zero();
        for (row, v) in &c.entries {
            if *row == d.cost_row {
                cost = v.clone();
            } else if !v.is_zero() {
                coef[*index.get(row.as_str())?].push((j, v.clone()));
            }
        }
        vars.push(Var { name: c.name.clone(), cost, lb: None, ub: None });
        integer.push(c.integer);
    }
    let mut rhs: Vec<Option<Rat>> = vec![None; m];
    for (_, pairs) in &d.rhs {
        for (row, v) in pairs {
            let i = *index.get(row.as_str())?;
            rhs[i] = Some(match (&rhs[i], d.rows[i].0) {
                (None, _) => v.clone(),
                (Some(o), 'L') => o.clone().min(v.clone()),
                (Some(o), 'G') => o.clone().max(v.clone()),
                (Some(o), _) if o == v => v.clone(),
                _ => return None,
            });
        }
    }
    let mut range: Vec<Option<Rat>> = vec![None; m];
    for (_, pairs) in &d.ranges {
        for (row, v) in pairs {
            let i = *index.get(row.as_str())?;
            if range[i].is_some() {
                return None;
            }
            range[i] = Some(v.clone());
        }
    }
    // A range is relative to the right-hand side, so there can be but one.
    for i in 0..m {
        let mut all = d.rhs.iter().flat_map(|g| g.1.iter()).filter(|e| e.0 == d.rows[i].1).map(|e| &e.1);
        let first = all.next();
        if range[i].is_some() && all.any(|v| Some(v) != first) {
            return None;
        }
    }
    let rows = (0..m)
        .map(|i| {
            let b = rhs[i].clone().unwrap_or_else(Rat::zero);
            let (rel, rhs) = match (&range[i], d.rows[i].0) {
                (None, 'L') => (Rel::Le, b),
                (None, 'G') => (Rel::Ge, b),
                (None, _) => (Rel::Eq, b),
                (Some(r), _) if r.is_zero() => (Rel::Eq, b),
                (Some(r), 'L') => (Rel::Rng(r.abs()), b),
                (Some(r), 'G') => (Rel::Rng(r.abs()), b.add(&r.abs())),
                (Some(r), _) if r.sign() > 0 => (Rel::Rng(r.abs()), b.add(&r.abs())),
                (Some(r), _) => (Rel::Rng(r.abs()), b),
            };
            Row { name: d.rows[i].1.clone(), rel, rhs, coef: std::mem::take(&mut coef[i]) }
        })
        .collect();
    let mut default_lb = vec![true; vars.len()];
    let mut free = vec![false; vars.len()];
    for (_, lines) in &d.bounds {
        for l in lines {
            let j = *cols.get(l.col.as_str())?;
            let v: &mut Var = &mut vars[j];
            let lo = |v: &mut Var, x: Rat| {
                if v.lb.as_ref().is_none_or(|l| *l < x) {
                    v.lb = Some(x);
                }
            };
            let up = |v: &mut Var, x: Rat| {
                if v.ub.as_ref().is_none_or(|l| *l > x) {
                    v.ub = Some(x);
                }
            };
            let value = l.value.clone();
            if matches!(l.kind, "BV" | "LI" | "UI") {
                integer[j] = true;
            }
            if l.kind != "UP" && l.kind != "UI" {
                default_lb[j] = false;
            }
            match l.kind {
                "LO" | "LI" => lo(v, value?),
                "UP" | "UI" => up(v, value?),
                "FX" => {
                    lo(v, value.clone()?);
                    up(v, value?);
                }
                "FR" => free[j] = true,
                "MI" => up(v, Rat::zero()),
                "PL" => lo(v, Rat::zero()),
                "BV" => {
                    lo(v, Rat::zero());
                    up(v, Rat::one());
                }
                _ => return None,
            }
        }
    }
    for (j, v) in vars.iter_mut().enumerate() {
        if free[j] && (v.lb.is_some() || v.ub.is_some()) {
            return None;
        }
        if default_lb[j] && v.lb.is_none() {
            v.lb = Some(Rat::zero());
        }
    }
    Some((Lp { max: d.max.unwrap_or(false), fixed: Rat::zero(), rows, vars }, integer))
}

/// The shortest decimal notation, if it fits in a field: digits and how many of them are decimals.
fn decimal(v: &Rat) -> Option<(bool, String, usize)> {
    for k in 0..=12 {
        let s = v.abs().mul(&Rat::int(10i64.pow(k as u32)));
        let t = s.to_string();
        if !t.contains('/') {
            let mut t = t;
            while t.len() <= k {
                t.insert(0, '0');
            }
            let width = (v.sign() < 0) as usize + t.len() + (k > 0) as usize;
            return (width <= 12).then_some((v.sign() < 0, t, k));
        }
    }
    None
}
pub fn is_decimal(v: &Rat) -> bool {
    decimal(v).is_some()
}
/// One of the notations of a number, at most `width` characters.
pub fn number_text(r: &mut Rng, v: &Rat, width: usize) -> Option<String> {
    let (neg, digits, k) = decimal(v)?;
    let (int, dec) = digits.split_at(digits.len() - k);
    let plain = |int: &str, dec: &str, point: bool| {
        format!("{}{}{}{}", if neg { "-" } else { "" }, int, if point || !dec.is_empty() { "." } else { "" }, dec)
    };
    let mut s = plain(int, dec, false);
    let mut i = int.to_string();
    let mut d = dec.to_string();
    if r.chance(1, 3) && int == "0" && !dec.is_empty() {
        i.clear();
    } else if r.chance(1, 10) {
        i.insert_str(0, &"0".repeat(r.below(3)));
    }
    let point = r.chance(1, 3);
    if (point || !d.is_empty()) && r.chance(1, 4) && i.len() + d.len() < 16 {
        d.push_str(&"0".repeat(r.below(3)));
    }
    let mut t = plain(&i, &d, point);
    if !neg && r.chance(1, 10) {
        t.insert(0, '+');
    }
    if v.is_zero() && r.chance(1, 8) {
        t = "-0".to_string();
    }
    if r.chance(2, 3) {
        s = t;
    }
    if s.len() > width {
        s = plain(int, dec, false);
    }
    (s.len() <= width).then_some(s)
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
fn denominator(v: &Rat) -> Option<i64> {
    let s = v.to_string();
    match s.split_once('/') {
        None => Some(1),
        Some((_, d)) => d.parse().ok(),
    }
}
fn lcm<'a>(it: impl Iterator<Item = &'a Rat>) -> Option<Rat> {
    let mut l: i64 = 1;
    for v in it {
        let d = denominator(v)?;
        l = (l / gcd(l, d)).checked_mul(d)?;
    }
    Some(Rat::int(l))
}
/// The same linear program up to positive multiples of its rows and costs and without fixed cost,
/// such that an MPS file can state it exactly; `None` if there is no such program.
pub fn representable(lp: &Lp) -> Option<Lp> {
    let mut lp = lp.clone();
    lp.fixed = Rat::zero();
    let token = |s: &str| !s.is_empty() && !s.starts_with('*') && !s.contains(char::is_whitespace) && s != "'MARKER'";
    for r in lp.rows.iter_mut() {
        let mut all: Vec<Rat> = r.coef.iter().map(|c| c.1.clone()).collect();
        all.push(r.rhs.clone());
        if let Rel::Rng(w) = &r.rel {
            all.push(w.clone());
            all.push(r.rhs.sub(w));
        }
        if !all.iter().all(is_decimal) {
            let f = lcm(all.iter())?;
            r.coef.iter_mut().for_each(|c| c.1 = c.1.mul(&f));
            r.rhs = r.rhs.mul(&f);
            if let Rel::Rng(w) = &mut r.rel {
                *w = w.mul(&f);
            }
            if !all.iter().all(|a| is_decimal(&a.mul(&f))) {
                return None;
            }
        }
        if !token(&r.name) {
            return None;
        }
    }
    if !lp.vars.iter().all(|v| is_decimal(&v.cost)) {
        let f = lcm(lp.vars.iter().map(|v| &v.cost))?;
        lp.vars.iter_mut().for_each(|v| v.cost = v.cost.mul(&f));
    }
    for v in &lp.vars {
        if !token(&v.name) || !is_decimal(&v.cost) {
            return None;
        }
        if v.lb.as_ref().is_some_and(|b| !is_decimal(b)) || v.ub.as_ref().is_some_and(|b| !is_decimal(b)) {
            return None;
        }
        if v.lb.is_none() && v.ub.as_ref().is_some_and(|u| u.sign() > 0) {
            return None;
        }
    }
    Some(lp)
}

/// A document for a representable program. Rows and columns keep their order.
pub fn doc(r: &mut Rng, lp: &Lp) -> Doc {
    let mut cost_row = r.pick(&["COST", "obj", "OBJROW", "z", "0"]).to_string();
    while lp.rows.iter().any(|x| x.name == cost_row) {
        cost_row.push('_');
    }
    let mut rows = vec![];
    let mut rhs: Pairs = vec![];
    let mut ranges: Pairs = vec![];
    for row in &lp.rows {
        let (t, b) = match &row.rel {
            Rel::Le => ('L', row.rhs.clone()),
            Rel::Ge => ('G', row.rhs.clone()),
            Rel::Eq => (*r.pick(&['E', 'E', 'E', 'L', 'G']), row.rhs.clone()),
            Rel::Rng(w) => match r.below(4) {
                0 => ('L', row.rhs.clone()),
                1 => ('G', row.rhs.sub(w)),
                2 => ('E', row.rhs.clone()),
                _ => ('E', row.rhs.sub(w)),
            },
        };
        match &row.rel {
            Rel::Eq if t != 'E' => ranges.push((row.name.clone(), Rat::zero())),
            Rel::Rng(w) => {
                let v = if t == 'E' {
                    if b == row.rhs { w.neg() } else { w.clone() }
                } else if r.chance(1, 4) {
                    w.neg()
                } else {
                    w.clone()
                };
                ranges.push((row.name.clone(), v));
            }
            _ => {}
        }
        if !b.is_zero() || r.chance(1, 4) {
            rhs.push((row.name.clone(), b));
        }
        rows.push((t, row.name.clone()));
    }
    let mut cols: Vec<Col> = lp.vars.iter().map(|v| Col { name: v.name.clone(), integer: false, entries: vec![] }).collect();
    for (j, v) in lp.vars.iter().enumerate() {
        if !v.cost.is_zero() || r.chance(1, 6) {
            cols[j].entries.push((cost_row.clone(), v.cost.clone()));
        }
    }
    for row in &lp.rows {
        for (j, a) in &row.coef {
            cols[*j].entries.push((row.name.clone(), a.clone()));
        }
    }
    for c in cols.iter_mut() {
        if c.entries.is_empty() {
            let row = if lp.rows.is_empty() || r.chance(1, 2) { cost_row.clone() } else { r.pick(&lp.rows).name.clone() };
            c.entries.push((row, Rat::zero()));
        }
        if r.chance(1, 3) {
            r.shuffle(&mut c.entries);
        }
    }
    let mut bounds: Vec<BoundLine> = vec![];
    for v in &lp.vars {
        let mut add = |kind, value: Option<Rat>| bounds.push(BoundLine { kind, col: v.name.clone(), value });
        match (&v.lb, &v.ub) {
            (None, None) => add("FR", None),
            (None, Some(u)) => {
                add("MI", None);
                if !u.is_zero() || r.chance(1, 3) {
                    add("UP", Some(u.clone()));
                }
            }
            (Some(l), None) => {
                if !l.is_zero() {
                    add("LO", Some(l.clone()));
                    if l.sign() > 0 && r.chance(1, 4) {
                        add("PL", None);
                    }
                } else {
                    match r.below(4) {
                        0 => add("PL", None),
                        1 => add("LO", Some(l.clone())),
                        _ => {}
                    }
                }
            }
            (Some(l), Some(u)) => {
                if l == u && r.chance(2, 3) {
                    add("FX", Some(l.clone()));
                } else {
                    if !l.is_zero() || r.chance(1, 3) {
                        add("LO", Some(l.clone()));
                    }
                    add("UP", Some(u.clone()));
                }
            }
        }
    }
    if r.chance(1, 3) {
        r.shuffle(&mut rhs);
        r.shuffle(&mut ranges);
        r.shuffle(&mut bounds);
    }
    let group = |v: Pairs, name: &str| if v.is_empty() { vec![] } else { vec![(name.to_string(), v)] };
    let max = if lp.max {
        Some(true)
    } else if r.chance(1, 3) {
        Some(false)
    } else {
        None
    };
    Doc {
        name: r.pick(&["TESTPROB", "x", "some-name", "1"]).to_string(),
        max,
        cost_row,
        cost_pos: r.below(rows.len() + 1),
        rows,
        cols,
        rhs: group(rhs, "RHS1"),
        ranges: group(ranges, "RNG"),
        bounds: if bounds.is_empty() { vec![] } else { vec![("BND".to_string(), bounds)] },
    }
}

struct Out<'a> {
    text: String,
    r: &'a mut Rng,
    fixed: bool,
    noise: bool,
}
impl Out<'_> {
    fn line(&mut self, s: &str) {
        if self.noise && self.r.chance(1, 12) {
            let c = ["* a comment\n", "\n", "*\n", "   * NAME indented comment\n", "*ROWS\n", "\n\n"];
            self.text.push_str(c[self.r.below(c.len())]);
        }
        self.text.push_str(s);
        if self.noise && s.starts_with(' ') && !s.trim_start().starts_with("M") && self.r.chance(1, 6) {
            self.text.push_str(&" ".repeat(1 + self.r.below(3)));
        }
        self.text.push('\n');
    }
    fn gap(&mut self) -> String {
        if !self.noise {
            return "  ".into();
        }
        match self.r.below(8) {
            0 => "\t".into(),
            1 => " \t ".into(),
            n => " ".repeat(n),
        }
    }
    /// A data line of fields 1 to 6, of which some are left out (`None`).
    fn fields(&mut self, f: [Option<&str>; 6]) {
        let mut s = String::from(" ");
        if self.fixed {
            let start = [1, 4, 14, 24, 39, 49];
            let width = [2, 8, 8, 12, 8, 12];
            for i in 0..6 {
                if let Some(t) = f[i] {
                    assert!(t.len() <= width[i], "harness: field too wide: {t}");
                    let slack = width[i] - t.len();
                    let number = i == 3 || i == 5;
                    let pad = if number && self.noise { self.r.below(slack + 1) } else if number { slack } else { 0 };
                    while s.len() < start[i] + pad {
                        s.push(' ');
                    }
                    s.push_str(t);
                }
            }
        } else {
            let lead = self.gap();
            s.push_str(&lead);
            let mut first = true;
            for t in f.into_iter().flatten() {
                if !first {
                    let g = self.gap();
                    s.push_str(&g);
                }
                first = false;
                s.push_str(t);
            }
        }
        self.line(&s);
    }
    fn pairs(&mut self, name: &str, pairs: &[(String, Rat)]) {
        let mut i = 0;
        while i < pairs.len() {
            let two = i + 1 < pairs.len() && self.r.chance(1, 2);
            let a = number_text(self.r, &pairs[i].1, 12).unwrap_or_else(|| panic!("harness: {} is not a short decimal", pairs[i].1));
            if two {
                let b = number_text(self.r, &pairs[i + 1].1, 12).unwrap_or_else(|| panic!("harness: {} is not a short decimal", pairs[i + 1].1));
                self.fields([None, Some(name), Some(&pairs[i].0), Some(&a), Some(&pairs[i + 1].0), Some(&b)]);
                i += 2;
            } else {
                self.fields([None, Some(name), Some(&pairs[i].0), Some(&a), None, None]);
                i += 1;
            }
        }
    }
}
fn text(r: &mut Rng, d: &Doc, fixed: bool) -> String {
    let noise = r.chance(3, 4);
    let markers_name = "MARKER";
    let mut o = Out { text: String::new(), r, fixed, noise };
    let gap = if fixed { "          ".to_string() } else { o.gap() };
    o.line(&format!("NAME{gap}{}", d.name));
    if let Some(max) = d.max {
        o.line("OBJSENSE");
        let long = o.r.chance(1, 2);
        o.line(match (max, long) {
            (true, true) => "  MAXIMIZE",
            (true, false) => "  MAX",
            (false, true) => "  MINIMIZE",
            (false, false) => "  MIN",
        });
    }
    o.line("ROWS");
    // The type may be in either column of its field.
    let shift = fixed && o.r.chance(1, 3);
    for i in 0..=d.rows.len() {
        if i == d.cost_pos {
            let t = if shift && o.r.chance(2, 3) { " N" } else { "N" };
            o.fields([Some(t), Some(&d.cost_row), None, None, None, None]);
        }
        if i < d.rows.len() {
            let t = format!("{}{}", if shift && o.r.chance(2, 3) { " " } else { "" }, d.rows[i].0);
            o.fields([Some(&t), Some(&d.rows[i].1), None, None, None, None]);
        }
    }
    o.line("COLUMNS");
    let mut integer = false;
    for c in &d.cols {
        if c.integer != integer {
            integer = c.integer;
            let kind = if integer { "'INTORG'" } else { "'INTEND'" };
            if fixed {
                o.line(&format!("    {markers_name:8}  'MARKER'                 {kind}"));
            } else {
                o.fields([None, Some(markers_name), Some("'MARKER'"), None, Some(kind), None]);
            }
        }
        o.pairs(&c.name, &c.entries);
    }
    if integer && o.r.chance(2, 3) {
        o.line(&format!("    {markers_name:8}  'MARKER'                 'INTEND'"));
    }
    let skip = o.r.chance(1, 2);
    if !(d.rhs.is_empty() && skip) {
        o.line("RHS");
        for (g, p) in &d.rhs {
            o.pairs(g, p);
        }
    }
    if !(d.ranges.is_empty() && (skip || o.r.chance(1, 2))) {
        o.line("RANGES");
        for (g, p) in &d.ranges {
            o.pairs(g, p);
        }
    }
    if !(d.bounds.is_empty() && (skip || o.r.chance(1, 2))) {
        o.line("BOUNDS");
        for (g, lines) in &d.bounds {
            for l in lines {
                let v = l.value.as_ref().map(|v| number_text(o.r, v, 12).unwrap_or_else(|| panic!("harness: {v} is not a short decimal")));
                o.fields([Some(l.kind), Some(g), Some(&l.col), v.as_deref(), None, None]);
            }
        }
    }
    let last = if o.r.chance(1, 2) { "ENDATA\n" } else { "ENDATA" };
    o.text.push_str(last);
    if o.r.chance(1, 6) {
        o.text = o.text.replace('\n', "\r\n");
    }
    o.text
}
pub fn free_text(r: &mut Rng, d: &Doc) -> String {
    text(r, d, false)
}
pub fn fixed_text(r: &mut Rng, d: &Doc) -> String {
    text(r, d, true)
}
/// An independent reader, for files that are known to be well-formed.
pub fn read(text: &str, fixed: bool) -> Result<Doc, String> {
    let mut d = Doc { name: String::new(), max: None, cost_row: String::new(), cost_pos: 0, rows: vec![], cols: vec![], rhs: vec![], ranges: vec![], bounds: vec![] };
    let mut section = String::new();
    let mut integer = false;
    for line in text.lines() {
        if line.trim().is_empty() || line.trim_start().starts_with('*') {
            continue;
        }
        if !line.starts_with(' ') {
            let mut it = line.split_whitespace();
            section = it.next().unwrap().to_string();
            if let Some(name) = line.strip_prefix("NAME") {
                if d.name.is_empty() {
                    section = "NAME".to_string();
                    d.name = name.split_whitespace().next().unwrap_or("").to_string();
                }
            }
            if section == "ENDATA" {
                return Ok(d);
            }
            continue;
        }
        let f: Vec<String> = if fixed {
            if (0..62).any(|i| i < line.len() && !line.is_char_boundary(i) && [1, 3, 4, 12, 14, 22, 24, 36, 39, 47, 49, 61].contains(&i)) {
                return Err("a character across columns".into());
            }
            [(1, 3), (4, 12), (14, 22), (24, 36), (39, 47), (49, 61)]
                .iter()
                .enumerate()
                .map(|(k, &(s, e))| {
                    let t = line.get(s..e.min(line.len()).max(s)).unwrap_or("");
                    if matches!(k, 1 | 2 | 4) { t.trim_end().to_string() } else { t.trim().to_string() }
                })
                .collect()
        } else {
            let mut f: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
            if section != "ROWS" && section != "BOUNDS" {
                f.insert(0, String::new());
            }
            f
        };
        let at = |i: usize| f.get(i).cloned().unwrap_or_default();
        let num = |s: &str| Rat::parse_decimal(s).ok_or(format!("number {s:?}"));
        let pairs = || -> Result<Pairs, String> {
            let mut v = vec![(at(2), num(&at(3))?)];
            if !at(4).is_empty() {
                v.push((at(4), num(&at(5))?));
            }
            Ok(v)
        };
        let group = |g: &mut Vec<(String, Pairs)>, p: Pairs| {
            if g.last().is_none_or(|l| l.0 != at(1)) {
                g.push((at(1), vec![]));
            }
            g.last_mut().unwrap().1.extend(p);
        };
        match section.as_str() {
            "OBJSENSE" => d.max = Some(line.trim().starts_with("MAX")),
            "ROWS" => {
                let t = at(0).chars().next().ok_or("row type")?;
                if t == 'N' {
                    if !d.cost_row.is_empty() {
                        return Err("two cost rows".into());
                    }
                    d.cost_row = at(1);
                    d.cost_pos = d.rows.len();
                } else {
                    d.rows.push((t, at(1)));
                }
            }
            "COLUMNS" => {
                if at(2) == "'MARKER'" {
                    integer = line.contains("INTORG");
                    continue;
                }
                if d.cols.last().is_none_or(|c| c.name != at(1)) {
                    d.cols.push(Col { name: at(1), integer, entries: vec![] });
                }
                d.cols.last_mut().unwrap().entries.extend(pairs()?);
            }
            "RHS" => group(&mut d.rhs, pairs()?),
            "RANGES" => group(&mut d.ranges, pairs()?),
            "BOUNDS" => {
                let kind = *KINDS.iter().find(|k| **k == at(0)).ok_or(format!("bound {}", at(0)))?;
                let value = if needs_value(kind) { Some(num(&at(3))?) } else { None };
                if d.bounds.last().is_none_or(|l| l.0 != at(1)) {
                    d.bounds.push((at(1), vec![]));
                }
                d.bounds.last_mut().unwrap().1.push(BoundLine { kind, col: at(2), value });
            }
            s => return Err(format!("section {s}")),
        }
    }
    Err("no end".into())
}
