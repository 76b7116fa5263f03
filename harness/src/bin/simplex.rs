//! Monitors of the simplex method from inside: basis inverses, tableau state, pivot rules, phases.
use relp::algorithm::two_phase::matrix_provider::column::identity::{Identity, IdentityColumn};
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseColumn};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::{IntoFilteredColumn, RemoveRows};
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{compute_bfs_with_rule, FeasibilityComputeTrait, PartialInitialBasis, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{BasisInverse, RemoveBasisPart};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ops, ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::artificial::Cost as ArtificialCost;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp_verif::big::Rat;
use relp_verif::dense::{dot, identity, inverse, mul_vec, rank, show, transpose, vec_mul, Mat};
use relp_verif::drv::{guarded, main as run, Ctx, Prop, Res};
use relp_verif::iface::*;
use relp_verif::lp::{Lp, Rel, Row};
use relp_verif::mk;
use relp_verif::oracle::{self, Truth};
use relp_verif::prov::{Partial, Plain, Sys, Whole};
use relp_verif::rng::Rng;
use relp_verif::watch::{self, column_of, full, Level, Rec, Watch};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { panic!("monitor: {}", format!($($t)*)) } };
}

// Basis inverses -----------------------------------------------------------------------------

fn sparse_col(v: &[Rat]) -> SparseColumn<RB> {
    SparseColumn::new(v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, x)| (i, to_rb(x))).collect())
}
fn random_vec(r: &mut Rng, m: usize) -> Vec<Rat> {
    let style = r.below(6);
    let mut v = vec![Rat::zero(); m];
    if m == 0 {
        return v;
    }
    match style {
        0 => v[r.below(m)] = mk::nonzero(r, false),
        1 => {
            for _ in 0..2 {
                v[r.below(m)] = Rat::int(*r.pick(&[1, -1, 2]));
            }
        }
        2 => v.iter_mut().for_each(|x| *x = Rat::int(r.range(-3, 3))),
        3 => v.iter_mut().for_each(|x| *x = mk::number(r, true)),
        _ => {
            for x in v.iter_mut() {
                if r.chance(1, 3) {
                    *x = Rat::int(r.range(-4, 4));
                }
            }
        }
    }
    v
}
/// An invertible matrix (as a list of columns) of a random structure.
fn invertible(r: &mut Rng, m: usize) -> (Mat, &'static str) {
    let mut perm: Vec<usize> = (0..m).collect();
    r.shuffle(&mut perm);
    let style = r.below(8);
    let name = ["permutation", "triangular", "shuffled triangular", "sparse", "dense", "arrow", "blocks", "bumps"][style];
    let mut a: Mat = vec![vec![Rat::zero(); m]; m];
    let value = |r: &mut Rng| mk::nonzero(r, false);
    match style {
        0 => (0..m).for_each(|j| a[j][perm[j]] = Rat::int(*r.pick(&[1, -1, 3]))),
        1 | 2 => {
            for j in 0..m {
                a[j][j] = value(r);
                for i in 0..j {
                    if r.chance(1, 3) {
                        a[j][i] = value(r);
                    }
                }
            }
        }
        3 => (0..m).for_each(|j| {
            a[j][perm[j]] = value(r);
            for _ in 0..2 {
                a[j][r.below(m)] = value(r);
            }
        }),
        4 => a.iter_mut().for_each(|c| c.iter_mut().for_each(|x| *x = Rat::int(r.range(-3, 3)))),
        5 => (0..m).for_each(|j| {
            a[j][j] = value(r);
            a[j][0] = value(r);
            if j == 0 {
                (0..m).for_each(|i| a[0][i] = value(r));
            }
        }),
        6 => {
            let k = r.range(1, 3) as usize;
            for j in 0..m {
                for i in 0..m {
                    if i / k == j / k {
                        a[j][i] = Rat::int(r.range(-2, 2));
                    }
                }
            }
        }
        _ => (0..m).for_each(|j| {
            a[j][j] = Rat::one();
            if m > 0 {
                a[j][(j + 1) % m] = Rat::int(r.range(0, 1));
                a[j][(j + 3) % m] = Rat::int(r.range(-1, 1));
            }
        }),
    }
    if style == 2 || style == 5 || style == 6 || style == 7 {
        r.shuffle(&mut a);
        for c in a.iter_mut() {
            let old = c.clone();
            for i in 0..m {
                c[perm[i]] = old[i].clone();
            }
        }
    }
    // Repair singular ones.
    while inverse(&a).is_none() {
        for _ in 0..m {
            let (j, i) = (r.below(m), r.below(m));
            a[j][i] = Rat::int(r.range(-5, 5));
        }
    }
    (a, name)
}
/// A basis inverse under test with the exact inverse of the same basis.
struct Twin<BI> {
    real: BI,
    cols: Mat,
    inv: Mat,
    since: usize,
}
impl<BI: BasisInverse<F = RB>> Twin<BI> {
    fn invert(cols: &Mat) -> BI {
        BI::invert(cols.iter().map(|c| sparse_col(c)).collect::<Vec<_>>().into_iter())
    }
    fn replace_model(&mut self, row: usize, c: &[Rat], d: &[Rat]) {
        self.cols[row] = c.to_vec();
        let p = self.inv[row].iter().map(|v| v.div(&d[row])).collect::<Vec<_>>();
        for i in 0..d.len() {
            if i != row && !d[i].is_zero() {
                for (v, q) in self.inv[i].iter_mut().zip(&p) {
                    if !q.is_zero() {
                        *v = v.sub(&d[i].mul(q));
                    }
                }
            }
        }
        self.inv[row] = p;
    }
    fn column(&self, c: &[Rat]) -> Res {
        let got = full(self.real.left_multiply_by_basis_inverse(sparse_col(c).iter()).column());
        let truth = mul_vec(&self.inv, c);
        ensure!(got == truth, "solving with column {} gives {} instead of {}", show(c), show(&got), show(&truth));
        Ok(())
    }
    fn row(&self, c: &[Rat]) -> Res {
        let got = full(&self.real.right_multiply_by_basis_inverse(sparse_col(c).iter()));
        let truth = vec_mul(c, &self.inv);
        ensure!(got == truth, "solving with row {} gives {} instead of {}", show(c), show(&got), show(&truth));
        Ok(())
    }
    fn element(&self, i: usize, c: &[Rat]) -> Res {
        let got = self.real.generate_element(i, sparse_col(c).iter());
        let truth = dot(&self.inv[i], c);
        ensure!(got.as_ref().map_or(Rat::zero(), |v| from(v)) == truth, "element {i} of column {} is {:?} instead of {truth}", show(c), got.map(|v| v.to_string()));
        Ok(())
    }
    fn inverse_row(&self, i: usize) -> Res {
        let got = full(&self.real.basis_inverse_row(i));
        ensure!(got == self.inv[i], "row {i} of the inverse is {} instead of {}", show(&got), show(&self.inv[i]));
        Ok(())
    }
    fn everything(&self) -> Res {
        let m = self.cols.len();
        ensure!(self.real.m() == m, "size {} instead of {m}", self.real.m());
        for i in 0..m {
            self.inverse_row(i)?;
            self.column(&self.cols[i])?;
            let got = full(self.real.left_multiply_by_basis_inverse(IdentityColumn::new(i).iter()).column());
            let truth: Vec<Rat> = self.inv.iter().map(|r| r[i].clone()).collect();
            ensure!(got == truth, "column {i} of the inverse is {} instead of {}", show(&got), show(&truth));
        }
        Ok(())
    }
}
fn inverse_history<BI: BasisInverse<F = RB>>(ctx: &mut Ctx, other: bool) -> Result<Twin<BI>, String> {
    let m = match ctx.r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => ctx.r.range(3, 5) as usize,
        7..=10 => ctx.r.range(5, 9) as usize,
        _ => ctx.r.range(10, if ctx.thorough { 24 } else { 16 }) as usize,
    };
    let steps = match ctx.r.below(6) {
        0 => 0,
        1 | 2 => ctx.r.range(1, 6),
        3 | 4 => ctx.r.range(7, 25),
        _ => ctx.r.range(32, if ctx.thorough { 110 } else { 70 }),
    } as usize;
    let steps = if m == 0 { 0 } else { steps };
    let from_matrix = ctx.r.chance(2, 3);
    let (cols, style) = if from_matrix { invertible(&mut ctx.r, m) } else { (identity(m), "identity") };
    ctx.count(&format!("started: {style}"));
    ctx.describe(format!("{m} rows, {steps} basis changes from columns {}", cols.iter().map(|c| show(c)).collect::<Vec<_>>().join(" ")));
    let real = guarded(|| if from_matrix { Twin::<BI>::invert(&cols) } else { BI::identity(m) }).map_err(|e| format!("{e} (making the inverse)"))?;
    let inv = inverse(&transpose(&cols)).expect("oracle: generated basis is singular");
    let mut t = Twin { real, cols, inv, since: 0 };
    let mut twin = if other { Some(Twin { real: guarded(|| Twin::<LUDecomposition<RB>>::invert(&t.cols))?, cols: vec![], inv: vec![], since: 0 }) } else { None };
    guarded(|| t.everything()).and_then(|x| x)?;
    let mut refactors = 0;
    let mut longest = 0;
    // A fixed pool of columns to come back to, as in a solve.
    let pool: Vec<Vec<Rat>> = (0..m + 3).map(|_| random_vec(&mut ctx.r, m)).collect();
    let policy = ctx.r.below(4);
    for step in 0..steps {
        let mut c = if ctx.r.chance(1, 2) { ctx.r.pick(&pool).clone() } else { random_vec(&mut ctx.r, m) };
        let mut d = mul_vec(&t.inv, &c);
        if d.iter().all(|x| x.is_zero()) {
            c = t.cols[ctx.r.below(m)].clone();
            c[ctx.r.below(m)] = Rat::int(1009);
            d = mul_vec(&t.inv, &c);
            if d.iter().all(|x| x.is_zero()) {
                continue;
            }
        }
        let rows: Vec<usize> = (0..m).filter(|&i| !d[i].is_zero()).collect();
        // Prefer the first, the last or any possible row.
        let row = match ctx.r.below(4) {
            0 => rows[0],
            1 => rows[rows.len() - 1],
            _ => *ctx.r.pick(&rows),
        };
        let desc = format!("column {} enters in row {row}", show(&c));
        ctx.describe_more(&desc);
        guarded(|| -> Res {
            let info = t.real.left_multiply_by_basis_inverse(sparse_col(&c).iter());
            let got = full(info.column());
            ensure!(got == d, "solving with column {} gives {} instead of {}", show(&c), show(&got), show(&d));
            let back = full(&t.real.change_basis(row, info));
            ensure!(back == d, "the change of basis hands back {} instead of {}", show(&back), show(&d));
            if let Some(o) = &mut twin {
                let info = o.real.left_multiply_by_basis_inverse(sparse_col(&c).iter());
                o.real.change_basis(row, info);
            }
            Ok(())
        })
        .and_then(|x| x)
        .map_err(|e| format!("{e} (basis change {step})"))?;
        t.replace_model(row, &c, &d);
        t.since += 1;
        longest = longest.max(t.since);
        ctx.count("basis changes");
        // Queries.
        let full_check = ctx.r.chance(1, 6) || step + 1 == steps;
        let (v, w, i) = (random_vec(&mut ctx.r, m), random_vec(&mut ctx.r, m), ctx.r.below(m));
        guarded(|| -> Res {
            t.column(&v)?;
            t.row(&w)?;
            t.inverse_row(i)?;
            t.inverse_row(row)?;
            t.element(i, &v)?;
            t.element(row, &c)?;
            if full_check {
                t.everything()?;
            }
            if let Some(o) = &mut twin {
                ensure!(o.real.left_multiply_by_basis_inverse(sparse_col(&v).iter()).into_column() == t.real.left_multiply_by_basis_inverse(sparse_col(&v).iter()).into_column(), "the two representations differ on column {}", show(&v));
                ensure!(o.real.basis_inverse_row(i) == t.real.basis_inverse_row(i), "the two representations differ on row {i}");
                if o.real.should_refactor() {
                    o.real = Twin::<LUDecomposition<RB>>::invert(&t.cols);
                }
            }
            Ok(())
        })
        .and_then(|x| x)
        .map_err(|e| format!("{e} (after basis change {step})"))?;
        ctx.add("queries", 6);
        let refactor = match policy {
            0 => false,
            1 => ctx.r.chance(1, 10),
            _ => guarded(|| t.real.should_refactor())?,
        };
        if refactor {
            ctx.describe_more("factorized anew");
            guarded(|| -> Res {
                t.real = Twin::<BI>::invert(&t.cols);
                t.everything()
            })
            .and_then(|x| x)
            .map_err(|e| format!("{e} (factorized anew after basis change {step})"))?;
            refactors += 1;
            t.since = 0;
            ctx.count("factorized anew");
        }
    }
    if longest > 30 {
        ctx.count("histories of more than 30 changes without factorizing");
    }
    if m <= 1 {
        ctx.count("with at most one row");
    }
    ctx.nontrivial(&format!("{m}{style}{steps}{refactors}{}", show(&t.inv.concat())));
    Ok(t)
}
type Thin = Vec<(usize, Rat)>;
fn thin_col(c: &Thin) -> SparseColumn<RB> {
    SparseColumn::new(c.iter().map(|(i, x)| (*i, to_rb(x))).collect())
}
fn show_thin(c: &Thin) -> String {
    c.iter().map(|(i, x)| format!("{i}:{x}")).collect::<Vec<_>>().join(" ")
}
fn thin(r: &mut Rng, m: usize) -> Thin {
    let (k, near) = (1 + r.below(3), r.chance(1, 2));
    let first = r.below(m);
    let mut at: Vec<usize> = (0..k).map(|_| if near { (first + r.below(6)) % m } else { r.below(m) }).collect();
    at.push(first);
    at.sort_unstable();
    at.dedup();
    at.into_iter().map(|i| (i, Rat::int(*r.pick(&[1, 1, 1, -1, -1, 2])))).collect()
}
fn along(cols: &[Thin], y: &[Rat], i: usize) -> Rat {
    cols[i].iter().fold(Rat::zero(), |s, (k, v)| if y[*k].is_zero() { s } else { s.add(&v.mul(&y[*k])) })
}
/// What a basis inverse of hundreds of rows gives is substituted in the basis; no exact inverse is kept.
struct Wide<BI> {
    real: BI,
    cols: Vec<Thin>,
}
impl<BI: BasisInverse<F = RB>> Wide<BI> {
    fn invert(cols: &[Thin]) -> BI {
        BI::invert(cols.iter().map(thin_col).collect::<Vec<_>>().into_iter())
    }
    fn solves(&self, x: &[Rat], c: &Thin) -> Res {
        let m = self.cols.len();
        ensure!(x.len() == m, "a solution has {} entries, expected {m}", x.len());
        let mut b = vec![Rat::zero(); m];
        for (x, col) in x.iter().zip(&self.cols).filter(|x| !x.0.is_zero()) {
            for (i, v) in col {
                b[*i] = b[*i].add(&x.mul(v));
            }
        }
        for (i, v) in c {
            b[*i] = b[*i].sub(v);
        }
        let bad = b.iter().position(|v| !v.is_zero());
        ensure!(bad.is_none(), "solving with column {} leaves {} in row {}", show_thin(c), b[bad.unwrap()], bad.unwrap());
        Ok(())
    }
    fn column(&self, c: &Thin) -> Result<Vec<Rat>, String> {
        let x = full(self.real.left_multiply_by_basis_inverse(thin_col(c).iter()).column());
        self.solves(&x, c)?;
        Ok(x)
    }
    fn row(&self, w: &Thin) -> Res {
        let y = full(&self.real.right_multiply_by_basis_inverse(thin_col(w).iter()));
        ensure!(y.len() == self.cols.len(), "a row has {} entries", y.len());
        for i in 0..self.cols.len() {
            let want = w.iter().find(|x| x.0 == i).map_or(Rat::zero(), |x| x.1.clone());
            let got = along(&self.cols, &y, i);
            ensure!(got == want, "solving with row {} gives a row whose product with basis column {i} is {got} instead of {want}", show_thin(w));
        }
        Ok(())
    }
    fn inverse_row(&self, k: usize) -> Res {
        let y = full(&self.real.basis_inverse_row(k));
        for i in 0..self.cols.len() {
            let got = along(&self.cols, &y, i);
            ensure!(got == Rat::int((i == k) as i64), "the product of row {k} of the inverse and basis column {i} is {got}");
        }
        Ok(())
    }
    fn element(&self, i: usize, c: &Thin, x: &[Rat]) -> Res {
        let got = self.real.generate_element(i, thin_col(c).iter());
        ensure!(got.as_ref().map_or(Rat::zero(), |v| from(v)) == x[i], "element {i} of column {} is {:?} instead of {}", show_thin(c), got.map(|v| v.to_string()), x[i]);
        Ok(())
    }
}
fn large_history<BI: BasisInverse<F = RB>>(ctx: &mut Ctx) -> Res {
    let m = match ctx.r.below(5) {
        0 => ctx.r.range(120, 300),
        _ => ctx.r.range(33, 110),
    } as usize;
    let steps = *ctx.r.pick(&[0, 12, 40, 70]);
    let mut perm: Vec<usize> = (0..m).collect();
    let shuffled = ctx.r.chance(2, 3);
    if shuffled {
        ctx.r.shuffle(&mut perm);
    }
    let from_matrix = ctx.r.chance(2, 3);
    let mut cols: Vec<Thin> = (0..m).map(|j| vec![(j, Rat::one())]).collect();
    if from_matrix {
        // Triangular after a permutation.
        let below = ctx.r.chance(1, 2);
        let r = &mut ctx.r;
        for (j, c) in cols.iter_mut().enumerate() {
            *c = vec![(perm[j], Rat::int(*r.pick(&[1, 1, -1, 2])))];
            for _ in 0..r.below(3) {
                let k = if below { (j + 1 + r.below(5)).min(m - 1) } else { r.below(j + 1) };
                if k != j && !c.iter().any(|x| x.0 == perm[k]) {
                    c.push((perm[k], Rat::int(*r.pick(&[1, -1, 1, 3]))));
                }
            }
            c.sort_by_key(|x| x.0);
        }
        if shuffled {
            r.shuffle(&mut cols);
        }
    }
    ctx.describe(format!("{m} rows, {steps} basis changes from columns {}", cols.iter().map(show_thin).collect::<Vec<_>>().join(" | ")));
    let real = guarded(|| if from_matrix { Wide::<BI>::invert(&cols) } else { BI::identity(m) }).map_err(|e| format!("{e} (making the inverse)"))?;
    let mut t = Wide { real, cols };
    let check = |t: &Wide<BI>, r: &mut Rng| -> Res {
        ensure!(t.real.m() == m, "size {} instead of {m}", t.real.m());
        let (c, w, i) = (thin(r, m), thin(r, m), r.below(m));
        let x = t.column(&c)?;
        t.element(i, &c, &x)?;
        if let Some(i) = x.iter().position(|x| !x.is_zero()) {
            t.element(i, &c, &x)?;
        }
        t.row(&w)?;
        t.inverse_row(i)?;
        Ok(())
    };
    guarded(|| check(&t, &mut ctx.r)).and_then(|x| x)?;
    let policy = ctx.r.below(3);
    let mut done = 0;
    for step in 0..steps {
        let c = thin(&mut ctx.r, m);
        let mut rows: Vec<usize> = vec![];
        let mut row = 0;
        guarded(|| -> Res {
            let info = t.real.left_multiply_by_basis_inverse(thin_col(&c).iter());
            let d = full(info.column());
            t.solves(&d, &c)?;
            if d.iter().any(|x| x.bits() > 40) {
                return Ok(());
            }
            rows = (0..m).filter(|&i| !d[i].is_zero()).collect();
            let small: Vec<usize> = rows.iter().copied().filter(|&i| d[i].abs() == Rat::one()).collect();
            row = *ctx.r.pick(if small.is_empty() { &rows } else { &small });
            let back = full(&t.real.change_basis(row, info));
            ensure!(back == d, "the change of basis hands back another column than {}", show(&d));
            t.cols[row] = c.clone();
            Ok(())
        })
        .and_then(|x| x)
        .map_err(|e| format!("{e} (basis change {step})"))?;
        if rows.is_empty() {
            continue;
        }
        done += 1;
        ctx.describe_more(&format!("column {} enters in row {row}", show_thin(&c)));
        ctx.count("large, basis changes");
        guarded(|| -> Res {
            check(&t, &mut ctx.r)?;
            t.inverse_row(row)
        })
        .and_then(|x| x)
        .map_err(|e| format!("{e} (after basis change {step})"))?;
        let refactor = match policy {
            0 => false,
            1 => ctx.r.chance(1, 25),
            _ => guarded(|| t.real.should_refactor())?,
        };
        if refactor {
            ctx.describe_more("factorized anew");
            guarded(|| -> Res {
                t.real = Wide::<BI>::invert(&t.cols);
                check(&t, &mut ctx.r)
            })
            .and_then(|x| x)
            .map_err(|e| format!("{e} (factorized anew after basis change {step})"))?;
            ctx.count("factorized anew");
        }
    }
    ctx.count("large");
    ctx.nontrivial(&format!("large{m}{steps}{done}{}", ctx.idx));
    Ok(())
}
fn c07(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 50) {
        return large_history::<LUDecomposition<RB>>(ctx);
    }
    inverse_history::<LUDecomposition<RB>>(ctx, false).map(|_| ())
}
fn c08(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 100) {
        return large_history::<BasisInverseRows<RB>>(ctx);
    }
    if ctx.r.chance(2, 3) {
        return inverse_history::<BasisInverseRows<RB>>(ctx, true).map(|_| ());
    }
    // Rows that are removed have a unit column in the basis, and no other basis column needs them
    // once the redundant constraints are gone.
    let m = ctx.r.range(1, 9) as usize;
    let k = ctx.r.range(1, m as i64) as usize;
    let mut rows: Vec<usize> = (0..m).collect();
    ctx.r.shuffle(&mut rows);
    let mut gone: Vec<usize> = rows[..k].to_vec();
    gone.sort_unstable();
    let keep: Vec<usize> = (0..m).filter(|i| !gone.contains(i)).collect();
    let (core, style) = invertible(&mut ctx.r, m - k);
    let mut cols = identity(m);
    for (a, &j) in keep.iter().enumerate() {
        for (b, &i) in keep.iter().enumerate() {
            cols[j][i] = core[a][b].clone();
        }
        cols[j][j] = core[a][a].clone();
        for &i in &gone {
            // Redundant rows are combinations of the others.
            cols[j][i] = Rat::int(0);
        }
    }
    for &i in &gone {
        let f: Vec<Rat> = keep.iter().map(|_| Rat::int(ctx.r.range(-2, 2))).collect();
        for &j in &keep {
            let terms: Vec<Rat> = keep.iter().map(|&q| cols[j][q].clone()).collect();
            cols[j][i] = dot(&f, &terms);
        }
    }
    ctx.describe(format!("{m} rows, {gone:?} removed, columns {}", cols.iter().map(|c| show(c)).collect::<Vec<_>>().join(" ")));
    // Reached by basis changes from the identity, as phase one does.
    let mut t = Twin { real: guarded(|| BasisInverseRows::<RB>::identity(m))?, cols: identity(m), inv: identity(m), since: 0 };
    let mut order: Vec<usize> = keep.clone();
    ctx.r.shuffle(&mut order);
    let mut position: HashMap<usize, usize> = HashMap::new();
    for &j in &order {
        let d = mul_vec(&t.inv, &cols[j]);
        let candidates: Vec<usize> = keep.iter().copied().filter(|i| !d[*i].is_zero() && !position.contains_key(i)).collect();
        if candidates.is_empty() {
            return Err("oracle: no row to pivot on".into());
        }
        let row = *ctx.r.pick(&candidates);
        guarded(|| {
            let info = t.real.left_multiply_by_basis_inverse(sparse_col(&cols[j]).iter());
            t.real.change_basis(row, info);
        })?;
        t.replace_model(row, &cols[j], &d);
        position.insert(row, j);
    }
    guarded(|| t.everything()).and_then(|x| x)?;
    guarded(|| t.real.remove_basis_part(&gone))?;
    let small: Mat = keep.iter().map(|&p| keep.iter().map(|&i| t.cols[p][i].clone()).collect()).collect();
    t.inv = inverse(&transpose(&small)).ok_or("oracle: remaining basis singular")?;
    t.cols = small;
    guarded(|| t.everything()).and_then(|x| x).map_err(|e| format!("{e} (after removing rows {gone:?})"))?;
    // It keeps working.
    for _ in 0..ctx.r.below(4) {
        if keep.is_empty() {
            break;
        }
        let c = random_vec(&mut ctx.r, keep.len());
        let d = mul_vec(&t.inv, &c);
        let Some(row) = (0..d.len()).find(|&i| !d[i].is_zero()) else { continue };
        guarded(|| {
            let info = t.real.left_multiply_by_basis_inverse(sparse_col(&c).iter());
            t.real.change_basis(row, info);
        })?;
        t.replace_model(row, &c, &d);
        guarded(|| t.everything()).and_then(|x| x).map_err(|e| format!("{e} (after removing rows and changing the basis)"))?;
        ctx.count("basis changes");
    }
    ctx.count("rows removed");
    ctx.add("queries", 3 * m as u64);
    ctx.nontrivial(&format!("{m}{gone:?}{style}{}", show(&t.inv.concat())));
    Ok(())
}

// A pivot rule that asks the real one and compares ------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Promise {
    First,
    Cyclic,
    Steepest,
    SteepestEdge,
}
trait Named {
    const PROMISE: Promise;
}
impl Named for FirstProfitable {
    const PROMISE: Promise = Promise::First;
}
impl Named for FirstProfitableWithMemory {
    const PROMISE: Promise = Promise::Cyclic;
}
impl Named for SteepestDescentAlongVariable {
    const PROMISE: Promise = Promise::Steepest;
}
impl Named for SteepestDescentAlongObjective<RB> {
    const PROMISE: Promise = Promise::SteepestEdge;
}
#[derive(Clone, Default)]
struct Seen {
    /// Stop by declaring optimality after this many selections; 0 is never.
    stop: u64,
    stopped: bool,
    selections: u64,
    nones: u64,
    wrapped: u64,
    ties: u64,
    candidates: u64,
    compared: u64,
    last: Option<usize>,
    after_update: u64,
    tableaus: u64,
    inverses: u64,
    factors: u64,
    unreadable: u64,
}
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
    /// Whether tableaus are printed on the way.
    static PRINT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn seen<T>(f: impl FnOnce(&mut Seen) -> T) -> T {
    SEEN.with(|s| f(&mut s.borrow_mut()))
}
struct Checked<R> {
    inner: R,
}
struct State {
    start: usize,
    basis: Vec<usize>,
    rc: Vec<Rat>,
    cost: Vec<Rat>,
    inv: Mat,
    columns: Mat,
}
/// The state of the tableau against the basis the watched inverse recorded.
fn tableau_state<IM, K>(t: &Tableau<IM, K>) -> State
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
{
    let rec = watch::record();
    let m = t.nr_rows();
    let n = t.nr_columns();
    let start = if rec.phase == 1 { rec.nr_artificial } else { 0 };
    let columns: Mat = (0..n).map(|j| column_of::<RB, _>(&t.original_column(j), m)).collect();
    let cost = |j: usize| {
        if rec.phase == 1 {
            if j < rec.nr_artificial { Rat::one() } else { Rat::zero() }
        } else {
            rec.costs[j].clone()
        }
    };
    let inv = inverse(&transpose(&rec.basis.iter().map(|&j| columns[j].clone()).collect::<Vec<_>>()));
    check!(inv.is_some(), "the basis {:?} is singular", rec.basis);
    let inv = inv.unwrap();
    let cb: Vec<Rat> = rec.basis.iter().map(|&j| cost(j)).collect();
    let y = vec_mul(&cb, &inv);
    let rc: Vec<Rat> = (0..n).map(|j| if m == 0 { cost(j) } else { cost(j).sub(&dot(&y, &columns[j])) }).collect();
    State { start, basis: rec.basis, rc, cost: (0..n).map(cost).collect(), inv, columns }
}
fn compare_tableau<IM, K>(t: &Tableau<IM, K>, s: &State)
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
{
    let m = t.nr_rows();
    for j in 0..t.nr_columns() {
        let inside = s.basis.contains(&j);
        check!(t.is_in_basis(j) == inside, "column {j} in the basis: {} according to the tableau, basis {:?}", t.is_in_basis(j), s.basis);
        let rc = from(&t.relative_cost(j));
        check!(rc == s.rc[j], "relative cost of column {j} is {rc} but should be {}", s.rc[j]);
    }
    let bfs = full(&t.current_bfs());
    check!(bfs.len() == t.nr_columns(), "a current solution of length {}", bfs.len());
    let mut x = vec![Rat::zero(); m];
    for (j, v) in bfs.iter().enumerate() {
        check!(v.sign() >= 0, "column {j} has value {v}");
        check!(v.is_zero() || s.basis.contains(&j), "nonbasic column {j} has value {v}");
        if !v.is_zero() {
            for i in 0..m {
                x[i] = x[i].add(&s.columns[j][i].mul(v));
            }
        }
        if s.basis.contains(&j) || j % 5 == 0 {
            check!(from(&t.variable_value(j)) == *v, "column {j} has value {} but the current solution says {v}", t.variable_value(j));
        }
    }
    if m > 0 {
        for k in 0..3 {
            let (i, j) = ((k * 5 + seen(|s| s.selections) as usize) % m, (k * 11 + 3 + seen(|s| s.selections) as usize) % t.nr_columns().max(1));
            if j < t.nr_columns() {
                let e = t.generate_element(i, j).map_or(Rat::zero(), |v| from(&v));
                check!(e == dot(&s.inv[i], &s.columns[j]), "element {i}, {j} of the tableau is {e}");
                let c = full(t.generate_column(j).column());
                check!(c == mul_vec(&s.inv, &s.columns[j]), "column {j} of the tableau is {}", show(&c));
            }
        }
    }
}
impl<R: PivotRule<RB> + Named> PivotRule<RB> for Checked<R> {
    fn new<IM, K>(tableau: &Tableau<IM, K>) -> Self
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
    {
        seen(|s| s.last = None);
        Checked { inner: R::new(tableau) }
    }
    fn select_primal_pivot_column<IM, K>(&mut self, tableau: &Tableau<IM, K>) -> Option<(usize, RB)>
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
    {
        if seen(|s| s.stop > 0 && s.selections >= s.stop) {
            seen(|s| s.stopped = true);
            return None;
        }
        let s = tableau_state(tableau);
        compare_tableau(tableau, &s);
        if PRINT.with(|p| p.get()) {
            printed_tableau(tableau, &s).unwrap_or_else(|e| panic!("monitor: {e}"));
        }
        let n = tableau.nr_columns();
        let profitable: Vec<usize> = (s.start..n).filter(|&j| s.rc[j].sign() < 0 && !s.basis.contains(&j)).collect();
        let got = self.inner.select_primal_pivot_column(tableau);
        match &got {
            None => {
                check!(profitable.is_empty(), "no column is chosen although {profitable:?} have negative relative cost");
                seen(|x| x.nones += 1);
            }
            Some((q, c)) => {
                let q = *q;
                check!(q < n && q >= s.start, "column {q} of {n} with {} artificial is chosen", s.start);
                check!(!s.basis.contains(&q), "column {q} is chosen but is basic");
                check!(profitable.contains(&q), "column {q} with relative cost {} is chosen", s.rc[q]);
                check!(from(c) == s.rc[q], "column {q} is chosen with cost {c} but has {}", s.rc[q]);
                match R::PROMISE {
                    Promise::First => check!(q == profitable[0], "column {q} is chosen but {} is the first", profitable[0]),
                    Promise::Cyclic => {
                        let last = seen(|x| x.last);
                        let truth = last.and_then(|l| profitable.iter().copied().find(|&j| j > l)).unwrap_or(profitable[0]);
                        if last.is_some_and(|l| truth <= l) {
                            seen(|x| x.wrapped += 1);
                        }
                        check!(q == truth, "column {q} is chosen but {truth} is the next after {last:?}");
                    }
                    Promise::Steepest => {
                        let best = profitable.iter().map(|&j| s.rc[j].clone()).min().unwrap();
                        check!(s.rc[q] == best, "column {q} with {} is chosen but the most negative cost is {best}", s.rc[q]);
                    }
                    Promise::SteepestEdge => {
                        let score = |j: usize| {
                            let c = mul_vec(&s.inv, &s.columns[j]);
                            let g = Rat::one().add(&dot(&c, &c));
                            s.rc[j].mul(&s.rc[j]).div(&g)
                        };
                        let scores: Vec<Rat> = profitable.iter().map(|&j| score(j)).collect();
                        let best = scores.iter().max().unwrap();
                        check!(score(q) == *best, "column {q} improves by {} per squared length but the best does by {best}", score(q));
                        seen(|x| x.ties += (scores.iter().filter(|v| *v == best).count() > 1) as u64);
                    }
                }
                seen(|x| x.last = Some(q));
            }
        }
        seen(|x| {
            x.selections += 1;
            x.candidates += profitable.len() as u64;
            x.compared += n as u64;
        });
        got
    }
    fn after_basis_update<IM, K>(&mut self, info: BasisChangeComputationInfo<RB>, tableau: &Tableau<IM, K>)
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
    {
        seen(|s| s.after_update += 1);
        self.inner.after_basis_update(info, tableau)
    }
}

// Paths through the two phases ---------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum End {
    Infeasible,
    Unbounded,
    Optimal(Vec<Rat>),
}
impl End {
    fn kind(&self) -> &'static str {
        match self {
            End::Infeasible => "infeasible",
            End::Unbounded => "unbounded",
            End::Optimal(_) => "optimal",
        }
    }
}
fn end(o: OptimizationResult<RB>) -> End {
    match o {
        OptimizationResult::Infeasible => End::Infeasible,
        OptimizationResult::Unbounded => End::Unbounded,
        OptimizationResult::FiniteOptimum(x) => End::Optimal(full(&x)),
    }
}
/// Phase one and two with one pivot rule, as the library does it with its own choice of rule.
fn both_phases<'p, IM, MP, R>(mp: &'p MP, partial: bool) -> End
where
    IM: InverseMaintainer<F = RB>,
    MP: PartialInitialBasis + MatrixProvider<Column: Identity + IntoFilteredColumn>,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Cost<ArtificialCost> + ops::Rhs<MP::Rhs>,
    R: PivotRule<RB>,
{
    match compute_bfs_with_rule::<IM, MP, R>(mp, partial) {
        RankedFeasibilityResult::Infeasible => End::Infeasible,
        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => match rank {
            Rank::Deficient(rows) if !rows.is_empty() => {
                let removed = RemoveRows::new(mp, rows);
                let mut t = Tableau::<_, NonArtificial<_>>::from_artificial_removing_rows(inverse_maintainer, nr_artificial_variables, basis, &removed);
                end(phase_two::primal::<_, _, R>(&mut t))
            }
            _ => {
                let mut t = Tableau::<_, NonArtificial<_>>::from_artificial(inverse_maintainer, nr_artificial_variables, basis, mp);
                end(phase_two::primal::<_, _, R>(&mut t))
            }
        },
    }
}
/// Phase two from a given feasible basis.
fn from_basis<'p, IM, MP, R>(mp: &'p MP, basis: &[usize]) -> End
where
    IM: InverseMaintainer<F = RB>,
    MP: MatrixProvider,
    MP::Rhs: 'static,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Rhs<MP::Rhs> + ops::Column<MP::Rhs>,
    R: PivotRule<RB>,
{
    let im = IM::from_basis(basis, mp);
    let mut t = Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(mp, im, basis.iter().copied().collect());
    end(phase_two::primal::<_, _, R>(&mut t))
}
/// The end of a solve against the recorded basis and the system itself.
fn verify_end(e: &End, sys: &Lp) -> Res {
    let rec = watch::record();
    let n = sys.vars.len();
    // Rows that were dropped are consequences of the others, so the remaining basis determines all.
    let col = |j: usize| -> Vec<Rat> { sys.rows.iter().map(|r| r.coef.iter().find(|c| c.0 == j).map_or(Rat::zero(), |c| c.1.clone())).collect() };
    let basis: Mat = rec.basis.iter().map(|&j| col(j)).collect();
    let span = match e {
        End::Infeasible => None,
        _ => Some(Span::new(basis).ok_or(format!("the columns of the basis {:?} are dependent", rec.basis))?),
    };
    let solve = |v: &[Rat]| -> Option<Vec<Rat>> { span.as_ref().and_then(|s| s.coordinates(v)) };
    match e {
        End::Infeasible => {
            ensure!(rec.phase == 1, "infeasible after phase {}", rec.phase);
        }
        End::Optimal(x) => {
            ensure!(x.len() == n, "a solution of length {} for {n} columns", x.len());
            if let Some(e) = sys.infeasibility(x) {
                return Err(format!("the solution breaks the system: {e}"));
            }
            for (j, v) in x.iter().enumerate() {
                ensure!(v.is_zero() || rec.basis.contains(&j), "nonbasic column {j} has value {v}");
            }
            for j in 0..n {
                let d = solve(&col(j)).ok_or(format!("column {j} is not spanned by the basis {:?}", rec.basis))?;
                let rc = rec.basis.iter().zip(&d).fold(sys.vars[j].cost.clone(), |s, (&k, v)| s.sub(&sys.vars[k].cost.mul(v)));
                ensure!(rc.sign() >= 0, "ended at a basis where column {j} has relative cost {rc}");
            }
        }
        End::Unbounded => {
            let mut found = false;
            for j in 0..n {
                if rec.basis.contains(&j) {
                    continue;
                }
                let d = solve(&col(j)).ok_or(format!("column {j} is not spanned by the basis {:?}", rec.basis))?;
                let rc = rec.basis.iter().zip(&d).fold(sys.vars[j].cost.clone(), |s, (&k, v)| s.sub(&sys.vars[k].cost.mul(v)));
                if rc.sign() < 0 && d.iter().all(|v| v.sign() <= 0) {
                    found = true;
                    break;
                }
            }
            ensure!(found, "unbounded is declared at basis {:?} but no column proves it", rec.basis);
        }
    }
    Ok(())
}
/// Independent vectors, as many of their components as there are vectors, and the inverse of that square.
struct Span {
    vectors: Mat,
    at: Vec<usize>,
    inv: Mat,
}
impl Span {
    fn new(vectors: Mat) -> Option<Span> {
        let m = vectors.first().map_or(0, |v| v.len());
        let mut a = vectors.clone();
        let mut at = vec![];
        for k in 0..a.len() {
            let c = (0..m).find(|&c| !a[k][c].is_zero())?;
            let inv = a[k][c].inv();
            let row = a[k].clone();
            for other in a[k + 1..].iter_mut() {
                if !other[c].is_zero() {
                    let f = other[c].mul(&inv);
                    for (v, p) in other.iter_mut().zip(&row) {
                        if !p.is_zero() {
                            *v = v.sub(&f.mul(p));
                        }
                    }
                }
            }
            at.push(c);
        }
        let square: Mat = at.iter().map(|&c| vectors.iter().map(|v| v[c].clone()).collect()).collect();
        let inv = inverse(&square)?;
        Some(Span { vectors, at, inv })
    }
    /// Coordinates of a vector, if it is spanned.
    fn coordinates(&self, v: &[Rat]) -> Option<Vec<Rat>> {
        let d = mul_vec(&self.inv, &self.at.iter().map(|&c| v[c].clone()).collect::<Vec<_>>());
        let mut rest = v.to_vec();
        for (d, b) in d.iter().zip(&self.vectors).filter(|x| !x.0.is_zero()) {
            for (r, b) in rest.iter_mut().zip(b) {
                if !b.is_zero() {
                    *r = r.sub(&d.mul(b));
                }
            }
        }
        if rest.iter().all(|r| r.is_zero()) { Some(d) } else { None }
    }
}

// Problems as the simplex method gets them ----------------------------------------------------------

/// An equality system with nonnegative right-hand side, often degenerate and rank deficient.
fn system_of(r: &mut Rng, big: bool) -> Sys {
    let m0 = r.range(0, if big { 12 } else { 6 }) as usize;
    let n = r.range(1, if big { 18 } else { 9 }) as usize;
    let density = r.range(2, 10) as usize;
    let mut a: Mat = (0..m0)
        .map(|_| (0..n).map(|_| if r.below(12) < density { if r.chance(1, 3) { mk::nonzero(r, true) } else { Rat::int(*r.pick(&[1, 1, -1, 2, 3])) } } else { Rat::zero() }).collect())
        .collect();
    let feasible = r.chance(4, 5);
    let x: Vec<Rat> = (0..n).map(|_| if r.chance(1, 2) { Rat::int(r.range(0, 4)) } else { Rat::zero() }).collect();
    let mut b: Vec<Rat> = if feasible { mul_vec(&a, &x) } else { (0..m0).map(|_| Rat::int(r.range(-3, 6))).collect() };
    if r.chance(1, 4) {
        for i in 0..m0 {
            if r.chance(1, 2) {
                b[i] = Rat::zero();
            }
        }
    }
    // Consequences of other rows.
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
        if a.is_empty() {
            a.push(vec![Rat::zero(); n]);
            b.push(Rat::zero());
            continue;
        }
        let mut row = vec![Rat::zero(); n];
        let mut v = Rat::zero();
        for i in 0..a.len() {
            let f = if r.chance(1, 2) { Rat::zero() } else { Rat::int(*r.pick(&[1, 1, -1, 2])) };
            row = row.iter().zip(&a[i]).map(|(x, y)| x.add(&f.mul(y))).collect();
            v = v.add(&f.mul(&b[i]));
        }
        let at = r.below(a.len() + 1);
        if r.chance(1, 25) {
            v = v.add(&Rat::one());
        }
        a.insert(at, row);
        b.insert(at, v);
    }
    for i in 0..a.len() {
        if b[i].sign() < 0 || b[i].is_zero() && r.chance(1, 4) {
            b[i] = b[i].neg();
            a[i].iter_mut().for_each(|v| *v = v.neg());
        }
    }
    // Slack columns for some rows, in random places.
    let style = r.below(4);
    let mut pivots = vec![];
    for i in 0..a.len() {
        if style == 0 || style != 1 && r.chance(1, 2) {
            let at = r.below(a[0].len() + 1);
            for (k, row) in a.iter_mut().enumerate() {
                row.insert(at, if k == i { Rat::one() } else { Rat::zero() });
            }
            pivots.iter_mut().for_each(|p: &mut (usize, usize)| p.1 += (p.1 >= at) as usize);
            pivots.push((i, at));
        }
    }
    let n = a.first().map_or(n, |r| r.len());
    let c: Vec<Rat> = (0..n).map(|_| if r.chance(1, 4) { Rat::zero() } else { Rat::int(r.range(-5, 6)) }).collect();
    // Announce only some of the unit columns.
    if r.chance(1, 4) {
        pivots.retain(|_| r.chance(1, 2));
    }
    Sys::new(a, b, c, 0, pivots)
}
fn lp_of(s: &Sys) -> Lp {
    use relp_verif::lp::{Rel, Row, Var};
    Lp {
        max: false,
        fixed: Rat::zero(),
        rows: (0..s.b.len())
            .map(|i| Row { name: format!("r{i}"), rel: Rel::Eq, rhs: s.b[i].clone(), coef: s.a[i].iter().cloned().enumerate().filter(|x| !x.1.is_zero()).collect() })
            .collect(),
        vars: s.c.iter().enumerate().map(|(j, c)| Var { name: format!("c{j}"), cost: c.clone(), lb: Some(Rat::zero()), ub: None }).collect(),
    }
}
/// `max c x, A x <= b, x >= 0` with slack columns behind.
fn with_slacks(a: Vec<Vec<Rat>>, b: Vec<Rat>, c: Vec<Rat>) -> Sys {
    let m = a.len();
    let n = c.len();
    let rows: Mat = a.into_iter().enumerate().map(|(i, r)| r.into_iter().chain((0..m).map(|k| if k == i { Rat::one() } else { Rat::zero() })).collect()).collect();
    let costs: Vec<Rat> = c.into_iter().map(|v| v.neg()).chain((0..m).map(|_| Rat::zero())).collect();
    Sys::new(rows, b, costs, 0, (0..m).map(|i| (i, n + i)).collect())
}
fn rats(v: &[(i64, i64)]) -> Vec<Rat> {
    v.iter().map(|&(p, q)| Rat::new(p, q)).collect()
}
fn ints(v: &[i64]) -> Vec<Rat> {
    v.iter().map(|&p| Rat::int(p)).collect()
}
/// Instances known for cycling, stalling or for exponentially long paths.
fn classical(r: &mut Rng) -> (Sys, String) {
    match r.below(8) {
        0 => (
            // Beale 1955.
            with_slacks(
                vec![rats(&[(1, 4), (-60, 1), (-1, 25), (9, 1)]), rats(&[(1, 2), (-90, 1), (-1, 50), (3, 1)]), ints(&[0, 0, 1, 0])],
                ints(&[0, 0, 1]),
                rats(&[(3, 4), (-150, 1), (1, 50), (-6, 1)]),
            ),
            "Beale".into(),
        ),
        1 => (
            // Chvatal 1983.
            with_slacks(
                vec![rats(&[(1, 2), (-11, 2), (-5, 2), (9, 1)]), rats(&[(1, 2), (-3, 2), (-1, 2), (1, 1)]), ints(&[1, 0, 0, 0])],
                ints(&[0, 0, 1]),
                ints(&[10, -57, -9, -24]),
            ),
            "Chvatal".into(),
        ),
        2 => (
            // Kuhn.
            with_slacks(
                vec![ints(&[-2, -9, 1, 9]), rats(&[(1, 3), (1, 1), (-1, 3), (-2, 1)]), ints(&[2, 3, -1, -12])],
                ints(&[0, 0, 2]),
                ints(&[2, 3, -1, -12]),
            ),
            "Kuhn".into(),
        ),
        3 => (
            // Marshall and Suurballe 1969.
            with_slacks(
                vec![rats(&[(2, 5), (-2, 5), (-9, 5), (1, 1)]).into_iter().map(|v| v).collect(), rats(&[(1, 1), (-3, 2), (-1, 2), (1, 1)]), ints(&[1, 0, 0, 0])],
                ints(&[0, 0, 1]),
                rats(&[(23, 10), (-43, 20), (-271, 20), (2, 5)]),
            ),
            "Marshall and Suurballe".into(),
        ),
        4 | 5 => {
            // Klee and Minty 1972, in several scalings.
            let n = r.range(2, 6) as usize;
            let base = *r.pick(&[4i64, 5, 100]);
            let mut a = vec![];
            let mut b = vec![];
            for i in 0..n {
                let mut row = vec![Rat::zero(); n];
                for (j, v) in row.iter_mut().enumerate().take(i) {
                    *v = Rat::int(1 << (i - j + 1));
                }
                row[i] = Rat::one();
                a.push(row);
                b.push(Rat::int(base.pow(i as u32)));
            }
            let c = (0..n).map(|j| Rat::int(1 << (n - 1 - j))).collect();
            (with_slacks(a, b, c), format!("Klee and Minty {n} {base}"))
        }
        6 => {
            // A cone: every constraint is tight at the origin.
            let n = r.range(2, 5) as usize;
            let m = r.range(n as i64, 7) as usize;
            let mut a: Vec<Vec<Rat>> = (0..m).map(|_| (0..n).map(|_| Rat::int(r.range(-5, 5))).collect()).collect();
            let mut b = vec![Rat::zero(); m];
            a.push(vec![Rat::one(); n]);
            b.push(Rat::int(r.range(0, 3)));
            let c = (0..n).map(|_| Rat::int(r.range(-3, 6))).collect();
            (with_slacks(a, b, c), "cone".into())
        }
        _ => {
            // Assignment: every vertex is degenerate and one row is redundant.
            let k = r.range(2, 4) as usize;
            let mut a = vec![];
            for i in 0..k {
                a.push((0..k * k).map(|j| if j / k == i { Rat::one() } else { Rat::zero() }).collect::<Vec<_>>());
            }
            for i in 0..k {
                a.push((0..k * k).map(|j| if j % k == i { Rat::one() } else { Rat::zero() }).collect::<Vec<_>>());
            }
            let b = vec![Rat::one(); 2 * k];
            let c = (0..k * k).map(|_| Rat::int(r.range(0, 9))).collect();
            (Sys::new(a, b, c, 0, vec![]), format!("assignment {k}"))
        }
    }
}
/// The problem of the case, in one of the forms in which the library can be given one.
enum Given {
    Whole(Whole),
    Partial(Partial),
    Plain(Plain),
    Form(Box<relp::data::linear_program::general_form::GeneralForm<RB>>),
}
macro_rules! rules {
    ($k:expr, $f:ident, $im:ty, $($arg:expr),*) => {
        match $k {
            0 => $f::<$im, _, Checked<FirstProfitable>>($($arg),*),
            1 => $f::<$im, _, Checked<FirstProfitableWithMemory>>($($arg),*),
            2 => $f::<$im, _, Checked<SteepestDescentAlongVariable>>($($arg),*),
            _ => $f::<$im, _, Checked<SteepestDescentAlongObjective<RB>>>($($arg),*),
        }
    };
}
const RULES: [&str; 4] = ["first profitable", "first profitable with memory", "steepest along variable", "steepest along objective"];

/// Basis changes followed in C11, which also observes the choice of the row.
const LONG: u64 = 3000;

fn start(rule: usize, stop: u64, level: Level) {
    let mut rec = Rec::new(level);
    rec.lowest = stop == LONG;
    // Only the first profitable column with the row rule of the library is proven never to cycle.
    rec.memoryless = rule == 0;
    rec.dense = 36;
    watch::reset(rec);
    seen(|s| *s = Seen { stop, ..Seen::default() });
}
fn watched<'p, MP>(mp: &'p MP, rule: usize, lu: bool, partial: bool) -> End
where
    MP: PartialInitialBasis + MatrixProvider<Column: Identity + IntoFilteredColumn>,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Cost<ArtificialCost> + ops::Rhs<MP::Rhs>,
{
    if lu { rules!(rule, both_phases, Watch<Lu>, mp, partial) } else { rules!(rule, both_phases, Watch<Rows>, mp, partial) }
}
fn watched_basis<'p, MP>(mp: &'p MP, rule: usize, lu: bool, basis: &[usize]) -> End
where
    MP: MatrixProvider,
    MP::Rhs: 'static,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Rhs<MP::Rhs> + ops::Column<MP::Rhs>,
{
    if lu { rules!(rule, from_basis, Watch<Lu>, mp, basis) } else { rules!(rule, from_basis, Watch<Rows>, mp, basis) }
}
/// A feasible basis as a random walk reaches it.
fn some_basis(r: &mut Rng, sys: &Lp) -> Option<Vec<usize>> {
    let m = sys.rows.len();
    let n = sys.vars.len();
    let mut lp = sys.clone();
    for v in &mut lp.vars {
        v.cost = Rat::int(r.range(0, 5));
    }
    let Truth::Optimal { x, .. } = oracle::solve(&lp) else { return None };
    // Make the support independent, then complete it.
    let col = |j: usize| -> Vec<Rat> { sys.rows.iter().map(|r| r.coef.iter().find(|c| c.0 == j).map_or(Rat::zero(), |c| c.1.clone())).collect() };
    let support: Vec<usize> = (0..n).filter(|&j| !x[j].is_zero()).collect();
    let mut basis = support.clone();
    if rank(&basis.iter().map(|&j| col(j)).collect::<Vec<_>>()) < basis.len() {
        return None;
    }
    let mut order: Vec<usize> = (0..n).filter(|j| !support.contains(j)).collect();
    r.shuffle(&mut order);
    for j in order {
        if basis.len() == m {
            break;
        }
        basis.push(j);
        if rank(&basis.iter().map(|&j| col(j)).collect::<Vec<_>>()) < basis.len() {
            basis.pop();
        }
    }
    if basis.len() < m {
        return None;
    }
    r.shuffle(&mut basis);
    Some(basis)
}
/// Dozens of rows beyond every small capacity, with the verdict known.
fn given_large(ctx: &mut Ctx) -> (Given, Lp, Truth) {
    let (m, n) = if ctx.r.chance(1, 4) { (ctx.r.range(8, 25), ctx.r.range(100, 180)) } else { (ctx.r.range(33, 70), ctx.r.range(25, 90)) };
    let (lp, truth) = mk::sized(&mut ctx.r, m as usize, n as usize);
    (Given::Form(Box::new(general(&lp))), lp, truth)
}
/// A watched solve of a large problem, the end against its certified verdict.
fn large_case(ctx: &mut Ctx, level: Level, stop: u64) -> Res {
    let (g, lp, truth) = given_large(ctx);
    ctx.describe(format!("large\n{}", lp.show()));
    let mut how = String::new();
    let Some((e, sys)) = watched_solve(ctx, &g, &lp, &mut how, stop, level)? else { return Ok(()) };
    let rec = watch::record();
    ctx.nontrivial(&format!("large{}{}{:?}{:?}", lp.rows.len(), lp.vars.len(), rec.pivots, rec.basis));
    ensure!(e.kind() == truth.kind(), "ended {} but the problem is {} ({how})", e.kind(), truth.kind());
    verify_end(&e, &sys).map_err(|x| format!("{x} ({how})"))?;
    ctx.count(&format!("large, ended {}", e.kind()));
    Ok(())
}
fn given(ctx: &mut Ctx) -> (Given, Lp, String) {
    match ctx.r.below(10) {
        0..=3 => {
            let big = ctx.r.chance(1, 6);
            let s = system_of(&mut ctx.r, big);
            let lp = lp_of(&s);
            if ctx.r.chance(1, 4) {
                let mut p = s;
                p.pivots.clear();
                (Given::Plain(Plain(p)), lp, "system".into())
            } else if s.pivots.len() == s.b.len() && ctx.r.chance(1, 2) {
                (Given::Whole(Whole(s)), lp, "system with basis".into())
            } else {
                (Given::Partial(Partial(s)), lp, "system with part of a basis".into())
            }
        }
        4 => {
            let (s, name) = classical(&mut ctx.r);
            let lp = lp_of(&s);
            if s.pivots.len() == s.b.len() && ctx.r.chance(1, 2) { (Given::Whole(Whole(s)), lp, name) } else { (Given::Partial(Partial(s)), lp, name) }
        }
        _ => {
            let mut lp = if ctx.r.chance(1, 2) {
                let big = ctx.r.chance(1, 4);
                mk::structured(&mut ctx.r, big)
            } else {
                let s = if ctx.r.chance(1, 4) { mk::shape_mid(&mut ctx.r) } else if ctx.r.chance(1, 3) { mk::shape_tiny(&mut ctx.r) } else { mk::shape_small(&mut ctx.r) };
                mk::any(&mut ctx.r, s)
            };
            mk::repair_bounds(&mut lp);
            let g = general(&lp);
            (Given::Form(Box::new(g)), lp, "general form".into())
        }
    }
}
/// What one watched solve observed, into the counters of the case.
fn observed(ctx: &mut Ctx, rule: &str, e: &End) {
    let rec = watch::record();
    let s = seen(|s| s.clone());
    ctx.add("basis changes", rec.pivots[0] + rec.pivots[1]);
    ctx.add("basis changes in phase one", rec.pivots[0]);
    ctx.add("basis changes in phase two", rec.pivots[1]);
    ctx.add("degenerate basis changes", rec.degenerate);
    ctx.add("steps with a tie in the ratio test", rec.ties);
    ctx.add("steps with a tie of three or more rows", rec.threefold);
    ctx.add("artificial variables driven out", rec.driven_out);
    ctx.add("rows removed", rec.rows_removed);
    ctx.add("transitions", rec.transitions);
    ctx.add("states compared", rec.checked);
    ctx.add("selections", s.selections);
    ctx.add("profitable columns seen", s.candidates);
    ctx.add("relative costs compared", s.compared);
    ctx.add("optimality declarations", s.nones);
    ctx.add("searches that wrapped around", s.wrapped);
    ctx.add("ties", s.ties);
    if rec.pivots[0].max(rec.pivots[1]) > 31 {
        ctx.count("phases long enough to factorize anew");
    }
    ctx.count(&format!("ended {}", e.kind()));
    ctx.count(&format!("rule: {rule}"));
}
/// Solve the problem of the case in one random way, fully watched.
fn watched_solve(ctx: &mut Ctx, g: &Given, lp: &Lp, how: &mut String, stop: u64, level: Level) -> Result<Option<(End, Lp)>, String> {
    let rule = ctx.r.below(5);
    let lu = ctx.r.chance(1, 2);
    let partial = ctx.r.chance(1, 2);
    let walk = ctx.r.chance(1, 3);
    let name = if rule < 4 { RULES[rule] } else { "as the library chooses" };
    *how = format!("rule {name}, inverse {}, {}", if lu { "factorized" } else { "explicit" }, if partial { "with the suggested basis elements" } else { "with artificial variables only" });
    start(rule, stop, level);
    let mut r = ctx.r.clone();
    let one = |mp: &dyn Fn() -> End| guarded(|| mp());
    let (e, sys) = match g {
        Given::Plain(p) => {
            *how = format!("rule of the library, inverse {lu}, without suggested basis");
            (one(&|| if lu { end(p.solve_relaxation::<Watch<Lu>>()) } else { end(p.solve_relaxation::<Watch<Rows>>()) }), lp.clone())
        }
        Given::Whole(p) if rule == 4 => (one(&|| if lu { end(p.solve_relaxation::<Watch<Lu>>()) } else { end(p.solve_relaxation::<Watch<Rows>>()) }), lp.clone()),
        Given::Partial(p) if rule == 4 => (one(&|| if lu { end(p.solve_relaxation::<Watch<Lu>>()) } else { end(p.solve_relaxation::<Watch<Rows>>()) }), lp.clone()),
        Given::Whole(p) => {
            let b = if walk { some_basis(&mut r, lp) } else { None };
            match b {
                Some(b) => {
                    *how = format!("{how}, phase two from basis {b:?}");
                    (one(&|| watched_basis(p, rule, lu, &b)), lp.clone())
                }
                None => (one(&|| watched(p, rule, lu, partial)), lp.clone()),
            }
        }
        Given::Partial(p) => {
            let b = if walk { some_basis(&mut r, lp) } else { None };
            match b {
                Some(b) => {
                    *how = format!("{how}, phase two from basis {b:?}");
                    (one(&|| watched_basis(p, rule, lu, &b)), lp.clone())
                }
                None => (one(&|| watched(p, rule, lu, partial)), lp.clone()),
            }
        }
        Given::Form(f) => {
            let mut f = f.clone();
            if ctx.r.chance(1, 3) && presolve(&mut f).is_some() {
                return Ok(None);
            }
            let counts = f.standardize();
            if ctx.r.chance(1, 5) {
                use relp::data::linear_program::general_form::Scalable;
                let _ = f.scale();
            }
            let data = f.derive_matrix_data(counts);
            let sys = system(&data);
            let b = if walk && rule < 4 { some_basis(&mut r, &sys) } else { None };
            let e = match b {
                Some(b) => {
                    *how = format!("{how}, phase two from basis {b:?}");
                    guarded(|| watched_basis(&data, rule, lu, &b))
                }
                None if rule == 4 => guarded(|| if lu { end(data.solve_relaxation::<Watch<Lu>>()) } else { end(data.solve_relaxation::<Watch<Rows>>()) }),
                None => guarded(|| watched(&data, rule, lu, partial)),
            };
            (e, sys)
        }
    };
    let e = e.map_err(|e| format!("{e} ({how})"))?;
    observed(ctx, name, &e);
    if seen(|s| s.stopped) {
        ctx.count("stopped after many basis changes");
        return Ok(None);
    }
    Ok(Some((e, sys)))
}
fn solve_case(ctx: &mut Ctx, level: Level, stop: u64) -> Result<Option<(End, Lp, String)>, String> {
    let (g, lp, name) = given(ctx);
    ctx.describe(format!("{name}\n{}", lp.show()));
    ctx.count(&format!("problem: {}", name.split(' ').take_while(|w| !w.starts_with(|c: char| c.is_ascii_digit())).collect::<Vec<_>>().join(" ")));
    let mut how = String::new();
    let out = watched_solve(ctx, &g, &lp, &mut how, stop, level)?;
    let rec = watch::record();
    ctx.describe_more(&how);
    ctx.nontrivial(&format!("{name}{}{}{:?}{:?}{}{}", lp.rows.len(), lp.vars.len(), rec.pivots, rec.basis, rec.degenerate, how));
    Ok(out.map(|(e, s)| (e, s, how)))
}
fn c09(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 100) {
        return large_case(ctx, Level::Full, 150);
    }
    if let Some((e, sys, how)) = solve_case(ctx, Level::Full, 400)? {
        verify_end(&e, &sys).map_err(|x| format!("{x} ({how})"))?;
        if let End::Optimal(x) = &e {
            let rec = watch::record();
            let obj = sys.objective(x);
            let basic: Rat = rec.basis.iter().fold(Rat::zero(), |s, &j| s.add(&sys.vars[j].cost.mul(&x[j])));
            ensure!(obj == basic, "objective {obj} is not the cost of the basis {basic}");
        }
    }
    Ok(())
}
fn c10(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 100) {
        return large_case(ctx, Level::Light, 150);
    }
    if let Some((e, sys, how)) = solve_case(ctx, Level::Light, 400)? {
        verify_end(&e, &sys).map_err(|x| format!("{x} ({how})"))?;
    }
    Ok(())
}
fn c11(ctx: &mut Ctx) -> Res {
    // Long runs with each rule; only cycling of a rule without guarantee is tolerated, and counted.
    let hard = ctx.r.chance(1, 2);
    let (g, lp, name) = if hard {
        let (s, name) = classical(&mut ctx.r);
        let lp = lp_of(&s);
        if s.pivots.len() == s.b.len() && ctx.r.chance(1, 2) { (Given::Whole(Whole(s)), lp, name) } else { (Given::Partial(Partial(s)), lp, name) }
    } else {
        given(ctx)
    };
    ctx.describe(format!("{name}\n{}", lp.show()));
    let mut how = String::new();
    let Some((e, sys)) = watched_solve(ctx, &g, &lp, &mut how, LONG, Level::Light)? else { return Ok(()) };
    ctx.describe_more(&how);
    verify_end(&e, &sys).map_err(|x| format!("{x} ({how})"))?;
    let truth = oracle::solve(&sys);
    ensure!(truth.kind() == e.kind(), "ended {} but the problem is {} ({how})", e.kind(), truth.kind());
    if let (Truth::Optimal { obj, .. }, End::Optimal(x)) = (&truth, &e) {
        ensure!(*obj == sys.objective(x), "ended with {} but the optimum is {obj} ({how})", sys.objective(x));
    }
    if hard {
        ctx.count("classical instances");
    }
    let rec = watch::record();
    ctx.nontrivial(&format!("{name}{how}{:?}{:?}", rec.pivots, rec.basis));
    Ok(())
}

// C12 -------------------------------------------------------------------------------------------

fn matrix_of(sys: &Lp) -> Mat {
    let n = sys.vars.len();
    sys.rows
        .iter()
        .map(|r| {
            let mut v = vec![Rat::zero(); n];
            for (j, a) in &r.coef {
                v[*j] = a.clone();
            }
            v
        })
        .collect()
}
fn check_removed<'p, MP>(mp: &'p MP, sys: &Lp, rows: &[usize], delete_one_by_one: bool) -> Res
where
    MP: MatrixProvider<Column: IntoFilteredColumn> + PartialInitialBasis,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Column<<<MP::Column as IntoFilteredColumn>::Filtered as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Rhs<MP::Rhs>,
{
    let m = sys.rows.len();
    let removed = if delete_one_by_one {
        let mut w = RemoveRows::new(mp, vec![]);
        // In an arbitrary order, by the index each row has at that moment.
        let mut order = rows.to_vec();
        Rng::new(rows.iter().fold(m as u64, |s, &i| s.wrapping_mul(31).wrapping_add(i as u64))).shuffle(&mut order);
        for (k, &i) in order.iter().enumerate() {
            w.delete_row(i - order[..k].iter().filter(|&&p| p < i).count());
        }
        w
    } else {
        RemoveRows::new(mp, rows.to_vec())
    };
    ensure!(removed.filtered_rows() == rows, "rows {rows:?} removed but {:?} listed", removed.filtered_rows());
    ensure!(removed.nr_constraints_deleted() == rows.len(), "{} constraints deleted", removed.nr_constraints_deleted());
    let keep: Vec<usize> = (0..m).filter(|i| !rows.contains(i)).collect();
    for (a, &i) in keep.iter().enumerate() {
        ensure!(removed.get_underlying_row_index(a) == i, "row {a} is said to be row {} instead of {i} after removing {rows:?}", removed.get_underlying_row_index(a));
    }
    ensure!(removed.nr_rows() == keep.len() && removed.nr_columns() == sys.vars.len(), "{} rows and {} columns are left", removed.nr_rows(), removed.nr_columns());
    ensure!(removed.nr_constraints() + rows.len() == mp.nr_constraints() && removed.nr_variable_bounds() == mp.nr_variable_bounds(), "constraint and bound counts do not match");
    let left = system(&removed);
    for (a, &i) in keep.iter().enumerate() {
        ensure!(left.rows[a].coef == sys.rows[i].coef, "row {i} is changed by removing rows {rows:?}");
        ensure!(left.rows[a].rhs == sys.rows[i].rhs, "right-hand side of row {i} is changed by removing rows {rows:?}");
    }
    for j in 0..sys.vars.len() {
        ensure!(left.vars[j].cost == sys.vars[j].cost, "cost of column {j} is changed by removing rows");
        for d in [relp::data::linear_program::elements::BoundDirection::Lower, relp::data::linear_program::elements::BoundDirection::Upper] {
            let (old, new) = (mp.bound_row_index(j, d), removed.bound_row_index(j, d));
            ensure!(new == old.map(|i| keep.iter().position(|&k| k == i).unwrap_or(usize::MAX)), "bound row of column {j} is {new:?} after removing rows {rows:?}, {old:?} before");
        }
    }
    let expected: Vec<(usize, usize)> = mp.pivot_element_indices().into_iter().filter(|(i, _)| !rows.contains(i)).map(|(i, j)| (keep.iter().position(|&k| k == i).unwrap(), j)).collect();
    ensure!(removed.pivot_element_indices() == expected, "suggested basis elements {:?} instead of {expected:?}", removed.pivot_element_indices());
    ensure!(removed.nr_initial_elements() == expected.len(), "number of suggested basis elements");
    let point = || <relp::data::linear_algebra::vector::SparseVector<RB, RB> as relp::data::linear_algebra::vector::Vector<RB>>::new((0..sys.vars.len()).filter(|j| (j + rows.len()) % 3 != 0).map(|j| (j, to_rb(&Rat::int(j as i64 + 1)))).collect(), sys.vars.len());
    let (old, new) = (mp.reconstruct_solution(point()), removed.reconstruct_solution(point()));
    ensure!(new == old, "a point is said to be {new:?} after removing rows {rows:?}, {old:?} before");
    Ok(())
}
struct Outcome1 {
    feasible: bool,
    rank: Option<Vec<usize>>,
    artificial: usize,
    basis: HashSet<usize>,
    indices: Vec<usize>,
}
fn outcome1<IM: InverseMaintainer<F = RB>>(r: RankedFeasibilityResult<IM>, m: usize) -> Outcome1 {
    match r {
        RankedFeasibilityResult::Infeasible => Outcome1 { feasible: false, rank: None, artificial: 0, basis: HashSet::new(), indices: vec![] },
        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => Outcome1 {
            feasible: true,
            rank: match rank {
                Rank::Full => None,
                Rank::Deficient(v) => Some(v),
            },
            artificial: nr_artificial_variables,
            indices: (0..m).map(|i| inverse_maintainer.basis_column_index_for_row(i)).collect(),
            basis,
        },
    }
}
fn one_phase<MP>(mp: &MP, rule: usize, lu: bool, partial: bool, m: usize) -> Outcome1
where
    MP: PartialInitialBasis + MatrixProvider<Column: Identity + IntoFilteredColumn>,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Cost<ArtificialCost> + ops::Rhs<MP::Rhs>,
{
    macro_rules! go {
        ($im:ty) => {
            match rule {
                0 => outcome1(compute_bfs_with_rule::<$im, _, Checked<FirstProfitable>>(mp, partial), m),
                1 => outcome1(compute_bfs_with_rule::<$im, _, Checked<FirstProfitableWithMemory>>(mp, partial), m),
                2 => outcome1(compute_bfs_with_rule::<$im, _, Checked<SteepestDescentAlongVariable>>(mp, partial), m),
                3 => outcome1(compute_bfs_with_rule::<$im, _, Checked<SteepestDescentAlongObjective<RB>>>(mp, partial), m),
                _ => outcome1(mp.compute_bfs_giving_im::<$im>(), m),
            }
        };
    }
    if lu { go!(Watch<Lu>) } else { go!(Watch<Rows>) }
}
fn phase_one<'p, MP>(ctx: &mut Ctx, mp: &'p MP, sys: &Lp, suggest: bool, removable: usize, known: Option<bool>) -> Res
where
    MP: PartialInitialBasis + MatrixProvider<Column: Identity + IntoFilteredColumn>,
    RB: ops::Column<<MP::Column as Column>::F> + ops::Column<<<MP::Column as IntoFilteredColumn>::Filtered as Column>::F> + ops::Cost<MP::Cost<'p>> + ops::Cost<ArtificialCost> + ops::Rhs<MP::Rhs>,
{
    let (m, n) = (sys.rows.len(), sys.vars.len());
    let feasible = known.unwrap_or_else(|| {
        let mut plain = sys.clone();
        plain.vars.iter_mut().for_each(|v| v.cost = Rat::zero());
        !matches!(oracle::solve(&plain), Truth::Infeasible { .. })
    });
    let a = matrix_of(sys);
    let full_rank = rank(&a);
    for _ in 0..2 {
        let rule = ctx.r.below(5);
        let lu = ctx.r.chance(1, 2);
        let partial = suggest && (rule == 4 || ctx.r.chance(1, 2));
        let how = format!("rule {}, inverse {}, {}", if rule < 4 { RULES[rule] } else { "of the library" }, if lu { "factorized" } else { "explicit" }, if partial { "with suggested basis elements" } else { "with artificial variables only" });
        start(rule, 0, Level::Light);
        let out = guarded(|| one_phase(mp, rule, lu, partial, m)).map_err(|e| format!("{e} ({how})"))?;
        let rec = watch::record();
        ensure!(out.feasible == feasible, "phase one says feasible: {} but it is {feasible} ({how})", out.feasible);
        ctx.add("basis changes", rec.pivots[0]);
        ctx.add("artificial variables driven out", rec.driven_out);
        ctx.count(if feasible { "feasible" } else { "infeasible" });
        ctx.count(if partial { "with suggested elements" } else { "without suggested elements" });
        ctx.nontrivial(&format!("{m}{n}{full_rank}{how}{:?}{:?}", rec.pivots, rec.basis));
        if !feasible {
            continue;
        }
        let expected = if partial { m - mp.pivot_element_indices().len() } else { m };
        ensure!(out.artificial == expected, "{} artificial variables reported instead of {expected} ({how})", out.artificial);
        let rows = out.rank.clone().unwrap_or_default();
        ensure!(rows.windows(2).all(|w| w[0] < w[1]) && rows.iter().all(|&i| i < m), "redundant rows {rows:?} are not sorted ({how})");
        let kept: Mat = (0..m).filter(|i| !rows.contains(i)).map(|i| a[i].clone()).collect();
        ensure!(rank(&kept) == kept.len(), "dependent constraints are kept: {} of rank {} without {rows:?} ({how})", kept.len(), rank(&kept));
        ensure!(kept.len() == full_rank, "constraints {rows:?} are dropped but the rank is {full_rank} of {m} ({how})");
        ensure!(rows.iter().all(|&i| i < mp.nr_constraints()), "variable bounds are among the redundant rows {rows:?} ({how})");
        let set: HashSet<usize> = out.indices.iter().copied().collect();
        ensure!(set == out.basis, "the basis is {:?} as a list and {:?} as a set ({how})", out.indices, out.basis);
        for (i, &j) in out.indices.iter().enumerate() {
            ensure!((j < out.artificial) == rows.contains(&i), "row {i} has basis column {j} with {} artificial variables, redundant rows {rows:?} ({how})", out.artificial);
        }
        let square: Mat = out.indices.iter().filter(|&&j| j >= out.artificial).map(|&j| kept.iter().map(|r| r[j - out.artificial].clone()).collect()).collect();
        ensure!(square.len() == kept.len() && rank(&square) == square.len(), "the basis {:?} does not span the remaining rows ({how})", out.indices);
        let b: Vec<Rat> = (0..m).filter(|i| !rows.contains(i)).map(|i| sys.rows[i].rhs.clone()).collect();
        let x = mul_vec(&inverse(&transpose(&square)).unwrap_or_default(), &b);
        ensure!(x.iter().all(|v| v.sign() >= 0), "the basis {:?} is not feasible: {} ({how})", out.indices, show(&x));
        if rows.is_empty() {
            ctx.count("full rank");
        } else {
            ctx.count("rank deficient");
            guarded(|| check_removed(mp, sys, &rows, false)).and_then(|x| x)?;
        }
    }
    // Removing arbitrary constraints.
    let mut rows: Vec<usize> = (0..removable).filter(|_| ctx.r.chance(1, 3)).collect();
    if ctx.r.chance(1, 8) {
        rows = (0..removable).collect();
    }
    let one_by_one = ctx.r.chance(1, 2);
    guarded(|| check_removed(mp, sys, &rows, one_by_one)).and_then(|x| x)?;
    ctx.count("row removals compared");
    Ok(())
}
/// Many constraints, several of them combinations of others.
fn phase_one_large(ctx: &mut Ctx) -> Res {
    let (_, mut lp, truth) = given_large(ctx);
    for _ in 0..*ctx.r.pick(&[0, 3, 20, 40]) {
        let equal: Vec<usize> = (0..lp.rows.len()).filter(|&i| matches!(lp.rows[i].rel, Rel::Eq)).collect();
        if equal.is_empty() {
            break;
        }
        let (a, b) = (lp.rows[*ctx.r.pick(&equal)].clone(), lp.rows[*ctx.r.pick(&equal)].clone());
        let f = Rat::int(*ctx.r.pick(&[0, 0, 1, -1, 2]));
        let mut terms: HashMap<usize, Rat> = a.coef.iter().cloned().collect();
        for (j, v) in &b.coef {
            let t = terms.remove(j).unwrap_or(Rat::zero()).add(&f.mul(v));
            terms.insert(*j, t);
        }
        let mut coef: Vec<(usize, Rat)> = terms.into_iter().filter(|t| !t.1.is_zero()).collect();
        coef.sort_by_key(|t| t.0);
        let rhs = a.rhs.add(&f.mul(&b.rhs));
        let at = ctx.r.below(lp.rows.len() + 1);
        lp.rows.insert(at, Row { name: format!("RD{}", lp.rows.len()), rel: Rel::Eq, rhs, coef });
    }
    ctx.describe(lp.show());
    let mut g = general(&lp);
    let counts = g.standardize();
    let data = g.derive_matrix_data(counts);
    let sys = system(&data);
    ctx.count("large");
    phase_one(ctx, &data, &sys, true, counts[0], Some(!matches!(truth, Truth::Infeasible { .. })))
}
fn c12(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 250) {
        return phase_one_large(ctx);
    }
    if ctx.r.chance(2, 3) {
        let big = ctx.r.chance(1, 5);
        let (s, name) = if ctx.r.chance(1, 8) { classical(&mut ctx.r) } else { (system_of(&mut ctx.r, big), "system".to_string()) };
        let lp = lp_of(&s);
        ctx.describe(format!("{name} with initial elements {:?}\n{}", s.pivots, lp.show()));
        {
            let m = lp.rows.len();
            phase_one(ctx, &Partial(sorted(s)), &lp, true, m, None)
        }
    } else {
        let mut lp = if ctx.r.chance(1, 2) { mk::structured(&mut ctx.r, false) } else { let s = mk::shape_small(&mut ctx.r); mk::small(&mut ctx.r, s) };
        mk::repair_bounds(&mut lp);
        ctx.describe(lp.show());
        let mut g = general(&lp);
        let counts = g.standardize();
        let data = g.derive_matrix_data(counts);
        let sys = system(&data);
        // The matrix documents that only equality rows can be removed.
        phase_one(ctx, &data, &sys, true, counts[0], None)
    }
}
// Printing --------------------------------------------------------------------------------------

/// The numbers of a printed line, without the bars between groups of them.
fn tokens(line: &str) -> Vec<String> {
    line.replace('|', " ").split_whitespace().map(str::to_string).collect()
}
fn numbers(line: &str) -> Result<Vec<Rat>, String> {
    tokens(line).iter().map(|t| Rat::parse(t).ok_or_else(|| format!("{t:?} is printed as a number"))).collect()
}
fn is_rule(line: &str) -> bool {
    line.len() >= 2 && line.chars().all(|c| c == '-' || c == '=')
}
/// A table as the two inverses print it: a line with column numbers, one per row that starts with the row number.
/// Returns the printed values of each row.
fn table<'a>(lines: &mut impl Iterator<Item = &'a str>, m: usize) -> Result<Vec<Vec<Rat>>, String> {
    let head = lines.next().ok_or("no line with column numbers")?;
    ensure!(tokens(head) == (0..m).map(|j| j.to_string()).collect::<Vec<_>>(), "the columns of a table with {m} columns are numbered {head:?}");
    let line = lines.next().ok_or("no line below the column numbers")?;
    ensure!(is_rule(line), "below the column numbers is {line:?}");
    (0..m)
        .map(|i| {
            let line = lines.next().ok_or_else(|| format!("no line for row {i}"))?;
            let (number, rest) = line.split_once('|').ok_or_else(|| format!("row {i} is printed as {line:?}"))?;
            ensure!(number.trim() == i.to_string(), "row {i} is numbered {number:?}");
            numbers(rest)
        })
        .collect()
}
fn determinant(a: &Mat) -> Rat {
    let mut a = a.clone();
    let m = a.len();
    let mut d = Rat::one();
    for k in 0..m {
        let Some(p) = (k..m).find(|&i| !a[i][k].is_zero()) else { return Rat::zero() };
        if p != k {
            a.swap(p, k);
            d = d.neg();
        }
        d = d.mul(&a[k][k]);
        for i in k + 1..m {
            let f = a[i][k].div(&a[k][k]);
            for j in k..m {
                a[i][j] = a[i][j].sub(&f.mul(&a[k][j]));
            }
        }
    }
    d
}
/// A printed inverse of `b`, which has rows in its first dimension.
fn printed_inverse(text: &str, b: &Mat) -> Res {
    let m = b.len();
    let mut lines = text.lines();
    if text.trim_start().starts_with("Lower") {
        // The factors belong to some permutation of the basis, and with updates the lower one is only part of it.
        lines.next();
        // Values of more than nine characters are not separated from the next, such a table can't be read.
        let Ok(lower) = table(&mut lines, m) else { return unreadable(text) };
        let wide = |row: usize, n: usize, least: usize| n < least || n > m - row + least;
        for (i, row) in lower.iter().enumerate() {
            if row.len() != i + 1 {
                return unreadable(text);
            }
            ensure!(row[i] == Rat::one(), "row {i} of the lower triangular factor ends with {} on its diagonal", row[i]);
        }
        let mut lines = lines.skip_while(|l| !l.starts_with("Upper"));
        lines.next();
        let Ok(upper) = table(&mut lines, m) else { return unreadable(text) };
        let mut product = Rat::one();
        for (i, row) in upper.iter().enumerate() {
            if wide(i, row.len(), 1) || row.len() != m - i {
                return unreadable(text);
            }
            product = product.mul(&row[0]);
        }
        let d = determinant(b);
        ensure!(product.abs() == d.abs(), "the upper triangular factor is printed with determinant {product} but the basis has {d}");
        seen(|s| s.factors += 1);
        return Ok(());
    }
    let rows = table(&mut lines, m)?;
    let inv = inverse(b).ok_or("harness: singular")?;
    ensure!(rows == inv, "the inverse is printed as {} but is {}", rows.iter().map(|r| show(r)).collect::<Vec<_>>().join(" / "), inv.iter().map(|r| show(r)).collect::<Vec<_>>().join(" / "));
    seen(|s| s.inverses += 1);
    Ok(())
}
fn unreadable(text: &str) -> Res {
    ensure!(text.split(|c: char| !c.is_ascii_digit() && c != '/' && c != '-').any(|t| t.trim_matches('-').len() > 7), "a table without long values can't be read: {text:?}");
    seen(|s| s.unreadable += 1);
    Ok(())
}
/// A printed tableau against the state it should show.
fn printed_tableau<IM, K>(t: &Tableau<IM, K>, s: &State) -> Res
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: ops::Column<<K::Column as Column>::F> + ops::Cost<K::Cost>,
{
    let text = t.to_string();
    let (m, n) = (t.nr_rows(), t.nr_columns());
    let lines: Vec<&str> = text.lines().collect();
    let at = |what: &str| lines.iter().position(|l| l.contains(what)).ok_or_else(|| format!("no line {what:?} in {text:?}"));
    let (start, basis, inv) = (at("Tableau")?, at("Basis Columns")?, at("Basis Inverse")?);
    ensure!(start < basis && basis < inv, "the parts of the printed tableau are not in order");
    let mut rows = lines[start + 1..basis].iter().filter(|l| !is_rule(l) && !l.trim().is_empty());
    let head = tokens(rows.next().ok_or("no line with column numbers")?);
    ensure!(head == ["b".to_string()].into_iter().chain((0..n).map(|j| j.to_string())).collect::<Vec<_>>(), "the columns are numbered {head:?}");
    // Zeros of the columns are left blank.
    let line = |l: &str, label: &str, first: Rat, rest: Vec<Rat>, blank: bool| -> Res {
        let parts: Vec<&str> = l.splitn(3, '|').collect();
        ensure!(parts.len() == 3 && parts[0].trim() == label, "the line of {label} is {l:?}");
        ensure!(numbers(parts[1])? == vec![first.clone()], "the line of {label} shows {} instead of {first}", parts[1]);
        let expected: Vec<Rat> = if blank { rest.into_iter().filter(|v| !v.is_zero()).collect() } else { rest };
        let shown = numbers(parts[2])?;
        ensure!(shown == expected, "the line of {label} shows {} instead of {}", show(&shown), show(&expected));
        Ok(())
    };
    let objective = from(&t.objective_function_value());
    line(rows.next().ok_or("no line of costs")?, "cost", objective.neg(), s.rc.clone(), false)?;
    for i in 0..m {
        let coefficients = s.columns.iter().map(|c| dot(&s.inv[i], c)).collect();
        line(rows.next().ok_or_else(|| format!("no line for row {i}"))?, &i.to_string(), from(&t.variable_value(s.basis[i])), coefficients, true)?;
    }
    ensure!(rows.next().is_none(), "more lines than rows are printed");
    let expected: Vec<(usize, usize)> = s.basis.iter().copied().enumerate().collect();
    let shown = lines[basis + 1..inv].join("");
    ensure!(shown.trim() == format!("{expected:?}"), "the basis is printed as {shown} instead of {expected:?}");
    let rest = lines[inv + 1..].join("\n");
    let (order, rest) = rest.split_once("Minus PI:").ok_or("no dual values are printed")?;
    ensure!(order.contains(&format!("{:?}", s.basis)), "the order of the basis is printed as {order:?} instead of {:?}", s.basis);
    let (pi, rest) = rest.split_once("B^-1:").ok_or("no inverse is printed")?;
    let cb: Vec<Rat> = s.basis.iter().map(|&j| s.cost[j].clone()).collect();
    let y: Vec<Rat> = vec_mul(&cb, &s.inv).iter().map(Rat::neg).collect();
    ensure!(m == 0 || numbers(&pi.replace('\n', " "))? == y, "the dual values are printed as {pi:?} instead of {}", show(&y));
    printed_inverse(rest.trim_start_matches('\n'), &transpose(&s.basis.iter().map(|&j| s.columns[j].clone()).collect::<Vec<_>>()))?;
    seen(|s| s.tableaus += 1);
    Ok(())
}
/// A printed matrix (with costs or without) against the system it describes.
/// Returns whether the values could be read.
fn printed_matrix(text: &str, sys: &Lp, costs: bool) -> Result<bool, String> {
    let (m, n) = (sys.rows.len(), sys.vars.len());
    if n == 0 {
        return Ok(false);
    }
    // Rules may be on lines of their own or not, and values of eight characters are not separated.
    let dense: Vec<Vec<Rat>> = sys.rows.iter().map(|r| (0..n).map(|j| r.coef.iter().find(|c| c.0 == j).map_or(Rat::zero(), |c| c.1.clone())).collect()).collect();
    let long = dense.iter().flatten().chain(sys.vars.iter().map(|v| &v.cost)).any(|v| v.to_string().len() > 7);
    let mut plain = String::new();
    for run in text.split_inclusive(|c| c != '-' && c != '=') {
        let length = run.chars().take_while(|c| *c == '-' || *c == '=').count();
        if length >= 8 {
            plain.push('\n');
            plain.push_str(&run[length..]);
        } else {
            plain.push_str(run);
        }
    }
    let mut lines = plain.lines().filter(|l| !l.trim().is_empty() && !is_rule(l));
    let head = tokens(lines.next().ok_or("nothing is printed")?);
    ensure!(head == (0..n).map(|j| j.to_string()).collect::<Vec<_>>(), "the columns are numbered {head:?}");
    let line = |l: Option<&str>, label: &str, expected: Vec<Rat>| -> Res {
        let l = l.ok_or_else(|| format!("no line for {label}"))?;
        let (name, rest) = l.split_once('|').ok_or_else(|| format!("the line of {label} is {l:?}"))?;
        ensure!(name.trim() == label, "the line of {label} is named {name:?}");
        if !long {
            let shown = numbers(rest)?;
            ensure!(shown == expected, "the line of {label} shows {} instead of {}", show(&shown), show(&expected));
        }
        Ok(())
    };
    if costs {
        line(lines.next(), "cost", sys.vars.iter().map(|v| v.cost.clone()).collect())?;
    }
    for i in 0..m {
        line(lines.next(), &i.to_string(), dense[i].clone())?;
    }
    ensure!(lines.next().is_none(), "more lines than rows are printed");
    Ok(!long)
}
/// How each column writes its elements, and the ways of going through them.
fn printed_columns<'p, MP>(mp: &'p MP, sys: &Lp) -> Res
where
    MP: MatrixProvider,
    MP::Column: IntoIterator<Item = (usize, <MP::Column as Column>::F)>,
    RB: ops::Column<<MP::Column as Column>::F>,
{
    for j in 0..sys.vars.len() {
        let column = mp.column(j);
        let truth: Vec<(usize, Rat)> = sys.rows.iter().enumerate().filter_map(|(i, r)| r.coef.iter().find(|c| c.0 == j).map(|c| (i, c.1.clone()))).collect();
        for i in 0..sys.rows.len() {
            let expected = truth.iter().find(|t| t.0 == i).map_or(Rat::zero(), |t| t.1.clone());
            let shown = column.index_to_string(i);
            ensure!(Rat::parse(&shown) == Some(expected.clone()), "row {i} of column {j} is written {shown:?} but is {expected}");
        }
        let k = truth.len();
        ensure!(column.iter().count() == k, "column {j} counts {} elements but has {k}", column.iter().count());
        let folded = column.iter().fold(vec![], |mut v, (i, x)| {
            v.push((i, from(&RB::from(x))));
            v
        });
        ensure!(folded == truth, "column {j} is folded as {folded:?} but is {truth:?}");
        let (low, high) = column.iter().size_hint();
        ensure!(low <= k && high.is_none_or(|h| h >= k), "column {j} promises between {low} and {high:?} elements but has {k}");
        let owned = mp.column(j).into_iter();
        let (low, high) = owned.size_hint();
        ensure!(low <= k && high.is_none_or(|h| h >= k), "column {j} promises between {low} and {high:?} elements but has {k}");
        ensure!(owned.count() == k, "column {j} counts a different number of elements when consumed");
        let folded = mp.column(j).into_iter().fold(vec![], |mut v, (i, x)| {
            v.push((i, from(&RB::from(&x))));
            v
        });
        ensure!(folded == truth, "column {j} is folded as {folded:?} when consumed but is {truth:?}");
        // Part of it, then the rest.
        let mut part = mp.column(j).into_iter();
        let first = part.next().map(|(i, x)| (i, from(&RB::from(&x))));
        ensure!(first.as_ref() == truth.first(), "column {j} starts with {first:?}");
        ensure!(part.count() == k.saturating_sub(1), "the rest of column {j} has a different number of elements");
    }
    Ok(())
}
fn printed_vectors(r: &mut Rng) -> Res {
    use relp::data::linear_algebra::vector::{DenseVector, Vector};
    use relp::data::linear_program::elements::RangedConstraintRelation;
    let n = r.range(0, 8) as usize;
    let v: Vec<Rat> = (0..n).map(|_| if r.chance(1, 2) { Rat::zero() } else { mk::nonzero(r, false) }).collect();
    let entries: Vec<(usize, Rat)> = v.iter().cloned().enumerate().filter(|e| !e.1.is_zero()).collect();
    if n > 0 {
        let text = sparse(&v).to_string();
        let expected = format!("[{}]", entries.iter().map(|(i, x)| format!("({i} {x})")).collect::<Vec<_>>().join(", "));
        ensure!(text == expected, "the sparse vector {expected} is printed as {text}");
        let text = DenseVector::<RB>::new(v.iter().map(to_rb).collect(), n).to_string();
        ensure!(numbers(&text.replace('\n', " "))? == v, "the vector {} is printed as {text:?}", show(&v));
    }
    let w = mk::nonzero(r, false);
    let relations: [(RangedConstraintRelation<RB>, String); 4] = [
        (RangedConstraintRelation::Less, "<=".into()),
        (RangedConstraintRelation::Equal, "==".into()),
        (RangedConstraintRelation::Greater, ">=".into()),
        (RangedConstraintRelation::Range(to_rb(&w)), format!("={w}=")),
    ];
    for (relation, expected) in relations {
        ensure!(relation.to_string() == expected, "the relation {expected} is printed as {relation}");
    }
    let s = relp::data::linear_program::solution::Solution::new(to_rb(&w), vec![("x".to_string(), to_rb(&w))]);
    ensure!(numbers(s.to_string().trim().trim_start_matches("Objective value:"))? == vec![w.clone()], "a solution with objective {w} is printed as {s}");
    Ok(())
}
/// Solutions that differ in objective, names, or a known number of values.
fn compared_solutions(r: &mut Rng) -> Result<bool, String> {
    use relp::data::linear_program::solution::Solution;
    let n = if r.chance(1, 4) { r.range(0, 12) } else { r.range(10, 40) } as usize;
    let values: Vec<Rat> = (0..n).map(|_| Rat::int(r.range(0, 3))).collect();
    let objective = Rat::int(r.range(-3, 3));
    let make = |objective: &Rat, list: &[(String, Rat)]| Solution::new(to_rb(objective), list.iter().map(|(s, v)| (s.clone(), to_rb(v))).collect());
    let list: Vec<(String, Rat)> = values.iter().enumerate().map(|(j, v)| (format!("x{j}"), v.clone())).collect();
    let mut other = list.clone();
    let changed = r.below(n + 1);
    let mut which: Vec<usize> = (0..n).collect();
    r.shuffle(&mut which);
    for &j in &which[..changed] {
        other[j].1 = other[j].1.add(&Rat::int(r.range(1, 3)));
    }
    r.shuffle(&mut other);
    let a = make(&objective, &list);
    let b = make(&objective, &other);
    let share = (n - changed) as f64 / n.max(1) as f64;
    let least = r.range(1, 19) as f64 / 20.0;
    let (ab, ba) = (a.is_probably_equal_to(&b, least), b.is_probably_equal_to(&a, least));
    ensure!(ab == ba, "the comparison of solutions depends on which comes first");
    if changed == 0 {
        ensure!(ab, "equal solutions in a different order are told apart");
    }
    // With few variables no share is required, on the border rounding decides.
    if n >= 10 && (share - least).abs() > 1e-6 {
        ensure!(ab == (share > least), "{changed} of {n} values differ, at least {least} have to be equal, and they compare as {ab}");
    }
    let c = make(&objective.add(&Rat::new(1, 7)), &other);
    ensure!(!a.is_probably_equal_to(&c, 0.1) && !c.is_probably_equal_to(&a, 0.1), "solutions with different objectives compare as equal");
    if n > 0 {
        let j = r.below(n);
        let mut renamed = list.clone();
        renamed[j].0 = format!("y{j}");
        let d = make(&objective, &renamed);
        ensure!(!a.is_probably_equal_to(&d, 0.1) && !d.is_probably_equal_to(&a, 0.1), "solutions of different variables compare as equal");
        let mut less = list.clone();
        less.remove(j);
        let e = make(&objective, &less);
        ensure!(!a.is_probably_equal_to(&e, 0.1) && !e.is_probably_equal_to(&a, 0.1), "solutions of different lengths compare as equal");
    }
    Ok(n >= 10)
}
fn c23(ctx: &mut Ctx) -> Res {
    seen(|s| *s = Seen::default());
    let what = ctx.r.below(4);
    if what == 0 {
        printed_vectors(&mut ctx.r)?;
        ctx.count("vectors");
        for _ in 0..5 {
            if compared_solutions(&mut ctx.r)? {
                ctx.count("solutions compared");
            }
        }
    } else if what == 1 {
        // Inverses after some replacements of columns.
        let most = if ctx.r.chance(1, 40) { 24 } else { 7 };
        let m = ctx.r.range(1, most) as usize;
        let (mut b, name) = invertible(&mut ctx.r, m);
        ctx.describe(format!("inverse of size {m}, {name}"));
        let columns: Vec<SparseColumn<RB>> = b.iter().map(|c| sparse_col(c)).collect();
        let mut rows = <BasisInverseRows<RB> as BasisInverse>::invert(columns.iter().cloned());
        let mut lu = <LUDecomposition<RB> as BasisInverse>::invert(columns.iter().cloned());
        for k in 0..ctx.r.below(8) {
            guarded(|| printed_inverse(&rows.to_string(), &transpose(&b)))??;
            guarded(|| printed_inverse(&lu.to_string(), &transpose(&b)))??;
            let c = random_vec(&mut ctx.r, m);
            let spike = mul_vec(&inverse(&transpose(&b)).unwrap(), &c);
            let Some(i) = (0..m).map(|i| (i + k) % m).find(|&i| !spike[i].is_zero()) else { continue };
            rows.change_basis(i, rows.left_multiply_by_basis_inverse(sparse_col(&c).iter()));
            lu.change_basis(i, lu.left_multiply_by_basis_inverse(sparse_col(&c).iter()));
            b[i] = c;
        }
        guarded(|| printed_inverse(&rows.to_string(), &transpose(&b)))??;
        guarded(|| printed_inverse(&lu.to_string(), &transpose(&b)))??;
        ctx.nontrivial(&format!("{m}{name}{b:?}"));
    } else {
        let (g, lp, name) = if ctx.r.chance(1, 400) {
            ctx.count("large");
            let (g, lp, _) = given_large(ctx);
            (g, lp, "large".into())
        } else {
            given(ctx)
        };
        ctx.describe(format!("{name}\n{}", lp.show()));
        if let Given::Form(f) = &g {
            let mut f = f.clone();
            if !(ctx.r.chance(1, 3) && presolve(&mut f).is_some()) {
                let counts = f.standardize();
                let data = f.derive_matrix_data(counts);
                let sys = system(&data);
                let read = guarded(|| printed_matrix(&data.to_string(), &sys, true))??;
                ctx.count(if read { "printed matrices" } else { "matrices with values too long to be separated" });
                guarded(|| printed_columns(&data, &sys))??;
                // The matrix documents that only equality rows can be removed.
                let rows: Vec<usize> = (0..counts[0]).filter(|_| ctx.r.chance(1, 3)).collect();
                let removed = RemoveRows::new(&data, rows);
                let left = system(&removed);
                let read = guarded(|| printed_matrix(&removed.to_string(), &left, false))??;
                ctx.count(if read { "printed matrices" } else { "matrices with values too long to be separated" });
                guarded(|| printed_columns(&removed, &left))??;
            }
        }
        let mut how = String::new();
        PRINT.with(|p| p.set(true));
        let out = watched_solve(ctx, &g, &lp, &mut how, 60, Level::Light);
        PRINT.with(|p| p.set(false));
        out?;
        ctx.describe_more(&how);
        ctx.nontrivial(&format!("{name}{how}{:?}", watch::record().basis));
    }
    let s = seen(|s| s.clone());
    ctx.add("printed tableaus", s.tableaus);
    ctx.add("printed inverses", s.inverses);
    ctx.add("printed factors", s.factors);
    ctx.add("tables with values too long to be separated", s.unreadable);
    Ok(())
}

fn sorted(mut s: Sys) -> Sys {
    s.pivots.sort_unstable();
    s
}

fn main() {
    const ASSUME: &str = "The exact dense algebra and the certified reference solver of the harness are right.";
    run(&[
        Prop {
            id: "C07",
            rule: "random histories of basis changes on the factorized inverse, from the identity or from a factorized matrix of a random structure, with queries and new factorizations in between, compared with an exact dense inverse; distinct = history that ends in a different inverse",
            quick: 9000, thorough: 600000, hang: 60, wall: (40, 780),
            floors: &[("large", 60), ("basis changes", 5000), ("queries", 20000), ("factorized anew", 200), ("histories of more than 30 changes without factorizing", 50), ("with at most one row", 50)],
            assumptions: &[ASSUME],
            case: c07,
        },
        Prop {
            id: "C08",
            rule: "random histories of basis changes on the explicit inverse, next to the factorized one, with queries, and removals of redundant rows, compared with an exact dense inverse; distinct = history that ends in a different inverse",
            quick: 18000, thorough: 1500000, hang: 60, wall: (40, 780),
            floors: &[("large", 60), ("basis changes", 5000), ("queries", 20000), ("rows removed", 200)],
            assumptions: &[ASSUME],
            case: c08,
        },
        Prop {
            id: "C09",
            rule: "solves of systems and general problems with every pivot rule, both inverses, all kinds of start; at each basis change the values, relative costs, objective, columns and basis sets are compared with dense algebra over the original data; distinct = problem size, way of solving, path length and last basis",
            quick: 12000, thorough: 1000000, hang: 120, wall: (45, 780),
            floors: &[("large, ended optimal", 25), ("states compared", 3000), ("transitions", 500), ("rows removed", 50), ("artificial variables driven out", 50), ("basis changes in phase two", 1000), ("degenerate basis changes", 300), ("phases long enough to factorize anew", 1)],
            assumptions: &[ASSUME],
            case: c09,
        },
        Prop {
            id: "C10",
            rule: "solves in which every choice of an entering column is compared with the relative costs and norms computed by dense algebra over the original data; distinct = problem size, way of solving, path length and last basis",
            quick: 24000, thorough: 2000000, hang: 120, wall: (45, 780),
            floors: &[("large, ended optimal", 60), ("selections", 5000), ("profitable columns seen", 5000), ("optimality declarations", 1000), ("searches that wrapped around", 30), ("rule: first profitable", 200), ("rule: first profitable with memory", 200), ("rule: steepest along variable", 200), ("rule: steepest along objective", 200)],
            assumptions: &[ASSUME],
            case: c10,
        },
        Prop {
            id: "C11",
            rule: "solves from artificial and from arbitrary feasible bases, half of them on instances made to cycle, stall or take exponentially many steps; each step is checked for feasibility and progress, each end for its certificate, and repeated bases are reported for the rule that cannot cycle; distinct = problem, way of solving, path length and last basis",
            quick: 7000, thorough: 500000, hang: 120, wall: (45, 780),
            floors: &[("basis changes", 5000), ("degenerate basis changes", 1000), ("classical instances", 500), ("steps with a tie of three or more rows", 300), ("ended optimal", 500), ("ended unbounded", 50)],
            assumptions: &[ASSUME],
            case: c11,
        },
        Prop {
            id: "C12",
            rule: "phase one on systems with chosen rank deficiency, feasible and not, with and without suggested basis elements, with every rule; verdict, redundant rows, basis and removal of rows compared with dense algebra; distinct = size, rank, way of solving and last basis",
            quick: 40000, thorough: 4000000, hang: 120, wall: (45, 780),
            floors: &[("large", 40), ("feasible", 1000), ("infeasible", 200), ("rank deficient", 500), ("full rank", 500), ("artificial variables driven out", 100), ("row removals compared", 1000)],
            assumptions: &[ASSUME],
            case: c12,
        },
        Prop {
            id: "C23",
            rule: "what is printed of matrices, columns, vectors, inverses and of every tableau on the way of watched solves is read back and compared with the exact state; distinct = problem, way of solving and last basis, or basis of an inverse",
            quick: 16000, thorough: 1500000, hang: 120, wall: (45, 780),
            floors: &[("large", 8), ("printed tableaus", 1000), ("printed matrices", 500), ("printed inverses", 1000), ("printed factors", 500), ("vectors", 200), ("solutions compared", 1000)],
            assumptions: &[ASSUME],
            case: c23,
        },
    ])
}
