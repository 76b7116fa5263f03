//! Monitors of whole solves: verdicts, solutions, presolve, standard form, scaling, repeatability.
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{BoundDirection, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Scalable, Variable};
use relp_verif::big::Rat;
use relp_verif::drv::{guarded, main as run, Ctx, Prop, Res};
use relp_verif::iface::*;
use relp_verif::lp::{Lp, Rel, Row, Var};
use relp_verif::oracle::{self, Truth};
use relp_verif::rng::Rng;
use relp_verif::watch::{self, Level, Rec, Watch};
use relp_verif::{mk, mpsgen};
use std::collections::HashMap;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn opts(r: &mut Rng) -> Opts {
    Opts { presolve: r.chance(1, 2), scale: r.chance(1, 3), lu: r.chance(2, 3) }
}
fn all_opts() -> Vec<Opts> {
    (0..8).map(|k| Opts { presolve: k & 1 == 1, scale: k & 2 == 2, lu: k & 4 == 0 }).collect()
}
fn show_opts(o: &Opts) -> String {
    format!("presolve={} scale={} inverse={}", o.presolve, o.scale, if o.lu { "factorized" } else { "explicit" })
}
/// Values in the order of the variables of the problem.
fn complete(lp: &Lp, values: &[(String, Rat)]) -> Result<Vec<Rat>, String> {
    ensure!(values.len() == lp.vars.len(), "{} values for {} variables", values.len(), lp.vars.len());
    let mut map: HashMap<&str, &Rat> = HashMap::new();
    for (n, v) in values {
        ensure!(map.insert(n, v).is_none(), "two values for variable {n}");
    }
    lp.vars.iter().map(|v| map.get(v.name.as_str()).map(|x| (*x).clone()).ok_or(format!("no value for variable {}", v.name))).collect()
}
fn signature(lp: &Lp, truth: &str, o: &Opts) -> String {
    let mut rels = [0; 4];
    for r in &lp.rows {
        rels[match r.rel {
            Rel::Le => 0,
            Rel::Ge => 1,
            Rel::Eq => 2,
            Rel::Rng(_) => 3,
        }] += 1;
    }
    let mut bs = [0; 5];
    for v in &lp.vars {
        bs[match (&v.lb, &v.ub) {
            (None, None) => 0,
            (Some(_), None) => 1,
            (None, Some(_)) => 2,
            (Some(l), Some(u)) if l == u => 3,
            _ => 4,
        }] += 1;
    }
    format!("{rels:?}{bs:?}{}{truth}{o:?}", lp.max)
}
fn size_class(lp: &Lp) -> &'static str {
    match lp.rows.len().max(lp.vars.len()) {
        0 => "empty",
        1..=4 => "up to 4",
        5..=9 => "5 to 9",
        10..=19 => "10 to 19",
        _ => "20 and more",
    }
}

/// Import through the text of an MPS file; `None` if the problem has no MPS form.
fn via_mps(r: &mut Rng, lp: &Lp) -> Option<(Lp, GeneralForm<RB>, String)> {
    let lp = mpsgen::representable(lp)?;
    let text = {
        let d = mpsgen::doc(r, &lp);
        mpsgen::free_text(r, &d)
    };
    let parsed = relp::io::mps::parse(&text);
    let g: Result<GeneralForm<RB>, String> = match parsed {
        Ok(p) => p.try_into().map_err(|e| format!("{e}")),
        Err(e) => Err(format!("{e}")),
    };
    match g {
        Ok(g) => Some((lp, g, text)),
        Err(e) => panic!("a well-formed file is rejected: {e}\n{text}"),
    }
}

fn verdict(lp: &Lp, o: &Outcome, truth: &Truth, how: &str) -> Res {
    ensure!(o.kind() == truth.kind(), "reported {} but the problem is {} ({how})", o.kind(), truth.kind());
    if let (Outcome::Optimal { values, .. }, Truth::Optimal { obj, .. }) = (o, truth) {
        // A finite optimum reported for a problem with a finite optimum; its quality is C02.
        let _ = (lp, values, obj);
    }
    Ok(())
}

// C01 ------------------------------------------------------------------------------------------

fn c01(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 100) {
        let (lp, truth) = mk::large(&mut ctx.r);
        ctx.describe(lp.show());
        let o = opts(&mut ctx.r);
        let how = show_opts(&o);
        let got = guarded(|| solve(&lp, o)).map_err(|e| format!("{e} ({how})"))?;
        verdict(&lp, &got, &truth, &how)?;
        ctx.count(truth.kind());
        ctx.count("solves");
        ctx.count(&format!("large, {}", truth.kind()));
        ctx.nontrivial(&format!("{}{:?}", signature(&lp, truth.kind(), &o), ctx.idx));
        return Ok(());
    }
    let mut lp = mk::problem(&mut ctx.r);
    let bad_bounds = mk::contradictory(&lp);
    if bad_bounds && ctx.r.chance(1, 2) {
        mk::repair_bounds(&mut lp);
    }
    let bad_bounds = mk::contradictory(&lp);
    ctx.describe(lp.show());
    let truth = oracle::solve(&lp);
    ctx.count(truth.kind());
    ctx.count(&format!("size {}", size_class(&lp)));
    let configs = if lp.rows.len() <= 4 && ctx.idx % 3 == 0 { all_opts() } else { (0..2).map(|_| opts(&mut ctx.r)).collect() };
    for mut o in configs {
        if bad_bounds {
            o.presolve = true;
        }
        let how = show_opts(&o);
        let got = guarded(|| solve(&lp, o)).map_err(|e| format!("{e} ({how})"))?;
        verdict(&lp, &got, &truth, &how)?;
        ctx.count("solves");
        ctx.count(&format!("solved {how}"));
        ctx.nontrivial(&signature(&lp, truth.kind(), &o));
    }
    if !bad_bounds && ctx.r.chance(1, 3) {
        let mut r = ctx.r.clone();
        if let Some((lp, g, text)) = guarded(|| via_mps(&mut r, &lp))? {
            let o = opts(&mut ctx.r);
            let how = format!("{}, read from a file", show_opts(&o));
            ctx.describe_more(&text);
            let got = guarded(|| if o.lu { solve_general::<Lu>(g, o.presolve, o.scale) } else { solve_general::<Rows>(g, o.presolve, o.scale) }).map_err(|e| format!("{e} ({how})"))?;
            verdict(&lp, &got, &truth, &how)?;
            ctx.count("solves from file");
        }
    }
    if ctx.r.chance(1, 3) {
        let (pre, wide, lu) = (bad_bounds || ctx.r.chance(1, 2), ctx.r.chance(2, 3), ctx.r.chance(2, 3));
        let how = show_narrow(pre, wide, lu);
        if let Some((got, _)) = narrow(ctx, &lp, pre, wide, lu).map_err(|e| format!("{e} ({how})"))? {
            verdict(&lp, &got, &truth, &how)?;
            ctx.count(&format!("solved {how}"));
        }
    }
    if ctx.idx < 8 {
        ctx.sample(format!("{} -> {}", lp.show(), truth.kind()));
    }
    Ok(())
}

// C02 ------------------------------------------------------------------------------------------

/// Solve with numbers of fixed size in the problem; `None` if they are too small for it.
fn narrow(ctx: &mut Ctx, lp: &Lp, presolve: bool, wide: bool, lu: bool) -> Result<Option<(Outcome, bool)>, String> {
    match guarded(|| if wide { solve_64(lp, presolve, lu) } else { solve_32(lp, presolve, lu) }) {
        Ok(Some(o)) => Ok(Some(o)),
        Ok(None) => {
            ctx.count("numbers do not fit");
            Ok(None)
        }
        Err(e) if e.contains("relp-num") && e.contains("overflow") => {
            ctx.count("numbers overflow");
            Ok(None)
        }
        Err(e) => Err(e),
    }
}
fn show_narrow(presolve: bool, wide: bool, lu: bool) -> String {
    format!("presolve={presolve} inverse={} numbers of {} bits", if lu { "factorized" } else { "explicit" }, if wide { 64 } else { 32 })
}
/// Everything that is demanded of a returned optimum.
fn judge(ctx: &mut Ctx, lp: &Lp, truth: &Rat, got: Outcome, by_presolve: bool, how: &str) -> Result<(Vec<(String, Rat)>, bool), String> {
    let Outcome::Optimal { obj, values } = got else { return Err(format!("reported {} instead of an optimum ({how})", got.kind())) };
    let x = complete(lp, &values).map_err(|e| format!("{e} ({how})"))?;
    if let Some(e) = lp.infeasibility(&x) {
        return Err(format!("the returned point is infeasible: {e} ({how})"));
    }
    let at = lp.objective(&x);
    ensure!(&at == truth, "the returned point has objective {at} but {truth} is attainable ({how})");
    if &obj != truth {
        let text = format!("reported objective {obj} for a point with objective {truth} ({how})");
        if lp.max && !by_presolve && obj == truth.neg() {
            ctx.known("max-objective-negated", text)?;
        } else {
            return Err(text);
        }
    }
    Ok((values, by_presolve))
}

fn c02(ctx: &mut Ctx) -> Res {
    let mut lp = match ctx.r.below(3) {
        0 => {
            let s = if ctx.r.chance(1, 6) { mk::shape_mid(&mut ctx.r) } else { mk::shape_small(&mut ctx.r) };
            mk::optimal(&mut ctx.r, s)
        }
        _ => mk::problem(&mut ctx.r),
    };
    mk::repair_bounds(&mut lp);
    let large = ctx.r.chance(1, 120);
    let known = if large {
        let t;
        (lp, t) = mk::large(&mut ctx.r);
        ctx.count("large");
        t
    } else {
        oracle::solve(&lp)
    };
    ctx.describe(lp.show());
    let Truth::Optimal { obj: truth, .. } = known else {
        ctx.count("no finite optimum");
        return Ok(());
    };
    let configs = if lp.rows.len() <= 3 { all_opts() } else { (0..if large { 1 } else { 2 }).map(|_| opts(&mut ctx.r)).collect() };
    for o in configs {
        let how = show_opts(&o);
        let (got, by_presolve) = guarded(|| {
            let mut g = general(&lp);
            if o.presolve {
                if let Some(out) = presolve(&mut g) {
                    return (out, true);
                }
            }
            (if o.lu { finish::<Lu>(g, o.scale) } else { finish::<Rows>(g, o.scale) }, false)
        })
        .map_err(|e| format!("{e} ({how})"))?;
        let (values, by_presolve) = judge(ctx, &lp, &truth, got, by_presolve, &how)?;
        ctx.count("optima");
        ctx.count(if by_presolve { "solved by presolve" } else { "solved by the simplex method" });
        if o.presolve && !by_presolve {
            ctx.count("solved after presolve");
        }
        if !lp.fixed.is_zero() {
            ctx.count("with fixed cost");
        }
        if lp.max {
            ctx.count("maximizations");
        }
        if values.iter().any(|v| v.1.bits() > 64) {
            ctx.count("values beyond 64 bits");
        }
        ctx.nontrivial(&signature(&lp, "", &o));
    }
    if ctx.r.chance(1, 3) {
        let (pre, wide, lu) = (ctx.r.chance(1, 2), ctx.r.chance(2, 3), ctx.r.chance(2, 3));
        let how = show_narrow(pre, wide, lu);
        if let Some((got, by_presolve)) = narrow(ctx, &lp, pre, wide, lu).map_err(|e| format!("{e} ({how})"))? {
            judge(ctx, &lp, &truth, got, by_presolve, &how)?;
            ctx.count(&format!("optima {how}"));
        }
    }
    Ok(())
}

// C03 ------------------------------------------------------------------------------------------

fn costs(g: &Lp, x: &[Rat]) -> Rat {
    g.objective(x)
}
/// Random directions to find different vertices of a system.
fn vertices(r: &mut Rng, sys: &Lp, n: usize) -> Vec<Vec<Rat>> {
    let mut out: Vec<Vec<Rat>> = vec![];
    for _ in 0..n {
        let mut s = sys.clone();
        for v in &mut s.vars {
            v.cost = if r.chance(1, 3) { Rat::zero() } else { Rat::int(r.range(-4, 4)) };
        }
        let x = match oracle::solve(&s) {
            Truth::Optimal { x, .. } => x,
            Truth::Unbounded { point, ray } => {
                let k = Rat::new(r.range(0, 5), r.range(1, 3));
                point.iter().zip(&ray).map(|(p, d)| p.add(&d.mul(&k))).collect()
            }
            Truth::Infeasible { .. } => return vec![],
        };
        if !out.contains(&x) {
            out.push(x);
        }
    }
    if out.len() > 1 {
        // something inside
        let k = Rat::new(1, out.len() as i64);
        let mut mid = vec![Rat::zero(); sys.vars.len()];
        for x in &out {
            for (m, v) in mid.iter_mut().zip(x) {
                *m = m.add(&v.mul(&k));
            }
        }
        out.push(mid);
    }
    out
}
/// Complete feasible points of the derived system and check them against the problem as stated.
/// Returns the constant between the two objectives.
fn complete_points(ctx: &mut Ctx, lp: &Lp, g: &GeneralForm<RB>, data_columns: usize, sys: &Lp, points: &[Vec<Rat>], keep: &dyn Fn(&[Rat]) -> Result<Vec<Rat>, String>) -> Result<Option<Rat>, String> {
    let mut constant: Option<Rat> = None;
    for p in points {
        ensure!(p.len() == data_columns, "harness: point of the wrong length");
        let reduced = keep(p)?;
        let sol = guarded(|| outcome_of(g.clone().compute_full_solution_with_reduced_solution(sparse(&reduced)))).map_err(|e| format!("completing {:?}: {e}", relp_verif::dense::show(&reduced)))?;
        let Outcome::Optimal { values, .. } = sol else { unreachable!() };
        let x = complete(lp, &values)?;
        if let Some(e) = lp.infeasibility(&x) {
            return Err(format!("the feasible point {} of the transformed problem becomes {} which is infeasible: {e}", relp_verif::dense::show(&reduced), relp_verif::dense::show(&x)));
        }
        let value = lp.objective(&x);
        let value = if lp.max { value.neg() } else { value };
        let diff = value.sub(&costs(sys, p));
        if let Some(c) = &constant {
            ensure!(*c == diff, "the objectives of the point {} and of its completion differ by {diff}, for another point by {c}", relp_verif::dense::show(p));
        }
        constant = Some(diff);
        ctx.count("points completed");
    }
    Ok(constant)
}
/// Number of original (not slack) variables of the matrix and the restriction to them.
fn restriction(data: &MatrixData<RB>, p: &[Rat]) -> Result<Vec<Rat>, String> {
    let v = guarded(|| data.reconstruct_solution(sparse(p)))?;
    let n = Vector::len(&v);
    let mut out = vec![Rat::zero(); n];
    for (i, x) in v.iter() {
        out[i] = from(x);
    }
    ensure!(out[..] == p[..n], "restricting {} to the first {n} variables gives {}", relp_verif::dense::show(p), relp_verif::dense::show(&out));
    Ok(out)
}
fn transformed(ctx: &mut Ctx, lp: &Lp, truth: &Truth, mut g: GeneralForm<RB>, how: &str) -> Res {
    let counts = guarded(|| g.standardize()).map_err(|e| format!("{how}: {e}"))?;
    let data = g.derive_matrix_data(counts);
    let sys = guarded(|| system(&data)).map_err(|e| format!("{how}: {e}"))?;
    for r in &sys.rows {
        ensure!(r.rhs.sign() >= 0, "{how}: right-hand side {} is negative in standard form", r.rhs);
    }
    let reduced = oracle::solve(&sys);
    ensure!(reduced.kind() == truth.kind(), "{how}: the problem is {} but the standard form is {}", truth.kind(), reduced.kind());
    ctx.count(&format!("{how} {}", truth.kind()));
    let n = if ctx.thorough { 6 } else { 3 };
    let mut points = vertices(&mut ctx.r, &sys, n);
    let truth_value = match (truth, &reduced) {
        (Truth::Optimal { obj, .. }, Truth::Optimal { x, obj: o, .. }) => {
            points.push(x.clone());
            Some((if lp.max { obj.neg() } else { obj.clone() }, o.clone()))
        }
        (Truth::Unbounded { .. }, Truth::Unbounded { point, ray }) => {
            points.push(point.clone());
            for k in [1, 7] {
                points.push(point.iter().zip(ray).map(|(p, d)| p.add(&d.mul(&Rat::int(k)))).collect());
            }
            None
        }
        _ => None,
    };
    let g2 = g.clone();
    let constant = complete_points(ctx, lp, &g2, sys.vars.len(), &sys, &points, &|p| restriction(&data, p))?;
    if let (Some((a, b)), Some(c)) = (truth_value, constant) {
        ensure!(a == b.add(&c), "{how}: optimum {a} became {b} where objectives differ by {c}");
    }
    Ok(())
}
/// For systems too large for the reference solver: points come from the library, and are first substituted in the
/// system itself.
fn transformed_large(ctx: &mut Ctx, lp: &Lp, truth: &Truth, mut g: GeneralForm<RB>, how: &str) -> Res {
    let counts = guarded(|| g.standardize()).map_err(|e| format!("{how}: {e}"))?;
    let data = g.derive_matrix_data(counts);
    let sys = guarded(|| system(&data)).map_err(|e| format!("{how}: {e}"))?;
    for r in &sys.rows {
        ensure!(r.rhs.sign() >= 0, "{how}: right-hand side {} is negative in standard form", r.rhs);
    }
    let kind;
    let mut points = vec![];
    match guarded(|| data.solve_relaxation::<Lu>()).map_err(|e| format!("{how}: {e}"))? {
        OptimizationResult::Infeasible => kind = "infeasible",
        OptimizationResult::Unbounded => kind = "unbounded",
        OptimizationResult::FiniteOptimum(v) => {
            kind = "optimal";
            let mut x = vec![Rat::zero(); sys.vars.len()];
            for (i, v) in v.iter() {
                x[i] = from(v);
            }
            let bad = sys.infeasibility(&x);
            ensure!(bad.is_none(), "{how}: the solver's point of the system is infeasible in it: {bad:?}");
            points.push(x);
        }
    }
    ensure!(kind == truth.kind(), "{how}: the problem is {} but the standard form is {kind}", truth.kind());
    ctx.count(&format!("large, {how} {kind}"));
    let g2 = g.clone();
    let constant = complete_points(ctx, lp, &g2, sys.vars.len(), &sys, &points, &|p| restriction(&data, p))?;
    if let (Truth::Optimal { obj, .. }, Some(c), Some(p)) = (truth, constant, points.first()) {
        let (a, b) = (if lp.max { obj.neg() } else { obj.clone() }, costs(&sys, p));
        ensure!(a == b.add(&c), "{how}: optimum {a} became {b} where objectives differ by {c}");
    }
    Ok(())
}
fn c03(ctx: &mut Ctx) -> Res {
    let large = ctx.r.chance(1, 500);
    let (lp, truth) = if large {
        mk::large(&mut ctx.r)
    } else {
        let lp = match ctx.r.below(4) {
            0 => mk::structured(&mut ctx.r, false),
            _ => mk::problem(&mut ctx.r),
        };
        let truth = oracle::solve(&lp);
        (lp, truth)
    };
    ctx.describe(lp.show());
    let times = if ctx.r.chance(1, 3) { 2 } else { 1 };
    let mut g = general(&lp);
    for k in 0..times {
        let out = guarded(|| presolve(&mut g)).map_err(|e| format!("presolve (run {}): {e}", k + 1))?;
        if let Some(out) = out {
            ensure!(out.kind() == truth.kind(), "presolve (run {}) declared {} but the problem is {}", k + 1, out.kind(), truth.kind());
            if let (Outcome::Optimal { obj, values }, Truth::Optimal { obj: t, .. }) = (&out, &truth) {
                let x = complete(&lp, values)?;
                if let Some(e) = lp.infeasibility(&x) {
                    return Err(format!("presolve gives a solution that is infeasible: {e}"));
                }
                ensure!(lp.objective(&x) == *t, "presolve gives a solution with objective {} instead of {t}", lp.objective(&x));
                ensure!(obj == t, "presolve reports objective {obj} instead of {t}");
            }
            ctx.count(&format!("declared {} by presolve", truth.kind()));
            ctx.nontrivial(&signature(&lp, &format!("presolve {}", truth.kind()), &DEFAULT));
            return Ok(());
        }
    }
    if times > 1 {
        ctx.count("presolved twice");
    }
    let (m, n) = (guarded(|| g.nr_constraints())?, guarded(|| g.nr_variables())?);
    if m < lp.rows.len() {
        ctx.count("constraints removed");
    }
    if n < lp.vars.len() {
        ctx.count("variables removed");
    }
    if m == lp.rows.len() && n == lp.vars.len() {
        ctx.count("nothing removed");
    }
    ensure!(m <= lp.rows.len() && n <= lp.vars.len(), "presolve added rows or variables");
    ctx.nontrivial(&signature(&lp, &format!("{m} {n} {}", truth.kind()), &DEFAULT));
    if large {
        return transformed_large(ctx, &lp, &truth, g, "presolved");
    }
    transformed(ctx, &lp, &truth, g, "presolved")
}

// C04 ------------------------------------------------------------------------------------------

fn c04(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 200) {
        let (lp, truth) = mk::large(&mut ctx.r);
        ctx.describe(lp.show());
        return transformed_large(ctx, &lp, &truth, general(&lp), "standardized");
    }
    let mut lp = mk::problem(&mut ctx.r);
    mk::repair_bounds(&mut lp);
    ctx.describe(lp.show());
    let truth = oracle::solve(&lp);
    ctx.nontrivial(&signature(&lp, truth.kind(), &DEFAULT));
    transformed(ctx, &lp, &truth, general(&lp), "standardized")?;
    // The whole set of feasible points, through its extent in arbitrary directions.
    for _ in 0..if ctx.thorough { 4 } else { 2 } {
        let mut d = lp.clone();
        d.max = ctx.r.chance(1, 2);
        d.fixed = Rat::int(ctx.r.range(-3, 3));
        for v in &mut d.vars {
            v.cost = if ctx.r.chance(1, 2) { Rat::zero() } else { Rat::int(ctx.r.range(-5, 5)) };
        }
        let t = oracle::solve(&d);
        ctx.describe_more(&format!("direction {}", d.show()));
        transformed(ctx, &d, &t, general(&d), "standardized direction")?;
    }
    // What presolve leaves is standardized as well: then only some of the variables are active.
    let mut g = general(&lp);
    let left = guarded(|| presolve(&mut g)).map_err(|e| format!("presolve: {e}"))?;
    if left.is_none() {
        if guarded(|| g.nr_variables())? < lp.vars.len() {
            ctx.count("standardized after variables were removed");
        }
        transformed(ctx, &lp, &truth, g, "standardized after presolve")?;
    }
    Ok(())
}

// C05 ------------------------------------------------------------------------------------------

struct Groups {
    lp: Lp,
    counts: [usize; 4],
}
/// Constraint groups in the order the matrix wants them: equalities, ranges, upper, lower.
fn groups(r: &mut Rng) -> Groups {
    let n = r.range(0, 5) as usize;
    let mut counts = [0; 4];
    let mut rows = vec![];
    let frac = r.chance(1, 3);
    for (k, c) in counts.iter_mut().enumerate() {
        *c = if r.chance(1, 3) { 0 } else { r.range(0, 3) as usize };
        for _ in 0..*c {
            let rel = match k {
                0 => Rel::Eq,
                1 => Rel::Rng(mk::positive(r, frac)),
                2 => Rel::Le,
                _ => Rel::Ge,
            };
            let mut coef = vec![];
            for j in 0..n {
                if r.chance(1, 2) {
                    coef.push((j, mk::nonzero(r, frac)));
                }
            }
            let rhs = if r.chance(1, 3) { Rat::zero() } else { mk::positive(r, frac) };
            rows.push(Row { name: format!("R{}", rows.len()), rel, rhs, coef });
        }
    }
    let bias = r.below(3);
    let vars = (0..n)
        .map(|j| Var {
            name: format!("X{j}"),
            cost: mk::number(r, frac),
            lb: Some(Rat::zero()),
            ub: if match bias {
                0 => false,
                1 => true,
                _ => r.chance(1, 2),
            } {
                Some(if r.chance(1, 6) { Rat::zero() } else { mk::positive(r, frac) })
            } else {
                None
            },
        })
        .collect();
    Groups { lp: Lp { max: false, fixed: Rat::zero(), rows, vars }, counts }
}
/// Groups of up to a hundred constraints with few entries each, around a feasible point.
fn large_groups(r: &mut Rng) -> (Groups, Vec<Rat>) {
    let most = *r.pick(&[90, 330]);
    let n = r.range(2, most) as usize;
    let x: Vec<Rat> = (0..n).map(|_| if r.chance(1, 3) { Rat::zero() } else { Rat::int(r.range(0, 7)) }).collect();
    let mut counts = [0; 4];
    let mut rows: Vec<Row> = vec![];
    for (k, c) in counts.iter_mut().enumerate() {
        *c = match r.below(5) {
            0 => 0,
            1 => r.range(1, 4),
            2 => r.range(60, 100),
            _ => r.range(5, 40),
        } as usize;
        for _ in 0..*c {
            let dense = r.chance(1, 40);
            let mut at: Vec<usize> = if dense { (0..n).filter(|_| r.chance(1, 2)).collect() } else { (0..r.below(5)).map(|_| r.below(n)).collect() };
            at.sort_unstable();
            at.dedup();
            let mut coef: Vec<(usize, Rat)> = at.into_iter().map(|j| (j, Rat::int(*r.pick(&[1, 1, -1, 2, -3, 5])))).collect();
            let mut a = coef.iter().fold(Rat::zero(), |s, (j, c)| s.add(&c.mul(&x[*j])));
            if a.sign() < 0 {
                coef.iter_mut().for_each(|c| c.1 = c.1.neg());
                a = a.neg();
            }
            let slack = Rat::int(if r.chance(1, 2) { 0 } else { r.range(1, 6) });
            let (rel, rhs) = match k {
                0 => (Rel::Eq, a),
                1 => (Rel::Rng(slack.add(&Rat::int(r.range(1, 4)))), a.add(&slack)),
                2 => (Rel::Le, a.add(&slack)),
                _ => (Rel::Ge, if a.sub(&slack).sign() < 0 { Rat::zero() } else { a.sub(&slack) }),
            };
            rows.push(Row { name: format!("R{}", rows.len()), rel, rhs, coef });
        }
    }
    let often = *r.pick(&[0, 1, 4, 6]);
    let vars = (0..n)
        .map(|j| Var {
            name: format!("X{j}"),
            cost: if r.chance(1, 2) { Rat::zero() } else { Rat::int(r.range(-9, 9)) },
            lb: Some(Rat::zero()),
            ub: if r.chance(often, 6) { Some(x[j].add(&Rat::int(r.range(0, 2)))) } else { None },
        })
        .collect();
    (Groups { lp: Lp { max: false, fixed: Rat::zero(), rows, vars }, counts }, x)
}
/// Whether the equality system allows these values of the first variables. Every other column takes the value the
/// rows leave it.
fn allows(sys: &Lp, x: &[Rat]) -> Result<bool, String> {
    let mut value: Vec<Option<Rat>> = x.iter().cloned().map(Some).collect();
    value.resize(sys.vars.len(), None);
    if x.iter().any(|v| v.sign() < 0) {
        return Ok(false);
    }
    let mut open: Vec<usize> = (0..sys.rows.len()).collect();
    loop {
        let before = open.len();
        let mut bad = false;
        open.retain(|&i| {
            let row = &sys.rows[i];
            let unknown: Vec<&(usize, Rat)> = row.coef.iter().filter(|c| value[c.0].is_none()).collect();
            if unknown.len() > 1 {
                return true;
            }
            let rest = row.coef.iter().filter_map(|c| value[c.0].as_ref().map(|v| v.mul(&c.1))).fold(row.rhs.clone(), |s, v| s.sub(&v));
            if let Some((j, a)) = unknown.first().copied().cloned() {
                let v = rest.div(&a);
                bad |= v.sign() < 0;
                value[j] = Some(v);
            } else {
                bad |= !rest.is_zero();
            }
            false
        });
        if bad {
            return Ok(false);
        }
        if open.is_empty() {
            return Ok(true);
        }
        ensure!(open.len() < before, "the rows leave the slack columns undetermined for fixed variables");
    }
}
fn c05(ctx: &mut Ctx) -> Res {
    let large = ctx.r.chance(1, 400);
    let (Groups { lp, counts }, point) = if large {
        ctx.count("large");
        let (g, x) = large_groups(&mut ctx.r);
        (g, Some(x))
    } else {
        (groups(&mut ctx.r), None)
    };
    let [ne, nr, nu, nl] = counts;
    ctx.describe(format!("{counts:?}\n{}", lp.show()));
    let n = lp.vars.len();
    let m = lp.rows.len();
    let mut cols: Vec<Vec<(usize, RB)>> = vec![vec![]; n];
    for (i, r) in lp.rows.iter().enumerate() {
        for (j, a) in &r.coef {
            cols[*j].push((i, to_rb(a)));
        }
    }
    let constraints = ColumnMajor::new(cols, m, n);
    let b = DenseVector::new(lp.rows.iter().map(|r| to_rb(&r.rhs)).collect(), m);
    let ranges: Vec<RB> = lp.rows.iter().filter_map(|r| if let Rel::Rng(w) = &r.rel { Some(to_rb(w)) } else { None }).collect();
    let ranges: Vec<&RB> = ranges.iter().collect();
    let variables: Vec<Variable<RB>> = lp
        .vars
        .iter()
        .map(|v| Variable { variable_type: VariableType::Continuous, cost: to_rb(&v.cost), lower_bound: Some(to_rb(&Rat::zero())), upper_bound: v.ub.as_ref().map(to_rb), shift: to_rb(&Rat::zero()), flipped: false })
        .collect();
    let data = guarded(|| MatrixData::new(&constraints, &b, ranges, ne, nr, nu, nl, &variables))?;
    let sys = guarded(|| system(&data))?;
    let nb = lp.vars.iter().filter(|v| v.ub.is_some()).count();
    ensure!(data.nr_rows() == m + nb + nr, "{} rows for {m} constraints, {nb} bounds, {nr} ranges", data.nr_rows());
    ensure!(data.nr_constraints() == m, "{} constraints reported for {m}", data.nr_constraints());
    ensure!(data.nr_variable_bounds() == nb + nr, "{} bound rows reported for {nb} bounds and {nr} ranges", data.nr_variable_bounds());
    ensure!(data.nr_columns() == n + 2 * nr + nu + nl + nb, "{} columns", data.nr_columns());
    for j in 0..n {
        ensure!(sys.vars[j].cost == lp.vars[j].cost, "cost {} of variable {j} is presented as {}", lp.vars[j].cost, sys.vars[j].cost);
    }
    for j in n..sys.vars.len() {
        ensure!(sys.vars[j].cost.is_zero(), "slack column {j} has cost {}", sys.vars[j].cost);
    }
    // Bound rows: x_j + slack = upper bound.
    for (j, v) in lp.vars.iter().enumerate() {
        let low = guarded(|| data.bound_row_index(j, BoundDirection::Lower))?;
        ensure!(low.is_none(), "a row for the lower bound of variable {j}");
        let up = guarded(|| data.bound_row_index(j, BoundDirection::Upper))?;
        ensure!(up.is_some() == v.ub.is_some(), "bound row {up:?} of variable {j} with upper bound {:?}", v.ub.as_ref().map(|u| u.to_string()));
        if let Some(i) = up {
            let row = &sys.rows[i];
            ensure!(Some(&row.rhs) == v.ub.as_ref(), "the bound row of variable {j} has right-hand side {}", row.rhs);
            ensure!(row.coef.len() == 2 && row.coef[0] == (j, Rat::one()) && row.coef[1].0 >= n && row.coef[1].1 == Rat::one(), "the bound row of variable {j} is {:?}", row.coef);
            ctx.count("bound rows");
        }
    }
    // So is the slack of a range, bounded by the width of the range; no other slack is.
    for j in n..sys.vars.len() {
        let rows: Vec<usize> = (0..sys.rows.len()).filter(|&i| sys.rows[i].coef.iter().any(|c| c.0 == j)).collect();
        let bounded = if rows.len() == 2 && rows[0] < m && rows[1] >= m { Some(rows[1]) } else { None };
        for d in [BoundDirection::Lower, BoundDirection::Upper] {
            let given = guarded(|| data.bound_row_index(j, d))?;
            let expected = if d == BoundDirection::Upper { bounded } else { None };
            ensure!(given == expected, "bound row of slack column {j} in rows {rows:?} is said to be {given:?}");
        }
        if let Some((i, Rel::Rng(width))) = bounded.map(|i| (i, &lp.rows[rows[0]].rel)) {
            ensure!(&sys.rows[i].rhs == width, "the slack of range row {} with width {width} is bounded by {}", rows[0], sys.rows[i].rhs);
            ensure!(sys.rows[i].coef.len() == 2, "the bound row of slack {j} is {:?}", sys.rows[i].coef);
            ctx.count("bound rows of slacks");
        }
    }
    // Suggested initial basis.
    let pivots = guarded(|| data.pivot_element_indices())?;
    ensure!(pivots.len() == data.nr_initial_elements(), "{} initial elements announced, {} given", data.nr_initial_elements(), pivots.len());
    let mut used = std::collections::HashSet::new();
    let mut used_rows = std::collections::HashSet::new();
    for &(i, j) in &pivots {
        ensure!(i < sys.rows.len() && j < sys.vars.len(), "initial element ({i}, {j}) out of range");
        ensure!(used.insert(j), "column {j} suggested twice");
        ensure!(used_rows.insert(i), "row {i} suggested twice");
        let entries: Vec<(usize, &Rat)> = sys.rows.iter().enumerate().filter_map(|(k, r)| r.coef.iter().find(|c| c.0 == j).map(|c| (k, &c.1))).collect();
        ensure!(entries.len() == 1 && entries[0].0 == i && *entries[0].1 == Rat::one(), "suggested column {j} is {entries:?}, not unit vector {i}");
        ctx.count("initial elements");
    }
    let mut r = ctx.r.clone();
    if let Some(point) = point {
        for k in 0..12 {
            let mut x = point.clone();
            for _ in 0..if k == 0 { 0 } else { r.below(3) } {
                x[r.below(n)] = Rat::new(r.range(-1, 16), 2);
            }
            let accepted = allows(&sys, &x)?;
            let truth = lp.infeasibility(&x);
            ensure!(accepted == truth.is_none(), "the matrix {} the point {} ({:?})", if accepted { "accepts" } else { "rejects" }, relp_verif::dense::show(&x), truth);
            ctx.count(if accepted { "large, points accepted" } else { "large, points rejected" });
            if accepted {
                // The values of the slack columns are not read.
                let mut all = x.clone();
                all.resize(sys.vars.len(), Rat::zero());
                let v = restriction(&data, &all)?;
                ensure!(v == x, "a solution is restricted to {}", relp_verif::dense::show(&v));
            }
        }
        ctx.nontrivial(&format!("{counts:?}{n}{nb}"));
        return Ok(());
    }
    // Equality of the two sets through their extent in many directions, including points of each.
    let mut kinds = String::new();
    for k in 0..if ctx.thorough { 6 } else { 3 } {
        let mut a = lp.clone();
        let mut s = sys.clone();
        for j in 0..n {
            let c = if r.chance(1, 3) { Rat::zero() } else { Rat::int(r.range(-5, 5)) };
            if k > 0 {
                a.vars[j].cost = c.clone();
                s.vars[j].cost = c;
            }
        }
        let (ta, ts) = (oracle::solve(&a), oracle::solve(&s));
        ensure!(ta.kind() == ts.kind(), "the constraints are {} but the matrix is {}", ta.kind(), ts.kind());
        kinds.push_str(ta.kind());
        ctx.count(ta.kind());
        if let (Truth::Optimal { obj: oa, .. }, Truth::Optimal { obj: os, x, .. }) = (&ta, &ts) {
            ensure!(oa == os, "the optimum over the constraints is {oa} but over the matrix {os}");
            let v = restriction(&data, x)?;
            ensure!(v.len() == n, "a solution is restricted to {} of {n} variables", v.len());
            if let Some(e) = lp.infeasibility(&v) {
                return Err(format!("the matrix allows {} but {e}", relp_verif::dense::show(&v)));
            }
            ctx.count("points compared");
        }
    }
    // Points near the constraints: the matrix accepts exactly the feasible ones.
    for _ in 0..3 {
        let x: Vec<Rat> = (0..n).map(|_| Rat::new(r.range(-1, 8), *r.pick(&[1, 1, 2]))).collect();
        let mut s = sys.clone();
        for j in 0..n {
            s.vars[j].lb = Some(x[j].clone());
            s.vars[j].ub = Some(x[j].clone());
        }
        let negative = x.iter().any(|v| v.sign() < 0);
        let accepted = !negative && !matches!(oracle::solve(&s), Truth::Infeasible { .. });
        let truth = lp.infeasibility(&x);
        ensure!(accepted == truth.is_none(), "the matrix {} the point {} ({:?})", if accepted { "accepts" } else { "rejects" }, relp_verif::dense::show(&x), truth);
        ctx.count(if accepted { "points accepted" } else { "points rejected" });
    }
    ctx.nontrivial(&format!("{counts:?}{n}{nb}{kinds}"));
    Ok(())
}

// C06 ------------------------------------------------------------------------------------------

fn c06(ctx: &mut Ctx) -> Res {
    if ctx.r.chance(1, 200) {
        return scaled_large(ctx);
    }
    let mut lp = if ctx.r.chance(1, 4) { primes(&mut ctx.r) } else { mk::problem(&mut ctx.r) };
    mk::repair_bounds(&mut lp);
    ctx.describe(lp.show());
    let mut g = general(&lp);
    let pre = ctx.r.chance(1, 3);
    if pre {
        if guarded(|| presolve(&mut g))?.is_some() {
            ctx.count("solved by presolve");
            return Ok(());
        }
    }
    let counts = guarded(|| g.standardize())?;
    let before = g.clone();
    let plain = guarded(|| system(&g.derive_matrix_data(counts)))?;
    let scaling = guarded(|| g.scale()).map_err(|e| format!("scaling: {e}"))?;
    let data = guarded(|| g.derive_matrix_data(counts)).map_err(|e| format!("scaled: {e}"))?;
    let scaled = guarded(|| system(&data)).map_err(|e| format!("scaled: {e}"))?;
    ensure!(plain.rows.len() == scaled.rows.len() && plain.vars.len() == scaled.vars.len(), "scaling changes the size");
    let (tp, ts) = (oracle::solve(&plain), oracle::solve(&scaled));
    ensure!(tp.kind() == ts.kind(), "the problem is {} but scaled it is {}", tp.kind(), ts.kind());
    ctx.count(tp.kind());
    let changed = plain.rows.iter().zip(&scaled.rows).any(|(a, b)| a.coef != b.coef || a.rhs != b.rhs) || plain.vars.iter().zip(&scaled.vars).any(|(a, b)| a.cost != b.cost);
    ctx.count(if changed { "changed by scaling" } else { "unchanged by scaling" });
    // The same unknowns in other units: the pattern and signs of all coefficients stay.
    for (a, b) in plain.rows.iter().zip(&scaled.rows) {
        ensure!(a.coef.len() == b.coef.len() && a.coef.iter().zip(&b.coef).all(|(x, y)| x.0 == y.0 && x.1.sign() == y.1.sign()), "row {} changed from {:?} to {:?}", a.name, a.coef, b.coef);
        ensure!(a.rhs.sign() == b.rhs.sign(), "right-hand side of row {} changed from {} to {}", a.name, a.rhs, b.rhs);
    }
    let mut points = vertices(&mut ctx.r, &scaled, 3);
    if let Truth::Optimal { x, .. } = &ts {
        points.push(x.clone());
    }
    let mut ratio: Option<Rat> = None;
    let n = plain.vars.len();
    for p in &points {
        let kept = restriction(&data, p)?;
        let k = kept.len();
        let mut v = sparse(&kept);
        guarded(|| scaling.scale_back(&mut v)).map_err(|e| format!("scaling a solution back: {e}"))?;
        let mut x = vec![Rat::zero(); k];
        for (i, y) in v.iter() {
            x[i] = from(y);
        }
        // feasible for the unscaled system with suitable slack values
        let mut s = plain.clone();
        for j in 0..k {
            s.vars[j].lb = Some(x[j].clone());
            s.vars[j].ub = Some(x[j].clone());
        }
        ensure!(x.iter().all(|v| v.sign() >= 0) && !matches!(oracle::solve(&s), Truth::Infeasible { .. }), "scaled solution {} becomes {} which is infeasible", relp_verif::dense::show(&kept), relp_verif::dense::show(&x));
        let (a, b) = ((0..k).fold(Rat::zero(), |t, j| t.add(&plain.vars[j].cost.mul(&x[j]))), scaled.objective(p));
        ensure!(a.sign() == b.sign(), "objective {b} of a scaled point belongs to objective {a}");
        if !b.is_zero() {
            let q = a.div(&b);
            if let Some(r) = &ratio {
                ensure!(*r == q, "objectives of scaled points are related by {r} and by {q}");
            }
            ratio = Some(q);
        }
        ctx.count("points scaled back");
    }
    if let (Truth::Optimal { obj: a, .. }, Truth::Optimal { obj: b, .. }) = (&tp, &ts) {
        if let Some(r) = &ratio {
            ensure!(*a == b.mul(r), "optimum {a} scales to {b} where objectives are related by {r}");
        } else {
            ensure!(a.is_zero() == b.is_zero(), "optimum {a} scales to {b}");
        }
    }
    let _ = n;
    drop(data);
    guarded(|| g.scale_back(scaling)).map_err(|e| format!("undoing the scaling: {e}"))?;
    ensure!(g == before, "undoing the scaling does not restore the problem:\n{:?}\n{:?}", g, before);
    ctx.count("restored exactly");
    ctx.nontrivial(&signature(&lp, &format!("{changed}{pre}"), &DEFAULT));
    Ok(())
}
/// The points of a large problem are solutions of the library, substituted in the scaled system and scaled back.
fn scaled_large(ctx: &mut Ctx) -> Res {
    let (lp, truth) = mk::large(&mut ctx.r);
    let lp = if ctx.r.chance(2, 3) { in_units(&mut ctx.r, lp) } else { lp };
    ctx.describe(lp.show());
    let mut g = general(&lp);
    let counts = guarded(|| g.standardize())?;
    let before = g.clone();
    let plain = guarded(|| system(&g.derive_matrix_data(counts)))?;
    let scaling = guarded(|| g.scale()).map_err(|e| format!("scaling: {e}"))?;
    let data = guarded(|| g.derive_matrix_data(counts)).map_err(|e| format!("scaled: {e}"))?;
    let scaled = guarded(|| system(&data)).map_err(|e| format!("scaled: {e}"))?;
    ensure!(plain.rows.len() == scaled.rows.len() && plain.vars.len() == scaled.vars.len(), "scaling changes the size");
    for (a, b) in plain.rows.iter().zip(&scaled.rows) {
        ensure!(a.coef.len() == b.coef.len() && a.coef.iter().zip(&b.coef).all(|(x, y)| x.0 == y.0 && x.1.sign() == y.1.sign()), "row {} changed from {:?} to {:?}", a.name, a.coef, b.coef);
        ensure!(a.rhs.sign() == b.rhs.sign(), "right-hand side of row {} changed from {} to {}", a.name, a.rhs, b.rhs);
    }
    let kind = match guarded(|| data.solve_relaxation::<Lu>()).map_err(|e| format!("scaled: {e}"))? {
        OptimizationResult::Infeasible => "infeasible",
        OptimizationResult::Unbounded => "unbounded",
        OptimizationResult::FiniteOptimum(v) => {
            let mut p = vec![Rat::zero(); scaled.vars.len()];
            for (i, v) in v.iter() {
                p[i] = from(v);
            }
            let bad = scaled.infeasibility(&p);
            ensure!(bad.is_none(), "the solver's point of the scaled system is infeasible in it: {bad:?}");
            let kept = restriction(&data, &p)?;
            let mut v = sparse(&kept);
            guarded(|| scaling.scale_back(&mut v)).map_err(|e| format!("scaling a solution back: {e}"))?;
            let mut x = vec![Rat::zero(); kept.len()];
            for (i, y) in v.iter() {
                x[i] = from(y);
            }
            ensure!(allows(&plain, &x)?, "scaled solution {} becomes {} which is infeasible", relp_verif::dense::show(&kept), relp_verif::dense::show(&x));
            let a = x.iter().zip(&plain.vars).fold(Rat::zero(), |t, (x, v)| t.add(&v.cost.mul(x)));
            ensure!(a.sign() == scaled.objective(&p).sign(), "objective {} of a scaled point belongs to objective {a}", scaled.objective(&p));
            ctx.count("points scaled back");
            "optimal"
        }
    };
    ensure!(kind == truth.kind(), "the problem is {} but scaled it is {kind}", truth.kind());
    ctx.count(&format!("large, {kind}"));
    drop(data);
    guarded(|| g.scale_back(scaling)).map_err(|e| format!("undoing the scaling: {e}"))?;
    ensure!(g == before, "undoing the scaling of a large problem does not restore it");
    ctx.count("restored exactly");
    Ok(())
}
/// Coefficients made of a few prime powers, so that there is something to scale.
fn primes(r: &mut Rng) -> Lp {
    let s = mk::shape_small(r);
    let lp = mk::any(r, s);
    in_units(r, lp)
}
/// The same problem with every row and variable in another unit.
fn in_units(r: &mut Rng, mut lp: Lp) -> Lp {
    let power = |r: &mut Rng| {
        let mut v = Rat::one();
        for p in [2, 3, 5, 7, 11] {
            if r.chance(1, 2) {
                for _ in 0..r.below(4) {
                    v = if r.chance(1, 2) { v.mul(&Rat::int(p)) } else { v.div(&Rat::int(p)) };
                }
            }
        }
        v
    };
    let rowf: Vec<Rat> = lp.rows.iter().map(|_| power(r)).collect();
    let colf: Vec<Rat> = lp.vars.iter().map(|_| power(r)).collect();
    for (row, f) in lp.rows.iter_mut().zip(&rowf) {
        for c in &mut row.coef {
            c.1 = c.1.mul(f).mul(&colf[c.0]);
        }
        row.rhs = row.rhs.mul(f);
        if let Rel::Rng(w) = &mut row.rel {
            *w = w.mul(f);
        }
    }
    for (v, f) in lp.vars.iter_mut().zip(&colf) {
        v.cost = v.cost.mul(f);
        v.lb = v.lb.as_ref().map(|b| b.div(f));
        v.ub = v.ub.as_ref().map(|b| b.div(f));
    }
    lp
}

// C13 ------------------------------------------------------------------------------------------

/// Rewrite the problem; `sign` is -1 when the objective is mirrored.
fn rewrite(r: &mut Rng, lp: &Lp, log: &mut Vec<&'static str>) -> (Lp, i32) {
    let mut p = lp.clone();
    let mut sign = 1;
    for _ in 0..r.range(1, 4) {
        match r.below(10) {
            0 => {
                p = mk::shuffled(r, &p).0;
                log.push("reorder");
            }
            1 => {
                let mut k: Vec<usize> = (0..p.vars.len()).collect();
                r.shuffle(&mut k);
                for (v, k) in p.vars.iter_mut().zip(k) {
                    v.name = format!("{}{k}", if r.chance(1, 2) { "zz" } else { "A_" });
                }
                log.push("rename");
            }
            2 => {
                for row in &mut p.rows {
                    if r.chance(1, 2) {
                        let f = loop {
                            let f = mk::nonzero(r, true);
                            if !f.is_zero() {
                                break f;
                            }
                        };
                        let (lo, hi) = (row.lo(), row.hi());
                        for c in &mut row.coef {
                            c.1 = c.1.mul(&f);
                        }
                        let (lo, hi) = if f.sign() > 0 { (lo, hi) } else { (hi, lo) };
                        let (lo, hi) = (lo.map(|v| v.mul(&f)), hi.map(|v| v.mul(&f)));
                        let (rel, rhs) = sides(lo, hi, &row.rel);
                        row.rel = rel;
                        row.rhs = rhs;
                    }
                }
                log.push("multiply rows");
            }
            3 => {
                let mut rows = vec![];
                for row in &p.rows {
                    if row.rel == Rel::Eq && r.chance(1, 2) {
                        let mut a = row.clone();
                        let mut b = row.clone();
                        if r.chance(1, 3) {
                            a.rel = Rel::Rng(Rat::zero());
                            rows.push(a);
                        } else {
                            a.rel = Rel::Le;
                            b.rel = Rel::Ge;
                            b.name = format!("{}b", row.name);
                            rows.push(a);
                            rows.push(b);
                        }
                    } else {
                        rows.push(row.clone());
                    }
                }
                p.rows = rows;
                log.push("split equalities");
            }
            4 => {
                // x = s - y
                for j in 0..p.vars.len() {
                    if r.chance(1, 3) {
                        let s = Rat::int(r.range(-4, 4));
                        substitute(&mut p, j, &Rat::int(-1), &s);
                    }
                }
                log.push("mirror variables");
            }
            5 => {
                for j in 0..p.vars.len() {
                    if r.chance(1, 3) {
                        let (f, s) = (mk::positive(r, true), mk::number(r, true));
                        substitute(&mut p, j, &f, &s);
                    }
                }
                log.push("shift and scale variables");
            }
            6 => {
                if !p.rows.is_empty() {
                    let k = r.below(p.rows.len());
                    let mut c = p.rows[k].clone();
                    c.name = format!("{}dup{}", c.name, p.rows.len());
                    let at = r.below(p.rows.len() + 1);
                    p.rows.insert(at, c);
                }
                log.push("duplicate a row");
            }
            7 => {
                // a nonnegative combination of upper sides, loosened
                let mut d = vec![Rat::zero(); p.vars.len()];
                let mut rhs = Rat::zero();
                for row in &p.rows {
                    if let (Some(hi), true) = (row.hi(), r.chance(1, 2)) {
                        let f = mk::positive(r, false);
                        rhs = rhs.add(&f.mul(&hi));
                        for (j, a) in &row.coef {
                            d[*j] = d[*j].add(&f.mul(a));
                        }
                    } else if let (Some(lo), true) = (row.lo(), r.chance(1, 2)) {
                        let f = mk::positive(r, false).neg();
                        rhs = rhs.add(&f.mul(&lo));
                        for (j, a) in &row.coef {
                            d[*j] = d[*j].add(&f.mul(a));
                        }
                    }
                }
                if r.chance(1, 2) {
                    rhs = rhs.add(&mk::positive(r, true));
                }
                let at = r.below(p.rows.len() + 1);
                let name = format!("implied{}", p.rows.len());
                p.rows.insert(at, Row { name, rel: Rel::Le, rhs, coef: d.into_iter().enumerate().filter(|c| !c.1.is_zero()).collect() });
                log.push("add an implied row");
            }
            8 => {
                p.max = !p.max;
                p.fixed = p.fixed.neg();
                for v in &mut p.vars {
                    v.cost = v.cost.neg();
                }
                sign = -sign;
                log.push("mirror the objective");
            }
            _ => {
                // bounds as rows
                for j in 0..p.vars.len() {
                    if r.chance(1, 4) {
                        if let Some(u) = p.vars[j].ub.take() {
                            let name = format!("ub{}", p.rows.len());
                            p.rows.push(Row { name, rel: Rel::Le, rhs: u, coef: vec![(j, Rat::one())] });
                        }
                    }
                }
                log.push("bounds as rows");
            }
        }
    }
    (p, sign)
}
fn sides(lo: Option<Rat>, hi: Option<Rat>, old: &Rel) -> (Rel, Rat) {
    match (lo, hi) {
        (Some(l), None) => (Rel::Ge, l),
        (None, Some(u)) => (Rel::Le, u),
        (Some(l), Some(u)) => {
            if *old == Rel::Eq {
                (Rel::Eq, u)
            } else {
                (Rel::Rng(u.sub(&l)), u)
            }
        }
        (None, None) => unreachable!(),
    }
}
/// `x_j = f y + s`
fn substitute(p: &mut Lp, j: usize, f: &Rat, s: &Rat) {
    for row in &mut p.rows {
        for c in &mut row.coef {
            if c.0 == j {
                row.rhs = row.rhs.sub(&c.1.mul(s));
                c.1 = c.1.mul(f);
            }
        }
    }
    let v = &mut p.vars[j];
    p.fixed = p.fixed.add(&v.cost.mul(s));
    v.cost = v.cost.mul(f);
    let g = |b: &Option<Rat>| b.as_ref().map(|b| b.sub(s).div(f));
    let (l, u) = (g(&v.lb), g(&v.ub));
    if f.sign() > 0 {
        v.lb = l;
        v.ub = u;
    } else {
        v.lb = u;
        v.ub = l;
    }
}
fn c13(ctx: &mut Ctx) -> Res {
    let mut lp = match ctx.r.below(4) {
        0 => {
            let s = if ctx.thorough { mk::Shape { rows: (12, 28), vars: (12, 32), density: 2, frac: false } } else { mk::shape_mid(&mut ctx.r) };
            if ctx.r.chance(1, 2) { mk::optimal(&mut ctx.r, s) } else { mk::feasible(&mut ctx.r, s) }
        }
        1 => mk::structured(&mut ctx.r, true),
        _ => mk::problem(&mut ctx.r),
    };
    if ctx.r.chance(1, 150) {
        lp = mk::large(&mut ctx.r).0;
        ctx.count("large");
    }
    mk::repair_bounds(&mut lp);
    let o = opts(&mut ctx.r);
    ctx.describe(format!("{}\n{}", show_opts(&o), lp.show()));
    let a = guarded(|| solve(&lp, o)).map_err(|e| format!("{e} ({})", show_opts(&o)))?;
    ctx.count(&format!("base {}", a.kind()));
    ctx.count(&format!("size {}", size_class(&lp)));
    for _ in 0..2 {
        let mut log = vec![];
        let (q, sign) = rewrite(&mut ctx.r, &lp, &mut log);
        let o2 = opts(&mut ctx.r);
        ctx.describe_more(&format!("rewritten: {log:?}, {}\n{}", show_opts(&o2), q.show()));
        let b = guarded(|| solve(&q, o2)).map_err(|e| format!("{e} (rewritten: {log:?}, {})", show_opts(&o2)))?;
        ensure!(a.kind() == b.kind(), "reported {} as stated ({}) and {} rewritten ({log:?}, {})", a.kind(), show_opts(&o), b.kind(), show_opts(&o2));
        if let (Outcome::Optimal { values: va, .. }, Outcome::Optimal { values: vb, .. }) = (&a, &b) {
            let (xa, xb) = (complete(&lp, va)?, complete(&q, vb)?);
            let (oa, ob) = (lp.objective(&xa), q.objective(&xb));
            let ob = if sign < 0 { ob.neg() } else { ob };
            ensure!(oa == ob, "objective {oa} as stated ({}) and {ob} rewritten ({log:?}, {})", show_opts(&o), show_opts(&o2));
            ctx.count("optima compared");
        }
        for l in &log {
            ctx.count(&format!("rewriting: {l}"));
        }
        log.sort();
        ctx.nontrivial(&format!("{}{log:?}", signature(&lp, a.kind(), &o)));
    }
    Ok(())
}

// C20 ------------------------------------------------------------------------------------------

fn repeat_problem(seed: u64) -> (Lp, Opts) {
    let mut r = Rng::new(seed);
    let mut lp = match r.below(3) {
        0 if r.chance(1, 60) => mk::large(&mut r).0,
        0 => mk::structured(&mut r, true),
        1 => {
            let s = mk::shape_mid(&mut r);
            mk::feasible(&mut r, s)
        }
        _ => mk::problem(&mut r),
    };
    mk::repair_bounds(&mut lp);
    let o = opts(&mut r);
    (lp, o)
}
fn c20(ctx: &mut Ctx) -> Res {
    if let Ok(s) = std::env::var("VERIF_REPEAT") {
        // The other process.
        let (lp, o) = repeat_problem(s.parse().unwrap());
        println!("ANSWER {:?}", guarded(|| solve(&lp, o)).map_err(|_| "panic"));
        std::process::exit(0);
    }
    let seed = ctx.r.next();
    let (lp, o) = repeat_problem(seed);
    ctx.describe(format!("{}\n{}", show_opts(&o), lp.show()));
    let first = guarded(|| solve(&lp, o))?;
    ctx.count(first.kind());
    for _ in 0..ctx.r.below(4) {
        let (other, oo) = repeat_problem(ctx.r.next());
        let _ = guarded(|| solve(&other, oo));
        ctx.count("solves in between");
    }
    let again = guarded(|| solve(&lp, o))?;
    ensure!(first == again, "solving again gives\n{again:?}\ninstead of\n{first:?}");
    // The same object built again from a clone of its general form.
    let g = general(&lp);
    let h = g.clone();
    ensure!(g == h, "a clone differs");
    let third = guarded(|| if o.lu { solve_general::<Lu>(h, o.presolve, o.scale) } else { solve_general::<Rows>(h, o.presolve, o.scale) })?;
    ensure!(first == third, "solving a clone gives\n{third:?}\ninstead of\n{first:?}");
    ctx.count("repeated in the process");
    if ctx.idx % 2 == 0 {
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["C20", "one", "0"])
            .env("VERIF_REPEAT", seed.to_string())
            .stderr(std::process::Stdio::null())
            .output()
            .unwrap_or_else(|e| panic!("harness: cannot start a process: {e}"));
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let line = text.lines().find(|l| l.starts_with("ANSWER ")).unwrap_or("").to_string();
        let expected = format!("ANSWER {:?}", Ok::<_, &str>(first.clone()));
        ensure!(line == expected, "another process answers\n{line}\ninstead of\n{expected}");
        ctx.count("repeated in another process");
    }
    if let Outcome::Optimal { values, .. } = &first {
        if values.iter().any(|v| !v.1.is_zero()) {
            ctx.count("nonzero solutions");
        }
    }
    ctx.nontrivial(&signature(&lp, first.kind(), &o));
    Ok(())
}

// C22 ------------------------------------------------------------------------------------------

fn choose(n: u64, k: u64) -> u64 {
    let mut v = 1u128;
    for i in 0..k.min(n) {
        v = v * (n - i) as u128 / (i + 1) as u128;
        if v > 1_000_000 {
            return 1_000_000;
        }
    }
    v as u64
}
fn c22(ctx: &mut Ctx) -> Res {
    let mut lp = match ctx.r.below(4) {
        0 | 1 => mk::weird(&mut ctx.r),
        2 => mk::structured(&mut ctx.r, false),
        _ => {
            let s = mk::Shape { rows: (0, 2), vars: (0, 3), density: 6, frac: ctx.r.chance(1, 2) };
            let mut lp = mk::small(&mut ctx.r, s);
            if ctx.r.chance(1, 3) {
                for v in &mut lp.vars {
                    v.ub = v.lb.clone();
                }
            }
            lp
        }
    };
    mk::repair_bounds(&mut lp);
    ctx.describe(lp.show());
    let shape = format!("{} rows {} variables", lp.rows.len(), lp.vars.len());
    ctx.count(if lp.rows.is_empty() { "without rows" } else { "with rows" });
    ctx.count(if lp.vars.is_empty() { "without variables" } else { "with variables" });
    if lp.rows.iter().any(|r| r.coef.is_empty()) {
        ctx.count("with an empty row");
    }
    let truth = oracle::solve(&lp);
    for o in all_opts() {
        let how = show_opts(&o);
        let mut rec = Rec::new(Level::Light);
        // Distinct bases of the standard form including artificial columns.
        let rows = (lp.rows.len() + lp.vars.len() + lp.rows.len()) as u64;
        let cols = (2 * lp.vars.len() + 3 * lp.rows.len() + lp.vars.len()) as u64 + rows;
        rec.limit = choose(cols, rows.min(cols)).max(4);
        watch::reset(rec);
        let got = guarded(|| {
            let g = general(&lp);
            if o.lu { solve_general::<Watch<Lu>>(g, o.presolve, o.scale) } else { solve_general::<Watch<Rows>>(g, o.presolve, o.scale) }
        })
        .map_err(|e| format!("{e} ({how})"))?;
        ensure!(got.kind() == truth.kind(), "reported {} but the problem is {} ({how})", got.kind(), truth.kind());
        let rec = watch::record();
        ctx.add("basis changes", rec.pivots[0] + rec.pivots[1]);
        ctx.count(if rec.phase == 0 { "answers without the simplex method" } else { "answers by the simplex method" });
        ctx.nontrivial(&format!("{}{}", signature(&lp, got.kind(), &o), rec.pivots[0] + rec.pivots[1]));
    }
    ctx.count(&format!("{shape}"));
    Ok(())
}

// C21 ------------------------------------------------------------------------------------------

struct Job {
    path: String,
    fixed: bool,
    opts: Opts,
}
/// Benchmarks and configurations that fit the time of the tier, longest first.
fn jobs(thorough: bool) -> Vec<Job> {
    let text = std::fs::read_to_string(data_dir().join("benchmarks.list")).unwrap_or_else(|e| panic!("harness: {e}"));
    text.lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| l.split_whitespace().collect::<Vec<_>>())
        .filter(|f| thorough || f[3].parse::<f64>().unwrap_or_else(|e| panic!("harness: {e}")) <= 8.3)
        .map(|f| Job {
            path: f[0].to_string(),
            fixed: f[1] == "fixed",
            opts: Opts { presolve: f[2].contains('p'), scale: f[2].contains('s'), lu: f[2].contains('l') },
        })
        .collect()
}
fn data_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())).join("data")
}
/// Dual prices of the rows kept with the harness. They are only believed because of the bound they
/// give for the file at hand.
fn kept_prices(path: &str, m: usize) -> Option<(Rat, Vec<Rat>)> {
    let stem = std::path::Path::new(path).file_stem()?.to_string_lossy().into_owned();
    let text = std::fs::read_to_string(data_dir().join(format!("{}-{stem}.txt", path.split('/').next()?))).ok()?;
    let number = |s: &str| Rat::parse(s).unwrap_or_else(|| panic!("harness: number {s}"));
    let mut lines = text.lines();
    let value = number(lines.next()?.strip_prefix("optimum ")?);
    let mut y = vec![Rat::zero(); m];
    for l in lines {
        let (i, v) = l.split_once(' ')?;
        *y.get_mut(i.parse::<usize>().ok()?)? = number(v);
    }
    Some((value, y))
}
fn c21(ctx: &mut Ctx) -> Res {
    let jobs = jobs(ctx.thorough);
    let Some(job) = jobs.get(ctx.idx as usize) else { return Ok(()) };
    let how = show_opts(&job.opts);
    ctx.describe(format!("{} ({how})", job.path));
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".to_string());
    let path = std::path::PathBuf::from(format!("{root}/tests/{}", job.path));
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("harness: {e}"));
    let (lp, _) = mpsgen::read(&text, job.fixed).ok().and_then(|d| mpsgen::meaning(&d)).unwrap_or_else(|| panic!("harness: cannot read {}", job.path));
    let small = lp.rows.len() * lp.vars.len() <= 500;
    let truth = if small { Some(oracle::solve(&lp)) } else { None };
    let got = guarded(|| {
        let g: Result<GeneralForm<RB>, String> = if job.fixed {
            relp::io::mps::parse_fixed::<relp_num::Rational64>(&text).map_err(|e| e.to_string()).and_then(|p| p.try_into().map_err(|e| format!("{e}")))
        } else {
            relp::io::import::<RB>(&path).map_err(|e| e.to_string()).and_then(|p| p.try_into().map_err(|e| format!("{e}")))
        };
        let o = job.opts;
        g.map(|g| if o.lu { solve_general::<Lu>(g, o.presolve, o.scale) } else { solve_general::<Rows>(g, o.presolve, o.scale) })
    })?
    .map_err(|e| format!("the file is rejected: {e}"))?;
    ctx.count("benchmark solves");
    ctx.add("rows of solved benchmarks", lp.rows.len() as u64);
    ctx.count(&format!("solved {how}"));
    ctx.nontrivial(&format!("{} {how}", job.path));
    let (value, y) = match &truth {
        Some(Truth::Optimal { obj, .. }) => (obj.clone(), None::<Vec<Rat>>),
        Some(t) => {
            ensure!(got.kind() == t.kind(), "reported {} but the problem is {}", got.kind(), t.kind());
            return Ok(());
        }
        None => {
            let (v, y) = kept_prices(&job.path, lp.rows.len()).unwrap_or_else(|| panic!("harness: no prices for {}", job.path));
            (v, Some(y))
        }
    };
    let Outcome::Optimal { values, obj } = got else {
        return Err(format!("reported {} but the optimum is {value}", got.kind()));
    };
    let mut x = vec![None; lp.vars.len()];
    let index: std::collections::HashMap<&str, usize> = lp.vars.iter().enumerate().map(|(j, v)| (v.name.as_str(), j)).collect();
    for (n, v) in &values {
        let j = *index.get(n.as_str()).ok_or(format!("a value for {n:?}, which is no column of the file"))?;
        ensure!(x[j].is_none(), "two values for {n:?}");
        x[j] = Some(v.clone());
    }
    let x: Vec<Rat> = x.into_iter().enumerate().map(|(j, v)| v.ok_or(format!("no value for {:?}", lp.vars[j].name))).collect::<Result<_, _>>()?;
    if let Some(e) = lp.infeasibility(&x) {
        return Err(format!("the solution is not feasible: {e}"));
    }
    let reached = lp.objective(&x);
    ensure!(reached == value, "the objective of the solution is {reached}, the optimum is {value}");
    ensure!(lp.max || obj == value, "the reported objective is {obj}, the optimum is {value}");
    if let Some(y) = y {
        // The bound that these prices give for every feasible point.
        let bound = lp.dual_bound(&lp.min_costs(), &y).map(|b| if lp.max { b.neg() } else { b }.add(&lp.fixed));
        if bound != Some(reached.clone()) {
            panic!("harness: the prices kept for {} do not prove {reached}", job.path);
        }
        ctx.count("optimality certified by dual prices");
    }
    ctx.sample(format!("{} ({how}): optimum {}", job.path, value.to_string().chars().take(60).collect::<String>()));
    Ok(())
}

const ASSUME: &str = "The reference solver and the exact arithmetic of the harness are right; each of their verdicts carries a certificate that is re-checked against the problem as stated.";

fn main() {
    run(&[
        Prop {
            id: "C01",
            rule: "random and structured problems (all relation types, all bound types, fractions, redundancy, degeneracy, flows, chains, edge shapes) solved in several configurations of presolve, scaling and basis inverse, and through a generated MPS text; the verdict is compared with a certified one; distinct = different pattern of relations, bounds, sense, verdict and configuration",
            quick: 10000, thorough: 1000000, hang: 60, wall: (45, 780),
            floors: &[("infeasible", 200), ("unbounded", 100), ("optimal", 500), ("solves", 2000), ("solves from file", 100), ("large, optimal", 20)],
            assumptions: &[ASSUME],
            case: c01,
        },
        Prop {
            id: "C02",
            rule: "problems with a finite optimum, constructed or found, in several configurations; the returned values are substituted in every row and bound of the problem as stated and the objective compared with the certified optimum; distinct = pattern of relations, bounds, sense and configuration",
            quick: 14000, thorough: 1000000, hang: 60, wall: (45, 780),
            floors: &[("optima", 2000), ("solved by presolve", 100), ("solved after presolve", 100), ("solved by the simplex method", 500), ("maximizations", 200), ("large", 20)],
            assumptions: &[ASSUME],
            case: c02,
        },
        Prop {
            id: "C03",
            rule: "problems on which presolve rules fire; verdicts and solutions presolve declares are compared with certified ones, otherwise the remaining problem is read out as an equality system, compared, and its vertices, rays and interior points are completed and substituted; distinct = pattern of the problem and number of rows and variables left",
            quick: 72000, thorough: 5000000, hang: 60, wall: (45, 780),
            floors: &[("points completed", 3000), ("constraints removed", 500), ("variables removed", 500), ("presolved twice", 100), ("declared infeasible by presolve", 100), ("declared optimal by presolve", 100), ("declared unbounded by presolve", 50), ("large, presolved optimal", 30)],
            assumptions: &[ASSUME],
            case: c03,
        },
        Prop {
            id: "C04",
            rule: "problems rewritten to standard form without presolve, read out as an equality system and compared with the problem in the direction of its objective and in random directions, with points mapped back; distinct = pattern of relations, bounds, sense and verdict",
            quick: 21000, thorough: 2000000, hang: 60, wall: (45, 780),
            floors: &[("points completed", 3000), ("standardized optimal", 300), ("standardized infeasible", 100), ("standardized unbounded", 100), ("large, standardized optimal", 30)],
            assumptions: &[ASSUME],
            case: c04,
        },
        Prop {
            id: "C05",
            rule: "random constraint groups and bounds handed to the matrix directly; columns, costs, right-hand sides, sizes, bound rows and suggested basis read back, and the two feasible sets compared in random directions and at points; distinct = sizes of the groups and verdicts",
            quick: 300000, thorough: 20000000, hang: 60, wall: (45, 780),
            floors: &[("bound rows", 1000), ("initial elements", 1000), ("points compared", 1000), ("points accepted", 100), ("points rejected", 100), ("large, points accepted", 1000), ("large, points rejected", 1000)],
            assumptions: &[ASSUME],
            case: c05,
        },
        Prop {
            id: "C06",
            rule: "standard forms scaled, with coefficients made of prime powers and without; scaled and plain system compared through verdict, optimum and points scaled back, and the scaling undone; distinct = pattern of the problem",
            quick: 40000, thorough: 4000000, hang: 60, wall: (45, 780),
            floors: &[("changed by scaling", 500), ("points scaled back", 2000), ("restored exactly", 1000), ("large, optimal", 50)],
            assumptions: &[ASSUME],
            case: c06,
        },
        Prop {
            id: "C13",
            rule: "a problem and random compositions of rewritings of it (reorder, rename, multiply rows, split equalities, mirror, shift, duplicate, imply, mirror the objective, bounds as rows) solved in independent configurations; distinct = pattern of the problem and set of rewritings",
            quick: 5000, thorough: 200000, hang: 120, wall: (45, 780),
            floors: &[("optima compared", 1000), ("base infeasible", 50), ("base unbounded", 50), ("rewriting: reorder", 100), ("rewriting: mirror the objective", 100), ("large", 8)],
            assumptions: &["The rewritings of the harness preserve the problem."],
            case: c13,
        },
        Prop {
            id: "C20",
            rule: "a problem solved, other problems solved, the problem solved again, from a clone, and in another process; all answers including every value must be equal; distinct = pattern of the problem and configuration",
            quick: 3400, thorough: 100000, hang: 120, wall: (45, 780),
            floors: &[("repeated in the process", 1000), ("repeated in another process", 300), ("nonzero solutions", 300), ("solves in between", 500)],
            assumptions: &["Hash seeds differ between processes and between maps, so an answer that depends on them shows after few repetitions."],
            case: c20,
        },
        Prop {
            id: "C21",
            rule: "shipped benchmark files (netlib, Burkardt, Unicamp, Cook) that the solver finishes in the time of the tier, times configurations, imported and solved by the library; the point is substituted in every row and bound as an independent reader sees them, and its optimality proven by exact dual prices kept in data/ (small files: by the reference solver); distinct = file and configuration",
            quick: 400, thorough: 400, hang: 200, wall: (240, 780),
            floors: &[("benchmark solves", 150), ("optimality certified by dual prices", 50)],
            assumptions: &["The reader, exact arithmetic and reference solver of the harness are right; the kept dual prices are not trusted but verified against the file at every use."],
            case: c21,
        },
        Prop {
            id: "C22",
            rule: "problems at the edge of what is a problem (no rows, no variables, empty rows and columns, proportional rows, only fixed or only free variables, huge fractions) in all configurations, with the number of basis changes bounded by the number of bases and every repeated basis reported; distinct = pattern, configuration and number of basis changes",
            quick: 120000, thorough: 8000000, hang: 60, wall: (45, 780),
            floors: &[("without rows", 100), ("without variables", 100), ("with an empty row", 100), ("basis changes", 1000)],
            assumptions: &[ASSUME],
            case: c22,
        },
    ])
}
