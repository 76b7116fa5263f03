//! Model-based monitor of vectors, matrices and columns: every operation is done on a plain full
//! array as well, and everything that can be read is compared after every step.
use relp::algorithm::two_phase::matrix_provider::column::identity::IdentityColumn;
use relp::algorithm::two_phase::matrix_provider::column::{
    Column, DenseSliceIterator, SparseColumn, SparseOptionIterator, SparseSliceIterator,
};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp_num::Rational64;
use relp_verif::big::Rat;
use relp_verif::drv::{guarded, main as run, Ctx, Prop, Res};
use relp_verif::iface::{from, to_64, to_rb, RB};
use relp_verif::mk;
use relp_verif::rng::Rng;
use std::collections::HashSet;
use std::fmt::Display;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
type Sv = SparseVector<RB, RB>;
type Dv = DenseVector<RB>;

fn number(r: &mut Rng) -> Rat {
    if r.chance(1, 20) { Rat::new(r.range(-1_000_000_000_000, 1_000_000_000_000), r.range(1, 1_000_000_007)) } else { mk::number(r, true) }
}
fn nonzero(r: &mut Rng) -> Rat {
    loop {
        let v = number(r);
        if !v.is_zero() {
            return v;
        }
    }
}
fn vector(r: &mut Rng, n: usize, density: usize) -> Vec<Rat> {
    if n > 60 {
        // Few of them, with small denominators.
        return (0..n).map(|_| if r.chance(density, 30) { let f = r.below(4) == 0; mk::number(r, f) } else { Rat::zero() }).collect();
    }
    (0..n).map(|_| if r.chance(density, 6) { number(r) } else { Rat::zero() }).collect()
}
fn tuples(v: &[Rat]) -> Vec<(usize, RB)> {
    v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, x)| (i, to_rb(x))).collect()
}
fn dot(a: &[Rat], b: &[Rat]) -> Rat {
    a.iter().zip(b).fold(Rat::zero(), |s, (a, b)| s.add(&a.mul(b)))
}
fn some_indices(r: &mut Rng, n: usize) -> Vec<usize> {
    let k = match r.below(6) {
        0 => 0,
        1 => 6,
        k => k - 1,
    };
    let v: Vec<usize> = (0..n).filter(|_| r.chance(k, 6)).collect();
    if r.chance(1, 8) { (0..n).take(v.len()).collect() } else if r.chance(1, 8) { (n - v.len()..n).collect() } else { v }
}
fn without<T: Clone>(v: &[T], gone: &[usize]) -> Vec<T> {
    v.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|x| x.1.clone()).collect()
}
fn full<F: Display>(it: impl Iterator<Item = (usize, F)>, n: usize, what: &str) -> Result<Vec<Rat>, String> {
    let mut v = vec![Rat::zero(); n];
    let mut last: Option<usize> = None;
    for (i, x) in it {
        ensure!(i < n, "{what} has an entry at {i}, its length is {n}");
        ensure!(last.is_none_or(|l| l < i), "{what} has an entry at {i} after one at {}", last.unwrap());
        last = Some(i);
        let x = from(&x);
        ensure!(!x.is_zero(), "{what} stores a zero at {i}");
        v[i] = x;
    }
    Ok(v)
}
fn show(v: &[Rat]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

fn check_sparse(v: &Sv, m: &[Rat]) -> Res {
    ensure!(v.len() == m.len(), "the sparse vector has length {}, expected {}", v.len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "a sparse vector of length {} says is_empty {}", m.len(), v.is_empty());
    let got = full(SparseVector::iter(v), m.len(), "the sparse vector")?;
    ensure!(got == m, "the sparse vector is [{}], expected [{}]", show(&got), show(m));
    ensure!(v.size() == m.iter().filter(|x| !x.is_zero()).count(), "the sparse vector reports size {}", v.size());
    let got = full(Vector::iter(v).map(|(i, x)| (*i, x)), m.len(), "the iterated sparse vector")?;
    ensure!(got == m, "iterating gives [{}], expected [{}]", show(&got), show(m));
    let got = full(Column::iter(v), m.len(), "the sparse vector as a column")?;
    ensure!(got == m, "as a column it is [{}], expected [{}]", show(&got), show(m));
    for (i, x) in m.iter().enumerate() {
        let g = v.get(i).map_or(Rat::zero(), from);
        ensure!(g == *x, "the sparse vector has {g} at {i}, expected {x}");
        ensure!(Rat::parse(&v.index_to_string(i)).as_ref() == Some(x), "the sparse vector writes {} at {i}, expected {x}", v.index_to_string(i));
    }
    ensure!(from(&v.squared_norm()) == dot(m, m), "squared norm {}, expected {}", v.squared_norm(), dot(m, m));
    let whole: Sv = m.iter().map(to_rb).collect();
    ensure!(whole == *v, "the sparse vector is not equal to one with the same values");
    Ok(())
}
fn check_dense(v: &Dv, m: &[Rat]) -> Res {
    ensure!(v.len() == m.len() && v.size() == m.len(), "the dense vector has length {}, expected {}", v.len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "a dense vector of length {} says is_empty {}", m.len(), v.is_empty());
    let got: Vec<Rat> = Vector::iter(v).map(from).collect();
    ensure!(got == m, "the dense vector is [{}], expected [{}]", show(&got), show(m));
    let got: Vec<Rat> = v.inner().iter().map(from).collect();
    ensure!(got == m, "the dense vector is [{}] inside, expected [{}]", show(&got), show(m));
    for (i, x) in m.iter().enumerate() {
        ensure!(v.get(i).map(from).as_ref() == Some(x) && from(&v[i]) == *x, "the dense vector has {} at {i}, expected {x}", v[i]);
    }
    let whole: Dv = m.iter().map(to_rb).collect();
    ensure!(whole == *v, "the dense vector is not equal to one with the same values");
    Ok(())
}

fn vectors(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.r;
    let mut n = *r.pick(&[0, 1, 1, 2, 3, 4, 6, 9, 14, 40]);
    if r.chance(1, 20) {
        n = r.range(62, 330) as usize;
        ctx.count("long vectors");
    }
    let r = &mut ctx.r;
    let density = r.below(7);
    let mut sm = vector(r, n, density);
    let mut tm = vector(r, n, density);
    let mut dm = vector(r, n, 5);
    let mut s: Sv = Vector::new(tuples(&sm), n);
    let mut t: Sv = Vector::new(tuples(&tm), n);
    let mut d: Dv = if r.chance(1, 4) {
        let v = number(r);
        dm = vec![v.clone(); n];
        DenseVector::constant(to_rb(&v), n)
    } else {
        Vector::new(dm.iter().map(to_rb).collect(), n)
    };
    if n > 0 && r.chance(1, 8) {
        let i = r.below(n);
        sm = vec![Rat::zero(); n];
        sm[i] = Rat::one();
        s = SparseVector::standard_basis_vector(i, n);
    }
    let steps = 4 + r.below(24);
    let mut log = format!("start: {} | {} | {}", show(&sm), show(&tm), show(&dm));
    let mut ops = String::new();
    for _ in 0..steps {
        let r = &mut ctx.r;
        let op = r.below(13);
        ops.push((b'a' + op as u8) as char);
        let name = match op {
            0 => {
                let (a, b, c) = (nonzero(r), nonzero(r), number(r));
                log.push_str(&format!("\npush {a} | {b} | {c}"));
                guarded(|| {
                    s.push_value(to_rb(&a));
                    t.push_value(to_rb(&b));
                    d.push_value(to_rb(&c));
                })?;
                sm.push(a);
                tm.push(b);
                dm.push(c);
                n += 1;
                "push"
            }
            1 if n > 0 => {
                let (i, v) = (r.below(n), nonzero(r));
                log.push_str(&format!("\nset {i} to {v}"));
                guarded(|| {
                    s.set(i, to_rb(&v));
                    d.set(i, to_rb(&v));
                })?;
                sm[i] = v.clone();
                dm[i] = v;
                "set"
            }
            2 => {
                let gone = some_indices(r, n);
                log.push_str(&format!("\nremove {gone:?}"));
                guarded(|| {
                    s.remove_indices(&gone);
                    t.remove_indices(&gone);
                    d.remove_indices(&gone);
                })?;
                sm = without(&sm, &gone);
                tm = without(&tm, &gone);
                dm = without(&dm, &gone);
                n = sm.len();
                "remove"
            }
            3 => {
                let k = r.below(4);
                let v: Vec<Rat> = (0..k).map(|_| number(r)).collect();
                log.push_str(&format!("\nextend by {}", show(&v)));
                guarded(|| {
                    s.extend(k);
                    t.extend(k);
                    d.extend_with_values(v.iter().map(to_rb).collect());
                })?;
                sm.resize(n + k, Rat::zero());
                tm.resize(n + k, Rat::zero());
                dm.extend(v);
                n += k;
                "extend"
            }
            4 | 5 => {
                // Often such that entries cancel.
                let mut f = nonzero(r);
                if let Some(i) = (0..n).find(|&i| !sm[i].is_zero() && !tm[i].is_zero()) {
                    if r.chance(1, 2) {
                        f = sm[i].div(&tm[i]).neg();
                    }
                }
                if f.bits() > 200 || sm.iter().any(|x| x.bits() > 200) {
                    continue;
                }
                log.push_str(&format!("\nadd {f} times the second"));
                let fr = to_rb(&f);
                guarded(|| s.add_multiple_of_row(&fr, &t))?;
                for i in 0..n {
                    sm[i] = sm[i].add(&f.mul(&tm[i]));
                }
                "add multiple"
            }
            6 if n > 0 => {
                let i = r.below(n);
                let v = match r.below(6) {
                    0 | 1 => sm[i].neg(),
                    2 => sm[i].clone(),
                    _ => number(r),
                };
                log.push_str(&format!("\nshift {i} by {v}"));
                match to_64(&v) {
                    // By a number of another type.
                    Some(w) if r.chance(1, 2) => guarded(|| s.shift_value(i, w))?,
                    _ => guarded(|| s.shift_value(i, to_rb(&v)))?,
                }
                sm[i] = sm[i].add(&v);
                "shift"
            }
            7 => {
                let f = nonzero(r);
                log.push_str(&format!("\nmultiply by {f}"));
                guarded(|| s.element_wise_multiply(&to_rb(&f)))?;
                sm.iter_mut().for_each(|x| *x = x.mul(&f));
                "multiply"
            }
            8 => {
                let f = nonzero(r);
                log.push_str(&format!("\ndivide by {f}"));
                guarded(|| s.element_wise_divide(&to_rb(&f)))?;
                sm.iter_mut().for_each(|x| *x = x.div(&f));
                "divide"
            }
            9 => {
                log.push_str("\nswap");
                std::mem::swap(&mut s, &mut t);
                std::mem::swap(&mut sm, &mut tm);
                "swap"
            }
            10 => {
                // Writing through iterators.
                let f = nonzero(r);
                log.push_str(&format!("\nwrite through iterators, {f}"));
                guarded(|| {
                    for (_, x) in Vector::iter_mut(&mut s) {
                        *x *= &to_rb(&f);
                    }
                    for x in d.iter_mut() {
                        *x *= &to_rb(&f);
                    }
                    if n > 0 {
                        let k = n / 2;
                        d[k] = to_rb(&f);
                        d.inner_mut()[0] = to_rb(&f);
                    }
                })?;
                sm.iter_mut().for_each(|x| *x = x.mul(&f));
                dm.iter_mut().for_each(|x| *x = x.mul(&f));
                if n > 0 {
                    dm[n / 2] = f.clone();
                    dm[0] = f;
                }
                "write through iterators"
            }
            11 => {
                log.push_str("\nrebuild");
                let (a, b): (Vec<(usize, RB)>, Vec<RB>) = guarded(|| (s.clone().into_iter().collect(), d.clone().into_iter().collect()))?;
                s = guarded(|| Vector::new(a, n))?;
                d = guarded(|| b.into_iter().collect())?;
                "rebuild"
            }
            _ => {
                let k = nonzero(r);
                log.push_str(&format!("\nstart over with {k}"));
                sm = vector(r, n, density);
                if n > 0 {
                    sm[n - 1] = k;
                }
                let v = sm.clone();
                s = guarded(|| v.iter().map(to_rb).collect())?;
                "collect"
            }
        };
        ctx.describe(log.clone());
        ctx.count(&format!("vector {name}"));
        ctx.count("vector steps");
        // Numbers grow under products of products; start small again.
        if sm.iter().chain(&dm).any(|x| x.bits() > 400) {
            sm.iter_mut().for_each(|x| *x = Rat::int(x.sign() as i64));
            dm.iter_mut().for_each(|x| *x = Rat::int(x.sign() as i64));
            s = Vector::new(tuples(&sm), n);
            d = Vector::new(dm.iter().map(to_rb).collect(), n);
        }
        guarded(|| -> Res {
            check_sparse(&s, &sm)?;
            check_sparse(&t, &tm)?;
            check_dense(&d, &dm)?;
            ensure!((s == t) == (sm == tm), "equality of [{}] and [{}] is {}", show(&sm), show(&tm), s == t);
            let p: RB = s.inner_product_with_dense::<RB, RB>(&d);
            ensure!(from(&p) == dot(&sm, &dm), "product with the dense vector {p}, expected {}", dot(&sm, &dm));
            let p: RB = s.sparse_inner_product::<_, RB>(SparseVector::iter(&t));
            ensure!(from(&p) == dot(&sm, &tm), "product of the sparse vectors {p}, expected {}", dot(&sm, &tm));
            let p: RB = t.sparse_inner_product::<_, RB>(Column::iter(&s));
            ensure!(from(&p) == dot(&sm, &tm), "product of the sparse vectors, exchanged, {p}, expected {}", dot(&sm, &tm));
            let p: RB = d.sparse_inner_product::<_, RB>(SparseVector::iter(&t));
            ensure!(from(&p) == dot(&dm, &tm), "product of dense and sparse vector {p}, expected {}", dot(&dm, &tm));
            let p: RB = s.sparse_inner_product::<_, RB>(DenseSliceIterator::new(d.inner()));
            ensure!(from(&p) == dot(&dm, &sm), "product of sparse vector and dense slice {p}, expected {}", dot(&dm, &sm));
            Ok(())
        })??;
    }
    ctx.nontrivial(&ops);
    if ctx.idx < 4 {
        ctx.sample(log);
    }
    Ok(())
}

type Full = Vec<Vec<Rat>>;
fn matrix_rows(m: &Full) -> Vec<Vec<(usize, RB)>> {
    m.iter().map(|r| tuples(r)).collect()
}
fn transposed(m: &Full, columns: usize) -> Full {
    (0..columns).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect()
}
fn check_row_major(a: &SparseMatrix<RB, RB, RowMajor>, m: &Full, columns: usize) -> Res {
    ensure!(a.nr_rows() == m.len() && a.nr_columns() == columns, "the matrix is {} by {}, expected {} by {columns}", a.nr_rows(), a.nr_columns(), m.len());
    ensure!(a.data.len() == m.len() && a.iter_rows().count() == m.len(), "the matrix stores {} rows, expected {}", a.data.len(), m.len());
    ensure!(a.size() == m.iter().flatten().filter(|x| !x.is_zero()).count(), "the matrix reports {} nonzeros", a.size());
    for (i, row) in a.iter_rows().enumerate() {
        let got = full(row.iter().map(|(j, x)| (*j, x)), columns, &format!("row {i}"))?;
        ensure!(got == m[i], "row {i} is [{}], expected [{}]", show(&got), show(&m[i]));
        let got = full(a.iter_row(i).map(|(j, x)| (*j, x)), columns, &format!("row {i}"))?;
        ensure!(got == m[i], "row {i} is iterated as [{}], expected [{}]", show(&got), show(&m[i]));
    }
    Ok(())
}
fn check_column_major(a: &SparseMatrix<RB, RB, ColumnMajor>, m: &Full, columns: usize) -> Res {
    let t = transposed(m, columns);
    ensure!(a.nr_rows() == m.len() && a.nr_columns() == columns, "the matrix is {} by {}, expected {} by {columns}", a.nr_rows(), a.nr_columns(), m.len());
    ensure!(a.data.len() == columns && a.iter_columns().count() == columns, "the matrix stores {} columns, expected {columns}", a.data.len());
    ensure!(a.size() == m.iter().flatten().filter(|x| !x.is_zero()).count(), "the matrix reports {} nonzeros", a.size());
    for (j, column) in a.iter_columns().enumerate() {
        let got = full(column.iter().map(|(i, x)| (*i, x)), m.len(), &format!("column {j}"))?;
        ensure!(got == t[j], "column {j} is [{}], expected [{}]", show(&got), show(&t[j]));
        let got = full(a.iter_column(j).map(|(i, x)| (*i, x)), m.len(), &format!("column {j}"))?;
        ensure!(got == t[j], "column {j} is iterated as [{}], expected [{}]", show(&got), show(&t[j]));
    }
    // The transposed copy.
    let rows = SparseMatrix::<_, _, RowMajor>::from_column_major(a);
    ensure!(rows.nr_rows() == m.len() && rows.nr_columns() == columns, "the row major copy is {} by {}", rows.nr_rows(), rows.nr_columns());
    for (i, row) in rows.iter_rows().enumerate() {
        let got = full(row.iter().map(|(j, x)| (*j, *x)), columns, &format!("row {i} of the copy"))?;
        ensure!(got == m[i], "row {i} of the row major copy is [{}], expected [{}]", show(&got), show(&m[i]));
    }
    Ok(())
}
fn show_matrix(m: &Full) -> String {
    m.iter().map(|r| show(r)).collect::<Vec<_>>().join("\n")
}

fn matrices(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.r;
    let mut rows = *r.pick(&[0, 1, 1, 2, 3, 4, 6, 10]);
    let mut columns = *r.pick(&[0, 1, 1, 2, 3, 4, 6, 10]);
    if r.chance(1, 20) {
        if r.chance(1, 2) {
            rows = r.range(62, 150) as usize;
        }
        if r.chance(1, 2) {
            columns = r.range(62, 150) as usize;
        }
        ctx.count("large matrices");
    }
    let r = &mut ctx.r;
    let density = r.below(7);
    let mut m: Full = (0..rows).map(|_| vector(r, columns, density)).collect();
    let identity = rows > 0 && r.chance(1, 8);
    let mut test = None;
    if identity {
        columns = rows;
        m = (0..rows).map(|i| (0..rows).map(|j| Rat::int((i == j) as i64)).collect()).collect();
    } else if r.chance(1, 6) {
        let t: Vec<Vec<i32>> = (0..rows).map(|_| (0..columns).map(|_| r.range(-2, 2) as i32).collect()).collect();
        m = t.iter().map(|r| r.iter().map(|v| Rat::int(*v as i64)).collect()).collect();
        test = Some(t);
    }
    let mut log = format!("start:\n{}", show_matrix(&m));
    ctx.describe(log.clone());
    let (mut a, mut b) = guarded(|| {
        if identity {
            (RowMajor::identity::<RB, RB>(rows), ColumnMajor::identity::<RB, RB>(rows))
        } else if let Some(t) = &test {
            (RowMajor::from_test_data::<RB, RB, i32>(t, columns), ColumnMajor::from_test_data::<RB, RB, i32>(t, columns))
        } else {
            (
                RowMajor::new::<RB, RB>(matrix_rows(&m), rows, columns),
                ColumnMajor::new::<RB, RB>(matrix_rows(&transposed(&m, columns)), rows, columns),
            )
        }
    })?;
    let mut ops = String::new();
    for step in 0..3 + ctx.r.below(12) {
        let r = &mut ctx.r;
        let op = if step == 0 { 8 } else { r.below(7) };
        ops.push((b'a' + op as u8) as char);
        let name = match op {
            0 if rows > 0 && columns > 0 => {
                let (i, j, v) = (r.below(rows), r.below(columns), nonzero(r));
                log.push_str(&format!("\nset {i} {j} to {v}"));
                guarded(|| {
                    a.set_value(i, j, to_rb(&v));
                    b.set_value(i, j, to_rb(&v));
                })?;
                m[i][j] = v;
                "set"
            }
            1 => {
                let gone = some_indices(r, rows);
                log.push_str(&format!("\nremove rows {gone:?}"));
                guarded(|| {
                    a.remove_rows(&gone);
                    b.remove_rows_although_this_matrix_is_column_major(&gone);
                })?;
                m = without(&m, &gone);
                rows = m.len();
                "remove rows"
            }
            2 => {
                let gone = some_indices(r, columns);
                log.push_str(&format!("\nremove columns {gone:?}"));
                guarded(|| {
                    a.remove_columns_although_this_matrix_is_row_ordered(&gone);
                    b.remove_columns(&gone);
                })?;
                m.iter_mut().for_each(|x| *x = without(x, &gone));
                columns -= gone.len();
                "remove columns"
            }
            3 => {
                // Below; the column major one is made anew.
                let k = r.below(3);
                let more: Full = (0..k).map(|_| vector(r, columns, density)).collect();
                log.push_str(&format!("\nbelow:\n{}", show_matrix(&more)));
                let other = RowMajor::new::<RB, RB>(matrix_rows(&more), k, columns);
                a = guarded(|| a.clone().concatenate_vertically(other))?;
                m.extend(more);
                rows += k;
                b = guarded(|| ColumnMajor::new::<RB, RB>(matrix_rows(&transposed(&m, columns)), rows, columns))?;
                "concatenate vertically"
            }
            4 => {
                let k = r.below(3);
                let more: Full = (0..rows).map(|_| vector(r, k, density)).collect();
                log.push_str(&format!("\nto the right:\n{}", show_matrix(&more)));
                let other = ColumnMajor::new::<RB, RB>(matrix_rows(&transposed(&more, k)), rows, k);
                b = guarded(|| b.clone().concatenate_horizontally(other))?;
                m.iter_mut().zip(more).for_each(|(x, y)| x.extend(y));
                columns += k;
                a = guarded(|| RowMajor::new::<RB, RB>(matrix_rows(&m), rows, columns))?;
                "concatenate horizontally"
            }
            5 => {
                let which: HashSet<usize> = some_indices(r, rows).into_iter().collect();
                log.push_str(&format!("\nnegate {which:?}"));
                guarded(|| b.change_row_signs(&which))?;
                for i in which {
                    m[i].iter_mut().for_each(|x| *x = x.neg());
                }
                a = guarded(|| RowMajor::new::<RB, RB>(matrix_rows(&m), rows, columns))?;
                "change row signs"
            }
            6 => {
                log.push_str("\nby way of rows");
                let t = matrix_rows(&m);
                let c = guarded(|| SparseMatrix::<RB, RB, ColumnMajor>::from_row_ordered_tuples_although_this_is_expensive(&t, columns))?;
                ensure!(c.nr_rows() == rows && c.nr_columns() == columns, "the column major copy is {} by {}", c.nr_rows(), c.nr_columns());
                let data: Vec<Vec<(usize, RB)>> = c.iter_columns().map(|x| x.iter().map(|(i, v)| (*i, (*v).clone())).collect()).collect();
                b = guarded(|| ColumnMajor::new::<RB, RB>(data, rows, columns))?;
                "transpose"
            }
            _ => "start",
        };
        ctx.describe(log.clone());
        ctx.count(&format!("matrix {name}"));
        ctx.count("matrix steps");
        guarded(|| -> Res {
            check_row_major(&a, &m, columns)?;
            check_column_major(&b, &m, columns)?;
            let again = ColumnMajor::new::<RB, RB>(matrix_rows(&transposed(&m, columns)), rows, columns);
            ensure!(again == b, "the matrix is not equal to one with the same entries");
            Ok(())
        })??;
    }
    if rows == 0 || columns == 0 {
        ctx.count("matrices that became empty");
    }
    ctx.nontrivial(&format!("m{ops}{rows}{columns}"));
    Ok(())
}

fn columns(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.r;
    let mut n = *r.pick(&[0, 1, 2, 3, 5, 8, 20]);
    if r.chance(1, 20) {
        n = r.range(62, 330) as usize;
    }
    let density = r.below(7);
    let v = vector(r, n, density);
    let w = vector(r, n, density);
    ctx.describe(format!("{} | {}", show(&v), show(&w)));
    let t = tuples(&v);
    let d: Vec<RB> = v.iter().map(to_rb).collect();
    guarded(|| -> Res {
        let c = SparseColumn::new(t.clone());
        let it = Column::iter(&c);
        ensure!(full(it.clone(), n, "a sparse column")? == v, "the sparse column differs");
        ensure!(full(it, n, "a sparse column")? == v, "a copied iterator starts elsewhere");
        for (i, x) in v.iter().enumerate() {
            ensure!(Rat::parse(&c.index_to_string(i)).as_ref() == Some(x), "the sparse column writes {} at {i}, expected {x}", c.index_to_string(i));
        }
        ensure!(full(c.into_iter(), n, "a consumed sparse column")? == v, "the consumed sparse column differs");
        let mut it = DenseSliceIterator::new(&d);
        let k = n / 2;
        let taken: Vec<(usize, RB)> = it.by_ref().take(k).map(|(i, x)| (i, x.clone())).collect();
        let rest = it.clone();
        let all: Vec<(usize, RB)> = taken.iter().cloned().chain(rest.map(|(i, x)| (i, x.clone()))).collect();
        ensure!(full(all.into_iter(), n, "a dense slice")? == v, "a dense slice, copied in between, differs");
        let mut it = SparseSliceIterator::new(&t);
        let first = it.next().map(|x| x.0);
        ensure!(first == v.iter().position(|x| !x.is_zero()), "the first entry is at {first:?}");
        ensure!(it.clone().count() + first.is_some() as usize == t.len(), "a copied iterator starts elsewhere");
        let one = t.first().cloned();
        let got: Vec<(usize, &RB)> = SparseOptionIterator::new(&one).collect();
        ensure!(got.len() == one.is_some() as usize && got.iter().all(|g| Some((g.0, g.1.clone())) == one), "an optional entry differs");
        if n > 0 {
            let i = n / 2;
            let c = IdentityColumn::new(i);
            let got: Vec<usize> = Column::iter(&c).map(|x| x.0).collect();
            ensure!(got == [i], "an identity column has entries {got:?}");
            ensure!((0..n).all(|k| c.index_to_string(k) == if k == i { "1" } else { "0" }), "an identity column is written differently");
            ensure!(c.into_iter().map(|x| x.0).collect::<Vec<_>>() == [i], "a consumed identity column differs");
            let s: Sv = Vector::new(tuples(&w), n);
            let p: RB = s.sparse_inner_product::<_, RB>(Column::iter(&SparseColumn::new(t.clone())));
            ensure!(from(&p) == dot(&v, &w), "product with a column {p}, expected {}", dot(&v, &w));
            // A column in another number type.
            let narrow: Option<Vec<(usize, Rational64)>> = v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, x)| to_64(x).map(|x| (i, x))).collect();
            if let Some(c) = narrow {
                let p: RB = s.sparse_inner_product::<_, RB>(Column::iter(&SparseColumn::new(c)));
                ensure!(from(&p) == dot(&v, &w), "product with a column in another number type {p}, expected {}", dot(&v, &w));
            }
        }
        Ok(())
    })??;
    ctx.count("columns");
    Ok(())
}

fn c19(ctx: &mut Ctx) -> Res {
    match ctx.idx % 5 {
        0..=2 => vectors(ctx),
        3 => matrices(ctx),
        _ => columns(ctx),
    }
}

fn main() {
    run(&[Prop {
        id: "C19",
        rule: "random sequences of operations on two sparse vectors and a dense one, on a row major and a column major matrix, and on column types, with lengths from zero, entries that cancel, and indices removed from none to all; everything readable compared with full arrays after each step; distinct = sequence of operations",
        quick: 60_000, thorough: 4_000_000, hang: 30, wall: (40, 780),
        floors: &[("vector steps", 20_000), ("matrix steps", 5_000), ("columns", 500), ("vector add multiple", 1000), ("vector remove", 1000), ("vector shift", 500), ("matrix transpose", 300), ("matrix change row signs", 300), ("matrices that became empty", 50), ("long vectors", 300), ("large matrices", 100)],
        assumptions: &["Comparison is by exact fractions of an independent implementation."],
        case: c19,
    }]);
}
