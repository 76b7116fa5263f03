//! Plain dense exact linear algebra, the reference for bases and systems.
use crate::big::Rat;

pub type Mat = Vec<Vec<Rat>>;

pub fn identity(m: usize) -> Mat {
    (0..m).map(|i| (0..m).map(|j| if i == j { Rat::one() } else { Rat::zero() }).collect()).collect()
}
/// Rows of the inverse, or `None` if singular.
pub fn inverse(a: &Mat) -> Option<Mat> {
    let m = a.len();
    let mut a = a.clone();
    let mut b = identity(m);
    for c in 0..m {
        let p = (c..m).find(|&i| !a[i][c].is_zero())?;
        a.swap(c, p);
        b.swap(c, p);
        let inv = a[c][c].inv();
        for v in a[c].iter_mut().chain(b[c].iter_mut()) {
            if !v.is_zero() {
                *v = v.mul(&inv);
            }
        }
        let (ra, rb) = (a[c].clone(), b[c].clone());
        for i in 0..m {
            if i != c && !a[i][c].is_zero() {
                let f = a[i][c].clone();
                for (v, p) in a[i].iter_mut().zip(&ra).chain(b[i].iter_mut().zip(&rb)) {
                    if !p.is_zero() {
                        *v = v.sub(&f.mul(p));
                    }
                }
            }
        }
    }
    Some(b)
}
pub fn rank(a: &Mat) -> usize {
    let mut a = a.clone();
    let n = a.first().map_or(0, |r| r.len());
    let mut r = 0;
    for c in 0..n {
        if r == a.len() {
            break;
        }
        let Some(p) = (r..a.len()).find(|&i| !a[i][c].is_zero()) else { continue };
        a.swap(r, p);
        let inv = a[r][c].inv();
        let row = a[r].clone();
        for i in r + 1..a.len() {
            if !a[i][c].is_zero() {
                let f = a[i][c].mul(&inv);
                for (v, p) in a[i].iter_mut().zip(&row) {
                    if !p.is_zero() {
                        *v = v.sub(&f.mul(p));
                    }
                }
            }
        }
        r += 1;
    }
    r
}
pub fn mul_vec(a: &Mat, x: &[Rat]) -> Vec<Rat> {
    a.iter().map(|r| dot(r, x)).collect()
}
/// `x^T A`
pub fn vec_mul(x: &[Rat], a: &Mat) -> Vec<Rat> {
    let n = a.first().map_or(0, |r| r.len());
    let mut out = vec![Rat::zero(); n];
    for (x, r) in x.iter().zip(a) {
        if !x.is_zero() {
            for (o, v) in out.iter_mut().zip(r) {
                if !v.is_zero() {
                    *o = o.add(&x.mul(v));
                }
            }
        }
    }
    out
}
pub fn dot(a: &[Rat], b: &[Rat]) -> Rat {
    a.iter().zip(b).fold(Rat::zero(), |s, (x, y)| if x.is_zero() || y.is_zero() { s } else { s.add(&x.mul(y)) })
}
pub fn transpose(a: &Mat) -> Mat {
    let n = a.first().map_or(0, |r| r.len());
    (0..n).map(|j| a.iter().map(|r| r[j].clone()).collect()).collect()
}
pub fn show(v: &[Rat]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}
