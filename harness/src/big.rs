//! Exact rational arithmetic, written from scratch so that the oracle shares no code with the
//! library under test (which uses `relp-num`).
use std::cmp::Ordering;
use std::fmt;

/// Little-endian base 2^32 magnitude, no trailing zero limbs; empty means zero.
type Mag = Vec<u32>;

fn norm(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn mcmp(a: &Mag, b: &Mag) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &Mag, b: &Mag) -> Mag {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + b.get(i).copied().unwrap_or(0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn msub(a: &Mag, b: &Mag) -> Mag {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - b.get(i).copied().unwrap_or(0) as i64 - br;
        br = 0;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        }
        r.push(s as u32);
    }
    assert!(br == 0);
    norm(r)
}
fn mmul(a: &Mag, b: &Mag) -> Mag {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u64 * y as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    norm(r)
}
fn mshl(a: &Mag, s: u32) -> Mag {
    if s == 0 {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u32;
    for &x in a {
        r.push((x << s) | c);
        c = x >> (32 - s);
    }
    r.push(c);
    r
}
fn mdivrem(a: &Mag, b: &Mag) -> (Mag, Mag) {
    assert!(!b.is_empty(), "division by zero");
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.clone());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        return (norm(q), norm(vec![r as u32]));
    }
    // Knuth, algorithm D
    let s = b.last().unwrap().leading_zeros();
    let v = norm(mshl(b, s));
    let mut u = mshl(a, s);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qhat = num / v[n - 1] as u64;
        let mut rhat = num % v[n - 1] as u64;
        while qhat >= 1 << 32 || qhat * v[n - 2] as u64 > ((rhat << 32) | u[j + n - 2] as u64) {
            qhat -= 1;
            rhat += v[n - 1] as u64;
            if rhat >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qhat * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qhat as u32;
    }
    let mut r = norm(u[..n].to_vec());
    if s > 0 {
        let mut c = 0u32;
        for i in (0..r.len()).rev() {
            let x = r[i];
            r[i] = (x >> s) | c;
            c = x << (32 - s);
        }
        r = norm(r);
    }
    (norm(q), r)
}
fn mgcd(a: &Mag, b: &Mag) -> Mag {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        if a.len() <= 2 && b.len() <= 2 {
            let f = |m: &Mag| m.iter().rev().fold(0u64, |x, &y| (x << 32) | y as u64);
            let (mut x, mut y) = (f(&a), f(&b));
            while y != 0 {
                (x, y) = (y, x % y);
            }
            return norm(vec![x as u32, (x >> 32) as u32]);
        }
        let r = mdivrem(&a, &b).1;
        a = b;
        b = r;
    }
    a
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Int {
    neg: bool,
    mag: Mag,
}
impl Int {
    fn from_i128(v: i128) -> Int {
        let mut u = v.unsigned_abs();
        let mut mag = vec![];
        while u > 0 {
            mag.push(u as u32);
            u >>= 32;
        }
        Int { neg: v < 0, mag }
    }
    fn to_i64(&self) -> Option<i64> {
        if self.mag.len() > 2 {
            return None;
        }
        let u = self.mag.iter().rev().fold(0u64, |x, &y| (x << 32) | y as u64);
        if u > i64::MAX as u64 { None } else if self.neg { Some(-(u as i64)) } else { Some(u as i64) }
    }
    fn mul(&self, o: &Int) -> Int {
        let mag = mmul(&self.mag, &o.mag);
        Int { neg: (self.neg != o.neg) && !mag.is_empty(), mag }
    }
    fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int { neg: self.neg, mag: madd(&self.mag, &o.mag) };
        }
        match mcmp(&self.mag, &o.mag) {
            Ordering::Equal => Int { neg: false, mag: vec![] },
            Ordering::Greater => Int { neg: self.neg, mag: msub(&self.mag, &o.mag) },
            Ordering::Less => Int { neg: o.neg, mag: msub(&o.mag, &self.mag) },
        }
    }
    fn parse(s: &str) -> Option<Int> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut mag: Mag = vec![];
        for b in d.bytes() {
            let mut c = (b - b'0') as u64;
            for l in mag.iter_mut() {
                let t = *l as u64 * 10 + c;
                *l = t as u32;
                c = t >> 32;
            }
            if c > 0 {
                mag.push(c as u32);
            }
        }
        Some(Int { neg: neg && !mag.is_empty(), mag })
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.mag.is_empty() {
            return f.write_str("0");
        }
        let mut digits = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = mdivrem(&m, &vec![1_000_000_000]);
            digits.push(r.first().copied().unwrap_or(0));
            m = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &digits.pop().unwrap().to_string();
        for d in digits.iter().rev() {
            s += &format!("{:09}", d);
        }
        f.write_str(&s)
    }
}

/// An exact rational. Small values live in machine words, everything else in big integers.
#[derive(Clone, Debug)]
pub enum Rat {
    S(i64, i64),
    B(Box<(Int, Int)>),
}
fn gcd128(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            return x as u128;
        }
        (a, b) = (b, a % b);
    }
    a
}
impl Rat {
    pub fn int(v: i64) -> Rat {
        if v == i64::MIN { Rat::B(Box::new((Int::from_i128(v as i128), Int::from_i128(1)))) } else { Rat::S(v, 1) }
    }
    pub fn new(n: i64, d: i64) -> Rat {
        Rat::from128(n as i128, d as i128)
    }
    pub fn zero() -> Rat {
        Rat::S(0, 1)
    }
    pub fn one() -> Rat {
        Rat::S(1, 1)
    }
    fn from128(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        if n == 0 {
            return Rat::zero();
        }
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd128(n.unsigned_abs(), d as u128) as i128;
        let (n, d) = (n / g, d / g);
        if n.unsigned_abs() <= i64::MAX as u128 && d <= i64::MAX as i128 {
            Rat::S(n as i64, d as i64)
        } else {
            Rat::B(Box::new((Int::from_i128(n), Int::from_i128(d))))
        }
    }
    fn from_ints(n: Int, d: Int) -> Rat {
        assert!(!d.mag.is_empty());
        if n.mag.is_empty() {
            return Rat::zero();
        }
        let g = mgcd(&n.mag, &d.mag);
        let neg = n.neg != d.neg;
        let (nm, dm) = if g == vec![1] {
            (n.mag, d.mag)
        } else {
            (mdivrem(&n.mag, &g).0, mdivrem(&d.mag, &g).0)
        };
        let n = Int { neg, mag: nm };
        let d = Int { neg: false, mag: dm };
        match (n.to_i64(), d.to_i64()) {
            (Some(a), Some(b)) => Rat::S(a, b),
            _ => Rat::B(Box::new((n, d))),
        }
    }
    fn ints(&self) -> (Int, Int) {
        match self {
            Rat::S(a, b) => (Int::from_i128(*a as i128), Int::from_i128(*b as i128)),
            Rat::B(x) => (x.0.clone(), x.1.clone()),
        }
    }
    pub fn parse(s: &str) -> Option<Rat> {
        match s.split_once('/') {
            None => Some(Rat::from_ints(Int::parse(s)?, Int::from_i128(1))),
            Some((a, b)) => {
                let d = Int::parse(b)?;
                if d.mag.is_empty() { None } else { Some(Rat::from_ints(Int::parse(a)?, d)) }
            }
        }
    }
    /// The exact value of plain decimal text (`-12.5`, `.5`, `3.`).
    pub fn parse_decimal(s: &str) -> Option<Rat> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let (a, b) = t.split_once('.').unwrap_or((t, ""));
        let digits = format!("{a}{b}");
        let n = Int::parse(&digits)?;
        let d = Int::parse(&format!("1{}", "0".repeat(b.len())))?;
        let r = Rat::from_ints(n, d);
        Some(if neg { r.neg() } else { r })
    }
    pub fn sign(&self) -> i32 {
        match self {
            Rat::S(a, _) => a.signum() as i32,
            Rat::B(x) => if x.0.neg { -1 } else { 1 },
        }
    }
    pub fn is_zero(&self) -> bool {
        self.sign() == 0
    }
    pub fn neg(&self) -> Rat {
        match self {
            Rat::S(a, b) => Rat::S(-a, *b),
            Rat::B(x) => Rat::B(Box::new((Int { neg: !x.0.neg, mag: x.0.mag.clone() }, x.1.clone()))),
        }
    }
    pub fn abs(&self) -> Rat {
        if self.sign() < 0 { self.neg() } else { self.clone() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            if b == d {
                return Rat::from128(*a as i128 + *c as i128, *b as i128);
            }
            if let (Some(x), Some(y)) = ((*a as i128).checked_mul(*d as i128), (*c as i128).checked_mul(*b as i128)) {
                if let (Some(n), Some(m)) = (x.checked_add(y), (*b as i128).checked_mul(*d as i128)) {
                    return Rat::from128(n, m);
                }
            }
        }
        let (a, b) = self.ints();
        let (c, d) = o.ints();
        Rat::from_ints(a.mul(&d).add(&c.mul(&b)), b.mul(&d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            return Rat::from128(*a as i128 * *c as i128, *b as i128 * *d as i128);
        }
        let (a, b) = self.ints();
        let (c, d) = o.ints();
        Rat::from_ints(a.mul(&c), b.mul(&d))
    }
    pub fn inv(&self) -> Rat {
        match self {
            Rat::S(a, b) => Rat::from128(*b as i128, *a as i128),
            Rat::B(x) => {
                let mut n = x.1.clone();
                n.neg = x.0.neg;
                Rat::from_ints(n, Int { neg: false, mag: x.0.mag.clone() })
            }
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn bits(&self) -> usize {
        match self {
            Rat::S(..) => 63,
            Rat::B(x) => 32 * x.0.mag.len().max(x.1.mag.len()),
        }
    }
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        match (self, o) {
            (Rat::S(a, b), Rat::S(c, d)) => a == c && b == d,
            (Rat::B(x), Rat::B(y)) => x == y,
            _ => false,
        }
    }
}
impl Eq for Rat {}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            return (*a as i128 * *d as i128).cmp(&(*c as i128 * *b as i128));
        }
        match self.sub(o).sign() {
            -1 => Ordering::Less,
            0 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Rat::S(a, 1) => write!(f, "{a}"),
            Rat::S(a, b) => write!(f, "{a}/{b}"),
            Rat::B(x) => {
                write!(f, "{}", x.0)?;
                if x.1.mag != vec![1] {
                    write!(f, "/{}", x.1)?;
                }
                Ok(())
            }
        }
    }
}
