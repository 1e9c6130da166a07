//! C03: exact rational arithmetic.  C04: integers as a Euclidean domain.
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{bezout_identity, One, Rational, Symbol, Zero, PID};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Reference fraction: lowest terms, positive denominator.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Fr(pub i128, pub i128);
pub fn igcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { igcd(b, a % b) } }
impl Fr {
    pub fn new(n: i128, d: i128) -> Fr { assert!(d != 0); let g = igcd(n, d); let s = if d < 0 { -1 } else { 1 }; Fr(s * n / g, s * d / g) }
    pub fn add(self, o: Fr) -> Fr { Fr::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1) }
    pub fn neg(self) -> Fr { Fr(-self.0, self.1) }
    pub fn sub(self, o: Fr) -> Fr { self.add(o.neg()) }
    pub fn mul(self, o: Fr) -> Fr { Fr::new(self.0 * o.0, self.1 * o.1) }
    pub fn div(self, o: Fr) -> Fr { Fr::new(self.0 * o.1, self.1 * o.0) }
    pub fn cmp(self, o: Fr) -> Ordering { (self.0 * o.1).cmp(&(o.0 * self.1)) }
    pub fn zero(self) -> bool { self.0 == 0 }
    pub fn show(self) -> String { if self.1 == 1 { format!("{}", self.0) } else { format!("{}/{}", self.0, self.1) } }
    pub fn rat(self) -> Rational { Rational::new(self.0 as i64, self.1 as i64) }
}
fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// Every observation of a rational number agrees with the reference value.
pub fn same(r: Rational, f: Fr, what: &str) -> Check {
    ensure!(r.get_denominator() as i128 == f.1 && r.get_numerator() as i128 == f.0.abs(), "{what} = {}/{} (sign lost in this line), expected {}", r.get_numerator(), r.get_denominator(), f.show());
    ensure!(r.to_string() == f.show(), "{what} prints as {r}, expected {}", f.show());
    ensure!(format!("{r:?}") == f.show(), "{what} debug-prints as {r:?}, expected {}", f.show());
    let c = f.rat();
    ensure!(r == c && c == r, "{what} = {r} is not equal to the same number built directly");
    ensure!(hash_of(&r) == hash_of(&c), "{what} = {r} hashes differently from the same number built directly");
    ensure!(r.cmp(&c) == Ordering::Equal && r <= c && r >= c && !(r < c), "{what} = {r} does not compare equal to itself");
    let x: f64 = r.into();
    let y = f.0 as f64 / f.1 as f64;
    ensure!((x - y).abs() <= 1e-15 * y.abs(), "{what} = {r} converts to {x}, expected {y}");
    Ok(())
}
fn pair(a: Fr, b: Fr, st: &mut Stats) -> Check {
    // Both operands also in the form they have after two negations.
    let (x, y) = (a.rat(), b.rat());
    same(x, a, "a")?;
    same(-x, a.neg(), "-a")?;
    same(-(-x), a, "-(-a)")?;
    same(x.abs(), Fr(a.0.abs(), a.1), "|a|")?;
    let (u, m) = x.simplify();
    same(u * m, a, "the product of the two parts of a")?;
    for (x, y, w) in [(x, y, ""), (-(-x), -(-y), " after double negation"), (-(a.neg().rat()), y, " after one negation of -a")] {
        same(x + y, a.add(b), &format!("a+b{w}"))?;
        same(x - y, a.sub(b), &format!("a-b{w}"))?;
        same(x * y, a.mul(b), &format!("a*b{w}"))?;
        let mut z = x; z += y; same(z, a.add(b), "a+=b")?;
        let mut z = x; z -= y; same(z, a.sub(b), "a-=b")?;
        let mut z = x; z *= y; same(z, a.mul(b), "a*=b")?;
        if b.zero() {
            ensure!(guard(|| x / y).is_err(), "a/0 gave a value");
        } else {
            same(x / y, a.div(b), &format!("a/b{w}"))?;
            let mut z = x; z /= y; same(z, a.div(b), "a/=b")?;
            let (q, r) = x.euclid_div(y);
            same(q, a.div(b), "the quotient of a by b")?;
            same(r, Fr::new(0, 1), "the remainder of a by b")?;
        }
        let o = a.cmp(b);
        ensure!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "cmp(a,b) = {:?}, expected {o:?}", x.cmp(&y));
        ensure!(y.divides(x) == (!b.zero() || a.zero()), "b divides a: {}", y.divides(x));
        ensure!((x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater) && (x == y) == (o == Ordering::Equal), "comparison operators disagree with {o:?}");
        ensure!(y.cmp(&x) == o.reverse(), "cmp(b,a) = {:?}, expected {:?}", y.cmp(&x), o.reverse());
        st.steps(9);
    }
    st.outcome((a.add(b), a.mul(b)));
    Ok(())
}

/// Numbers near the ends of the range: an operation is promised if its textbook formula stays within 63 bits.
fn huge(a: Fr, b: Fr, st: &mut Stats) -> Check {
    let fits = |v: &[Option<i128>]| v.iter().all(|x| x.is_some_and(|x| x.abs() < 1 << 63));
    let (x, y) = (a.rat(), b.rat());
    let (p, q, d) = (a.0.checked_mul(b.1), b.0.checked_mul(a.1), a.1.checked_mul(b.1));
    same(x, a, "a")?;
    same(-x, a.neg(), "-a")?;
    same(x.abs(), Fr(a.0.abs(), a.1), "|a|")?;
    if fits(&[p, q]) {
        let o = a.cmp(b);
        ensure!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "cmp(a,b) = {:?}, expected {o:?}", x.cmp(&y));
        ensure!(y.divides(x) == (!b.zero() || a.zero()), "b divides a: {}", y.divides(x));
        ensure!((x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater) && (x <= y) == (o != Ordering::Greater) && (x >= y) == (o != Ordering::Less) && (x == y) == (o == Ordering::Equal), "comparison operators disagree with {o:?}");
        ensure!((hash_of(&x) == hash_of(&y)) == (o == Ordering::Equal), "hashes");
        st.step();
    }
    if fits(&[p, q, d]) && fits(&[Some(p.unwrap().abs() + q.unwrap().abs())]) {
        same(x + y, a.add(b), "a+b")?;
        same(x - y, a.sub(b), "a-b")?;
        let mut z = x; z += y; same(z, a.add(b), "a+=b")?;
        let mut z = x; z -= y; same(z, a.sub(b), "a-=b")?;
        same([x, y].into_iter().sum(), a.add(b), "sum of [a, b]")?;
        st.steps(5);
    }
    if fits(&[a.0.checked_mul(b.0), d]) {
        same(x * y, a.mul(b), "a*b")?;
        let mut z = x; z *= y; same(z, a.mul(b), "a*=b")?;
        same([x, y].into_iter().product(), a.mul(b), "product of [a, b]")?;
        st.steps(3);
    }
    if fits(&[p, q]) && !b.zero() {
        same(x / y, a.div(b), "a/b")?;
        let mut z = x; z /= y; same(z, a.div(b), "a/=b")?;
        st.steps(2);
    }
    st.outcome((a, b));
    Ok(())
}

struct Hist { bound: i128, depth: usize }
#[derive(Clone, Debug)]
enum Op { Add(Fr), Sub(Fr), Mul(Fr), Div(Fr), Neg, Abs, SumWith(Fr), ProdWith(Fr) }
impl Model for Hist {
    type State = (Rational, Fr);
    type Op = Op;
    type Key = (Fr, u64);
    fn n_init(&self) -> u64 { 2 }
    fn init(&self, i: u64) -> Result<Self::State, String> { Ok(if i == 0 { (Rational::zero(), Fr(0, 1)) } else { (Rational::one(), Fr(1, 1)) }) }
    fn show_init(&self, i: u64) -> String { i.to_string() }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, _: &Self::State) -> Vec<Op> {
        let k: Vec<Fr> = [(0, 1), (1, 1), (-1, 1), (2, 1), (1, 2), (-3, 2), (5, 6)].iter().map(|&(a, b)| Fr(a, b)).collect();
        let mut v = vec![Op::Neg, Op::Abs];
        for f in k { v.extend([Op::Add(f), Op::Sub(f), Op::Mul(f), Op::SumWith(f), Op::ProdWith(f)]); if !f.zero() { v.push(Op::Div(f)) } }
        v
    }
    fn apply(&self, s: &Self::State, op: &Op) -> Result<Option<Self::State>, String> {
        let (r, f) = *s;
        let (r, f) = match *op {
            Op::Neg => (-r, f.neg()),
            Op::Abs => (r.abs(), Fr(f.0.abs(), f.1)),
            Op::Add(g) => (r + g.rat(), f.add(g)),
            Op::Sub(g) => (r - g.rat(), f.sub(g)),
            Op::Mul(g) => (r * g.rat(), f.mul(g)),
            Op::Div(g) => (r / g.rat(), f.div(g)),
            Op::SumWith(g) => ([r, g.rat(), r].into_iter().sum(), f.add(g).add(f)),
            Op::ProdWith(g) => ([g.rat(), r].into_iter().product(), f.mul(g)),
        };
        if f.0.abs() > self.bound || f.1 > self.bound { return Ok(None); }
        same(r, f, "the number")?;
        Ok(Some((r, f)))
    }
    fn key(&self, s: &Self::State) -> Self::Key { (s.1, hash_of(&s.0)) }
}

pub fn c03(t: Tier) -> Spaces {
    let n = t.pick(18i128, 36);
    let mut vals = Vec::new();
    for d in 1..=n { for a in -n..=n { if igcd(a, d) == 1 { vals.push(Fr(a, d)); } } }
    vals.sort_by_key(|f| (f.0.abs().max(f.1), f.1, f.0));
    let m = vals.len() as u64;
    let v2 = vals.clone();
    let big: Vec<i128> = vec![1, 2, 3, 6, 255, 256, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 30, 2147483629, 1 << 31];
    let mut bigs = Vec::new();
    for &a in &big { for &b in &big { bigs.push(Fr::new(a, b)); bigs.push(Fr::new(-a, b)); } }
    bigs.push(Fr(0, 1));
    bigs.sort_by_key(|f| (f.1, f.0)); bigs.dedup();
    let bm = bigs.len() as u64;
    let edge: Vec<i128> = [0i128, 1, 2, 3, 1 << 31, (1 << 31) + 1, 1 << 32, 3037000499, 3037000500, (1 << 52) + 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2, 10i128.pow(17) + 1, 3i128.pow(39), 1 << 60, (1 << 60) + 1, (1 << 61) - 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 2, (1 << 63) - 1].to_vec();
    let mut huges: Vec<Fr> = Vec::new();
    for &a in &edge { for &b in &edge { if b != 0 { huges.push(Fr::new(a, b)); huges.push(Fr::new(-a, b)); } } }
    huges.sort_by_key(|f| (f.1, f.0)); huges.dedup();
    let hm = huges.len() as u64;
    let q = t.pick(9i64, 16);
    let k = (4 * q + 1) as u64;
    vec![
        space("construction", "all n/d with |n|,|d| <= 2N, including d = 0 and both signs", k * k,
            move |i| Some(((i / k) as i64 - 2 * q, (i % k) as i64 - 2 * q)),
            |&(n, d), st| {
                st.step();
                if d == 0 { ensure!(guard(|| Rational::new(n, d)).is_err(), "denominator 0 accepted"); return Ok(()); }
                let f = Fr::new(n as i128, d as i128);
                st.outcome(f);
                same(Rational::new(n, d), f, "new(n,d)")?;
                same(alg::rational!(n; d), f, "rational!(n; d)")?;
                same(Rational::from(n), Fr(n as i128, 1), "from(n)")?;
                same(alg::rational!(n), Fr(n as i128, 1), "rational!(n)")?;
                ensure!(Rational::symbol() == "Q", "symbol");
                Ok(())
            }),
        space("arithmetic and order of small rationals", "all ordered pairs of fractions with numerator and denominator up to N, also as results of negations", m * m,
            move |i| Some((vals[(i / m) as usize], vals[(i % m) as usize])), |&(a, b), st| pair(a, b, st)),
        space("arithmetic and order of large rationals", "all ordered pairs over numerators/denominators at powers of two up to 2^31", bm * bm,
            move |i| Some((bigs[(i / bm) as usize], bigs[(i % bm) as usize])), |&(a, b), st| pair(a, b, st)),
        space("comparison and arithmetic near the limits", "all ordered pairs over numerators/denominators around 2^31, 2^32, 2^53 and up to 2^63-1, every operation whose textbook formula fits 63 bits", hm * hm,
            move |i| Some((huges[(i / hm) as usize], huges[(i % hm) as usize])), |&(a, b), st| huge(a, b, st)),
        {
            let small: Vec<Fr> = v2.into_iter().filter(|f| f.0.abs() <= 3 && f.1 <= 3).collect();
            let s = small.len() as u64;
            space("sums and products of sequences", "all sequences of length <= 4 over fractions with numerator and denominator up to 3", 1 + s + s * s + s.pow(3) + s.pow(4),
                move |i| { let (b, j) = block(i, &[1, s, s * s, s.pow(3), s.pow(4)]); Some(word(j, b, &small)) },
                |v: &Vec<Fr>, st| {
                    let rs: Vec<Rational> = v.iter().map(|f| f.rat()).collect();
                    st.steps(3);
                    let sum = v.iter().fold(Fr(0, 1), |a, &b| a.add(b));
                    same(rs.iter().cloned().sum(), sum, "sum")?;
                    let prod = v.iter().fold(Fr(1, 1), |a, &b| a.mul(b));
                    same(rs.iter().cloned().product(), prod, "product")?;
                    let mut sorted = rs.clone();
                    sorted.sort();
                    let mut ref_sorted = v.clone();
                    ref_sorted.sort_by(|a, b| a.cmp(*b));
                    ensure!(sorted.iter().map(|r| r.to_string()).eq(ref_sorted.iter().map(|f| f.show())), "sorted as {sorted:?}");
                    ensure!(rs.iter().max().map(|r| r.to_string()) == ref_sorted.last().map(|f| f.show()), "max is {:?}", rs.iter().max());
                    st.outcome(sum);
                    Ok(())
                })
        },
        bfs("histories of one number", "all histories of add/sub/mul/div/neg/abs/sum/product with 7 constants, depth-bounded, numerator and denominator up to 4000",
            Hist { bound: 4000, depth: t.pick(6, 8) }),
    ]
}

macro_rules! euclid_checks { ($($f:ident $t:ty),*) => { $(
    fn $f(a: i64, b: i64, st: &mut Stats) -> Check {
        let (x, y) = (a as $t, b as $t);
        if y != 0 {
            let (q, r) = x.euclid_div(y);
            st.step();
            ensure!((q as i128) * (y as i128) + r as i128 == x as i128, "euclid_div gives ({q}, {r}): q*d+r is not n");
            ensure!(r >= 0 && (r as i128) < (y as i128).abs(), "euclid_div gives ({q}, {r}): remainder outside 0..|d|");
            let d = y.divides(x);
            ensure!(d == (x % y == 0), "divides = {d}");
        } else {
            ensure!(y.divides(x) == (x == 0), "0 divides {x} = {}", y.divides(x));
        }
        let (g, s, t) = bezout_identity(x, y);
        st.step();
        ensure!(g as i128 == igcd(a as i128, b as i128), "bezout gives gcd {g}, expected {}", igcd(a as i128, b as i128));
        ensure!((s as i128) * (x as i128) + (t as i128) * (y as i128) == g as i128, "bezout gives ({g}, {s}, {t}) but s*a+t*b != g");
        st.outcome((g as i64, s as i64, t as i64));
        Ok(())
    }
)* } }
euclid_checks! { e8 i8, e16 i16, e32 i32, e64 i64, e128 i128, esz isize }

macro_rules! division_checks { ($($f:ident $t:ty),*) => { $(
    /// Division alone, up to the ends of the type; only MIN / -1 does not fit.
    fn $f(x: $t, y: $t, st: &mut Stats) -> Check {
        if y == 0 || (x == <$t>::MIN && y == -1) { return Ok(()); }
        let (q, r) = x.euclid_div(y);
        st.step();
        ensure!(r >= 0 && r.unsigned_abs() < y.unsigned_abs(), "euclid_div gives ({q}, {r}): remainder outside 0..|d|");
        ensure!(q.wrapping_mul(y).wrapping_add(r) == x && (q == x / y || (x < 0 && x % y != 0 && q == x / y - y.signum())), "euclid_div gives ({q}, {r}): q*d+r is not n");
        ensure!(y.divides(x) == (x % y == 0), "divides = {}", y.divides(x));
        Ok(())
    }
)* } }
division_checks! { d8 i8, d16 i16, d32 i32, d64 i64, d128 i128, dsz isize }
/// Bezout in 128 bits: the combination is compared modulo 2^128 and modulo a prime.
fn bezout_wide(a: i128, b: i128, st: &mut Stats) -> Check {
    let (g, s, t) = bezout_identity(a, b);
    st.step();
    ensure!(g == igcd(a, b), "bezout gives gcd {g}, expected {}", igcd(a, b));
    let p = (1i128 << 61) - 1;
    let m = |x: i128, y: i128| (x.rem_euclid(p) * y.rem_euclid(p)) % p;
    ensure!(s.wrapping_mul(a).wrapping_add(t.wrapping_mul(b)) == g && (m(s, a) + m(t, b) - g.rem_euclid(p)) % p == 0, "bezout gives ({g}, {s}, {t}) but s*a+t*b != g");
    Ok(())
}

fn prime_ref(n: i64) -> bool { let n = n.abs(); n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0) }
fn omega_ref(n: i64) -> usize { let mut n = n.abs(); let mut c = 0; let mut d = 2; while n > 1 && d * d <= n { while n % d == 0 { n /= d; c += 1; } d += 1; } if n > 1 { c + 1 } else { c } }
macro_rules! unary_checks { ($($f:ident $t:ty),*) => { $(
    fn $f(a: i64, st: &mut Stats) -> Check {
        let x = a as $t;
        st.steps(3);
        ensure!(x.is_prime() == prime_ref(a), "is_prime = {}", x.is_prime());
        if a != 0 { ensure!(x.n_prime_factors() == omega_ref(a), "n_prime_factors = {}, expected {}", x.n_prime_factors(), omega_ref(a)); }
        let (u, m) = x.simplify();
        ensure!((u == 1 || u == -1) && m >= 0 && u * m == x, "simplify = ({u}, {m})");
        ensure!(<$t>::symbol() == "Z" && <$t>::zero() == 0 && <$t>::one() == 1, "constants");
        st.outcome((x.is_prime(), x.n_prime_factors()));
        Ok(())
    }
)* } }
unary_checks! { u8_ i8, u16_ i16, u32_ i32, u64_ i64, u128_ i128, usz_ isize }

pub fn c04(t: Tier) -> Spaces {
    let r = t.pick(2000i64, 8000);
    let w = (2 * r + 1) as u64;
    let mut big: Vec<i64> = Vec::new();
    for e in [8, 15, 16, 20, 31, 32, 40, 61] { for d in [-3i64, -1, 0, 1, 6] { big.push((1i64 << e) + d); big.push(-((1i64 << e) + d)); } }
    // consecutive Fibonacci numbers: the longest runs of the algorithm
    let mut f = (1i64, 1i64);
    while f.1 < 1 << 60 { f = (f.1, f.0 + f.1); if f.1 > 1000 { big.push(f.1); big.push(-f.1); } }
    for s in [0, 1, -1, 2, 3, -12, 720720, -30030] { big.push(s); }
    big.sort_by_key(|x| (x.abs(), *x)); big.dedup();
    let bn = big.len() as u64;
    let pr = t.pick(1000i64, 2500);
    // the ends of the types
    let mut ends: Vec<i128> = (0..=12).flat_map(|s| [s, -s]).collect();
    for e in [7, 8, 14, 15, 16, 24, 30, 31, 32, 33, 53, 62, 63, 64, 65, 95, 126] { for d in [-2, -1, 0, 1, 2] { ends.push((1i128 << e) + d); ends.push(-(1i128 << e) + d); } }
    for d in 0..3 { ends.push(i128::MAX - d); ends.push(i128::MIN + d); ends.push(i128::MAX / (d + 3)); ends.push(i128::MIN / (d + 3)); }
    ends.sort_by_key(|x| (x.unsigned_abs(), *x)); ends.dedup();
    let en = ends.len() as u64;
    let mut wide: Vec<i128> = vec![0, 1, -1, 2, 3, -12, 720720, -30030];
    for e in [32, 61, 63, 64, 65, 80, 100, 120] { for d in [-3i128, -1, 0, 1, 6] { wide.push((1i128 << e) + d); wide.push(-((1i128 << e) + d)); } }
    let mut f = (1i128, 1i128);
    while f.1 < 1 << 120 { f = (f.1, f.0 + f.1); if f.1 > 1 << 58 { wide.push(f.1); wide.push(-f.1); } }
    for k in 1..6 { wide.push(3i128.pow(37 + k) * 1024); wide.push(-(6i128.pow(30 + k))); }
    let wn = wide.len() as u64;
    // primes, squares and products of primes, numbers that look like primes, powers
    let mut ps: Vec<i64> = vec![561, 1105, 1729, 2047, 2465, 2821, 6601, 8911, 1024, 4096, 32768, 59049, 30030, 65537, 65521, 9409, 10201, 10403, 11449, 16129, 16637, 66049, 63001, 27644437, 1000003, 1018081, 2097143, 4194304, 9999991, 9998244, 1008001, 994009];
    for (p, q) in [(127, 131), (181, 181), (179, 181), (251, 257), (1009, 1013), (2, 1000003), (3163, 3163), (4093, 4099)] { ps.push(p * q); }
    if t == Tier::Thorough { ps.extend([2147483647, 46337 * 46337, 46337 * 46327, 2147483629]); }
    vec![
        space("division at the ends of the types", "all pairs over numbers at most 12, and next to powers of two and ends of every integer type, in all types that hold both", en * en,
            move |i| Some((ends[(i / en) as usize], ends[(i % en) as usize])),
            |&(a, b), st| {
                if let (Ok(a), Ok(b)) = (i8::try_from(a), i8::try_from(b)) { d8(a, b, st)?; }
                if let (Ok(a), Ok(b)) = (i16::try_from(a), i16::try_from(b)) { d16(a, b, st)?; }
                if let (Ok(a), Ok(b)) = (i32::try_from(a), i32::try_from(b)) { d32(a, b, st)?; }
                if let (Ok(a), Ok(b)) = (i64::try_from(a), i64::try_from(b)) { d64(a, b, st)?; dsz(a as isize, b as isize, st)?; }
                d128(a, b, st)
            }),
        space("division in i8", "all pairs", 1 << 16, |i| Some(((i >> 8) as u8 as i8, i as u8 as i8)), |&(a, b), st| d8(a, b, st)),
        space("Bezout beyond 64 bits", "all pairs over numbers near powers of two up to 2^120, Fibonacci numbers and others, both signs", wn * wn,
            move |i| Some((wide[(i / wn) as usize], wide[(i % wn) as usize])), |&(a, b), st| bezout_wide(a, b, st)),
        list("larger primes and composites", "primes, pseudoprimes, squares and products of two primes and powers up to 10^7 (thorough: 2^31), in every type that holds them", ps, |&a, st| {
            if a < 1 << 15 { u16_(a, st)?; u16_(-a, st)?; }
            if a < 1 << 24 { u64_(a, st)?; u128_(a, st)?; u32_(-a, st)?; }
            u32_(a, st)
        }),
        space("division, divisibility and Bezout in every integer type", "all pairs (n,d) with |n|,|d| <= 127 (60 in i8) in i8,i16,i32,i64,i128,isize", 255 * 255,
            |i| Some(((i / 255) as i64 - 127, (i % 255) as i64 - 127)),
            |&(a, b), st| { if a.abs() <= 60 && b.abs() <= 60 { e8(a, b, st)?; } e16(a, b, st)?; e32(a, b, st)?; e64(a, b, st)?; e128(a, b, st)?; esz(a, b, st) }),
        space("division, divisibility and Bezout, wider range", &format!("all pairs of i64 (n,d) with |n|,|d| <= {r}"), w * w,
            move |i| Some(((i / w) as i64 - r, (i % w) as i64 - r)), |&(a, b), st| e64(a, b, st)),
        space("division, divisibility and Bezout, large magnitudes", "all pairs over numbers near powers of two up to 2^61 and Fibonacci numbers up to 2^60, both signs", bn * bn,
            move |i| Some((big[(i / bn) as usize], big[(i % bn) as usize])), |&(a, b), st| { e64(a, b, st)?; e128(a, b, st) }),
        space("primality, prime factor count, unit normalisation", &format!("all integers |n| <= {pr} (i8 up to 127) in every integer type"), 2 * pr as u64 + 1,
            move |i| Some(i as i64 - pr),
            |&a, st| { if a.abs() < 127 { u8_(a, st)?; } u16_(a, st)?; u32_(a, st)?; u64_(a, st)?; u128_(a, st)?; usz_(a, st) }),
    ]
}
