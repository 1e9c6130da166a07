//! C26: values of functions built from coordinates.  C27: their derivatives.
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{One, Zero};
use alg::lin_alg::Matrix;
use analysis::{AtomicSmoothFn as F, AtomicSmoothFnBuilder, Function, MultiVarFn};
use std::fmt;

// ---------------------------------------------------------------- reference: jets of second order in three variables
const N: usize = 3;
/// Value, gradient and Hessian at a point, and the largest number met on the way.
#[derive(Clone, Copy, Debug)]
struct Jet { v: f64, g: [f64; N], h: [[f64; N]; N], top: f64, ok: bool }
impl Jet {
    fn constant(v: f64) -> Jet { Jet { v, g: [0.0; N], h: [[0.0; N]; N], top: v.abs(), ok: true } }
    fn coordinate(v: f64, i: usize) -> Jet { let mut j = Jet::constant(v); j.g[i] = 1.0; j }
    fn done(mut self, a: &[&Jet]) -> Jet {
        for x in [self.v].iter().chain(&self.g).chain(self.h.iter().flatten()) { self.top = self.top.max(x.abs()); self.ok &= x.is_finite(); }
        for b in a { self.top = self.top.max(b.top); self.ok &= b.ok; }
        self.ok &= self.top < 1e5;
        self
    }
    fn combine(a: &Jet, x: f64, b: &Jet, y: f64) -> Jet {
        let mut o = Jet::constant(x * a.v + y * b.v);
        for i in 0..N { o.g[i] = x * a.g[i] + y * b.g[i]; for j in 0..N { o.h[i][j] = x * a.h[i][j] + y * b.h[i][j]; } }
        o.done(&[a, b])
    }
    fn times(&self, b: &Jet) -> Jet {
        let mut o = Jet::constant(self.v * b.v);
        for i in 0..N {
            o.g[i] = self.g[i] * b.v + self.v * b.g[i];
            for j in 0..N { o.h[i][j] = self.h[i][j] * b.v + self.g[i] * b.g[j] + self.g[j] * b.g[i] + self.v * b.h[i][j]; }
        }
        o.done(&[self, b])
    }
    /// Composition with a function of one variable with the given value and derivatives.
    fn then(&self, f: f64, d: f64, dd: f64) -> Jet {
        let mut o = Jet::constant(f);
        for i in 0..N { o.g[i] = d * self.g[i]; for j in 0..N { o.h[i][j] = d * self.h[i][j] + dd * self.g[i] * self.g[j]; } }
        o.top = d.abs().max(dd.abs()).max(f.abs());
        o.done(&[self])
    }
    fn power(&self, a: f64, integer: bool) -> Jet {
        let p = |e: f64| if e == 0.0 { 1.0 } else { self.v.powf(e) };
        let mut o = self.then(p(a), if a == 0.0 { 0.0 } else { a * p(a - 1.0) }, if a == 0.0 || a == 1.0 { 0.0 } else { a * (a - 1.0) * p(a - 2.0) });
        // away from where a power or one of its derivatives is not defined
        if integer && a >= 0.0 { return o; }
        o.ok &= self.v.abs() > 1e-3 && (self.v > 0.0 || a.fract() == 0.0);
        o
    }
}

// ---------------------------------------------------------------- expressions
#[derive(Clone, Copy, PartialEq, Debug)]
enum U { Neg, Sin, Cos, Powi(i32), Powf(f64), Times(f64), Over(f64) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum B { Add, Sub, Mul, Div }
#[derive(Clone, PartialEq)]
enum Ex { Zero, One, X(usize), Un(U, Box<Ex>), Bin(B, Box<Ex>, Box<Ex>) }
impl fmt::Debug for Ex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Ex::Zero => write!(f, "zero"), Ex::One => write!(f, "one"), Ex::X(i) => write!(f, "x{i}"),
            Ex::Un(u, e) => match u { U::Neg => write!(f, "-{e:?}"), U::Sin => write!(f, "sin {e:?}"), U::Cos => write!(f, "cos {e:?}"), U::Powi(k) => write!(f, "powi({e:?}, {k})"), U::Powf(a) => write!(f, "powf({e:?}, {a:?})"), U::Times(a) => write!(f, "({e:?} * {a:?})"), U::Over(a) => write!(f, "({e:?} / {a:?})") },
            Ex::Bin(b, x, y) => write!(f, "({x:?} {} {y:?})", match b { B::Add => "+", B::Sub => "-", B::Mul => "*", B::Div => "/" }),
        }
    }
}
fn build(e: &Ex) -> F {
    match e {
        Ex::Zero => F::zero(), Ex::One => F::one(), Ex::X(i) => F::Projection(*i),
        Ex::Un(u, e) => unary(*u, build(e)),
        Ex::Bin(b, x, y) => { let (x, y) = (build(x), build(y)); match b { B::Add => x + y, B::Sub => x - y, B::Mul => x * y, B::Div => x / y } }
    }
}
fn unary(u: U, f: F) -> F { match u { U::Neg => -f, U::Sin => f.sin(), U::Cos => f.cos(), U::Powi(k) => f.powi(k), U::Powf(a) => f.powf(a), U::Times(a) => f * a, U::Over(a) => f / a } }
fn jet(e: &Ex, p: &[f64; N]) -> Jet {
    match e {
        Ex::Zero => Jet::constant(0.0), Ex::One => Jet::constant(1.0), Ex::X(i) => Jet::coordinate(p[*i], *i),
        Ex::Un(u, e) => jet_unary(*u, &jet(e, p)),
        Ex::Bin(b, x, y) => jet_binary(*b, &jet(x, p), &jet(y, p)),
    }
}
fn jet_unary(u: U, j: &Jet) -> Jet {
    match u {
        U::Neg => Jet::combine(j, -1.0, j, 0.0), U::Times(a) => Jet::combine(j, a, j, 0.0), U::Over(a) => Jet::combine(j, 1.0 / a, j, 0.0),
        U::Sin => j.then(j.v.sin(), j.v.cos(), -j.v.sin()), U::Cos => j.then(j.v.cos(), -j.v.sin(), -j.v.cos()),
        U::Powi(k) => j.power(k as f64, true), U::Powf(a) => j.power(a, false),
    }
}
fn jet_binary(b: B, x: &Jet, y: &Jet) -> Jet {
    match b { B::Add => Jet::combine(x, 1.0, y, 1.0), B::Sub => Jet::combine(x, 1.0, y, -1.0), B::Mul => x.times(y), B::Div => x.times(&y.power(-1.0, true)) }
}
const POINTS: [[f64; N]; 5] = [[0.7, 1.3, 0.9], [-1.1, 0.4, 1.7], [2.0, -0.5, -0.3], [0.0, 1.0, -1.0], [1.0, 0.0, 0.0]];
fn column(p: &[f64; N]) -> Matrix<f64> { Matrix::from_array(p.iter().map(|x| vec![*x]).collect()) }
fn close(a: f64, b: f64, j: &Jet) -> bool { (a - b).abs() <= 1e-8 * j.top.max(1.0) }
// ---------------------------------------------------------------- printed functions, read as expressions
/// sums of `a`, `a·b`, `(a)·b` and `-b`; products by juxtaposition; powers `b^e`, from the left.
struct Reader<'a> { s: &'a [u8], i: usize, x: &'a [f64] }
impl Reader<'_> {
    fn peek(&mut self) -> u8 { while self.s.get(self.i) == Some(&b' ') { self.i += 1; } *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool { self.peek(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn need(&mut self, t: &str) -> Result<(), String> { if self.eat(t) { Ok(()) } else { Err(format!("{t} expected at byte {}", self.i)) } }
    fn number(&mut self) -> Result<f64, String> {
        self.peek();
        let a = self.i;
        if self.s.get(self.i) == Some(&b'-') { self.i += 1; }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') { self.i += 1; }
        std::str::from_utf8(&self.s[a..self.i]).unwrap().parse().map_err(|_| format!("a number expected at byte {a}"))
    }
    fn sum(&mut self) -> Result<f64, String> {
        let mut v = self.term()?;
        loop { if self.eat("+") { v += self.term()? } else if self.eat("-") { v -= self.term()? } else { return Ok(v) } }
    }
    fn term(&mut self) -> Result<f64, String> {
        let neg = self.peek() == b'-' && !self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit());
        if neg { self.i += 1; }
        let mut v = self.power()?;
        loop {
            if self.eat("·") { v *= self.power()?; continue; }
            match self.peek() { b'x' | b's' | b'c' | b'(' | b'0'..=b'9' => v *= self.power()?, _ => return Ok(if neg { -v } else { v }) }
        }
    }
    fn power(&mut self) -> Result<f64, String> {
        let mut v = self.atom()?;
        while self.eat("^") { let e = self.number()?; v = if e == 0.0 { 1.0 } else if e.fract() == 0.0 { v.powi(e as i32) } else { v.powf(e) }; }
        Ok(v)
    }
    fn atom(&mut self) -> Result<f64, String> {
        if self.eat("x[") { let i = self.number()? as usize; self.need("]")?; return self.x.get(i).copied().ok_or(format!("coordinate {i}")); }
        let f: fn(f64) -> f64 = if self.eat("sin") { f64::sin } else if self.eat("cos") { f64::cos } else if self.peek() == b'(' { |v| v } else { return self.number() };
        self.need("(")?;
        let v = self.sum()?;
        self.need(")")?;
        Ok(f(v))
    }
}
fn read(s: &str, x: &[f64]) -> Result<f64, String> {
    let mut r = Reader { s: s.as_bytes(), i: 0, x };
    let v = r.sum()?;
    if r.peek() == 0 { Ok(v) } else { Err(format!("cannot be read from byte {}", r.i)) }
}
fn values(f: &F, jets: &[Jet], st: &mut Stats) -> Check {
    let text = f.to_string();
    for (p, j) in POINTS.iter().zip(jets) {
        if !j.ok { continue; }
        let got = f.eval(&column(p));
        ensure!(close(got, j.v, j), "the value at {p:?} is {got}, should be {} ({f:?})", j.v);
        let read = read(&text, p).map_err(|e| format!("printed as {text:?}: {e}"))?;
        ensure!(close(read, j.v, j), "printed as {text:?}, which is {read} at {p:?}, should be {}", j.v);
        st.step();
    }
    Ok(())
}
fn derivatives(f: &F, jets: &[Jet], st: &mut Stats) -> Check {
    let m = f.clone().jacobian(N);
    ensure!(m.size() == (1, N), "the Jacobian has size {:?}", m.size());
    for i in 0..N {
        let d = f.clone().partial_derivative(i);
        ensure!(m[(0, i)] == d, "entry {i} of the Jacobian is {:?}, the derivative is {d:?}", m[(0, i)]);
        for (p, j) in POINTS.iter().zip(jets) {
            if !j.ok { continue; }
            let got = d.eval(&column(p));
            ensure!(close(got, j.g[i], j), "the derivative by coordinate {i} at {p:?} is {got}, should be {} ({d:?})", j.g[i]);
            st.step();
        }
        for k in 0..N {
            let dd = d.clone().partial_derivative(k);
            for (p, j) in POINTS.iter().zip(jets) {
                if !j.ok { continue; }
                let got = dd.eval(&column(p));
                ensure!(close(got, j.h[i][k], j), "the second derivative by coordinates {i} and {k} at {p:?} is {got}, should be {} ({dd:?})", j.h[i][k]);
                st.step();
            }
        }
    }
    Ok(())
}
fn rough(j: &[Jet]) -> Vec<i64> { j.iter().map(|j| if j.ok { (j.v * 1e4) as i64 } else { i64::MAX }).collect() }
fn expression(e: &Ex, deriv: bool, st: &mut Stats) -> Check {
    let jets: Vec<Jet> = POINTS.iter().map(|p| jet(e, p)).collect();
    let f = build(e);
    if deriv { derivatives(&f, &jets, st)?; } else { values(&f, &jets, st)?; }
    st.outcome(rough(&jets));
    Ok(())
}
const UNARY: [U; 19] = [U::Neg, U::Sin, U::Cos, U::Powi(2), U::Powi(-1), U::Powi(3), U::Powi(0), U::Powi(1), U::Powi(-2), U::Powf(0.5), U::Powf(2.0), U::Powf(-1.5), U::Powf(1.0), U::Powf(0.0), U::Times(2.0), U::Times(0.0), U::Times(-1.0), U::Times(1.0), U::Over(-4.0)];
const BINARY: [B; 4] = [B::Add, B::Sub, B::Mul, B::Div];
/// Expressions of the next depth: one operation applied to the given ones.
fn apply_unary(k: u64, inner: &[Ex]) -> Ex { let n = inner.len() as u64; Ex::Un(UNARY[(k / n) as usize], Box::new(inner[(k % n) as usize].clone())) }
fn apply_binary(k: u64, a: &[Ex], b: &[Ex]) -> Ex { let (n, m) = (a.len() as u64, b.len() as u64); Ex::Bin(BINARY[(k / (n * m)) as usize], Box::new(a[(k / m % n) as usize].clone()), Box::new(b[(k % m) as usize].clone())) }
fn leaves() -> Vec<Ex> { vec![Ex::X(0), Ex::X(1), Ex::One, Ex::Zero] }
fn next(inner: &[Ex]) -> Vec<Ex> {
    let n = inner.len() as u64;
    inner.iter().cloned().chain((0..n * UNARY.len() as u64).map(|k| apply_unary(k, inner))).chain((0..4 * n * n).map(|k| apply_binary(k, inner, inner))).collect()
}
fn of_list(w: &[Ex], deriv: bool, st: &mut Stats) -> Check {
    for add in [true, false] {
        let f: F = if add { w.iter().map(build).sum() } else { w.iter().map(build).product() };
        let jets: Vec<Jet> = POINTS.iter().map(|p| w.iter().fold(Jet::constant(if add { 0.0 } else { 1.0 }), |a, e| jet_binary(if add { B::Add } else { B::Mul }, &a, &jet(e, p)))).collect();
        (if deriv { derivatives(&f, &jets, st) } else { values(&f, &jets, st) }).map_err(|x| format!("{}: {x}", if add { "sum" } else { "product" }))?;
        st.outcome(rough(&jets));
    }
    Ok(())
}
fn trees(v: &mut Spaces, t: Tier, deriv: bool) {
    let l0 = leaves();
    let l1 = next(&l0);
    let n1 = l1.len() as u64;
    let what = if deriv { "first and second derivatives" } else { "values" };
    let a = l1.clone();
    v.push(space("depth-2", &format!("{what} of all expressions of depth at most 2 over two coordinates, the constants 0 and 1, 19 unary and 4 binary operations"), n1 + n1 * 19 + 4 * n1 * n1,
        move |i| Some(if i < n1 { a[i as usize].clone() } else if i < n1 * 20 { apply_unary(i - n1, &a) } else { apply_binary(i - n1 * 20, &a, &a) }), move |e, st| expression(e, deriv, st)));
    // depth 3: an operation on an expression of depth 2 and a coordinate or constant, or a unary operation on depth 2
    let l2: Vec<Ex> = if t.pick(true, false) { l1.iter().flat_map(|e| [Ex::Un(U::Sin, Box::new(e.clone())), Ex::Un(U::Powi(2), Box::new(e.clone())), Ex::Un(U::Neg, Box::new(e.clone())), Ex::Un(U::Times(2.0), Box::new(e.clone())), Ex::Bin(B::Mul, Box::new(e.clone()), Box::new(Ex::X(0))), Ex::Bin(B::Add, Box::new(Ex::X(1)), Box::new(e.clone())), Ex::Bin(B::Sub, Box::new(e.clone()), Box::new(Ex::X(0)))]).collect() } else { next(&l1) };
    let n2 = l2.len() as u64;
    let b = vec![Ex::X(0), Ex::X(1)];
    v.push(space("depth-3", &format!("{what} of unary operations on, and binary operations with a coordinate on either side of, {} expressions of depth 2", if t.pick(true, false) { "some" } else { "all" }), n2 * 19 + 2 * 4 * 2 * n2,
        move |i| Some(if i < n2 * 19 { apply_unary(i, &l2) } else if i < n2 * 27 { apply_binary(i - n2 * 19, &l2, &b) } else { apply_binary(i - n2 * 27, &b, &l2) }), move |e, st| expression(e, deriv, st)));
    // two expressions that are themselves sums, products or powers of three coordinates
    let mut pool: Vec<Ex> = vec![Ex::X(0), Ex::X(1), Ex::X(2), Ex::One, Ex::Zero];
    let x = |i: usize| Box::new(Ex::X(i));
    for (i, j) in [(0, 1), (1, 0), (0, 2), (1, 2), (0, 0)] { for b in BINARY { pool.push(Ex::Bin(b, x(i), x(j))); } }
    for i in 0..3 { for u in [U::Sin, U::Cos, U::Powi(2), U::Powi(-1), U::Powf(0.5), U::Times(3.0), U::Neg] { pool.push(Ex::Un(u, x(i))); } }
    let base = pool.clone();
    for e in &base[5..25] { pool.push(Ex::Un(U::Times(2.0), Box::new(e.clone()))); pool.push(Ex::Bin(B::Add, Box::new(e.clone()), Box::new(Ex::One))); pool.push(Ex::Un(U::Sin, Box::new(e.clone()))); pool.push(Ex::Un(U::Powi(2), Box::new(e.clone()))); pool.push(Ex::Bin(B::Mul, Box::new(e.clone()), x(2))); }
    let n = pool.len() as u64;
    v.push(space("pairs", &format!("{what} of all binary operations on two of {n} functions of three coordinates"), 4 * n * n, { let p = pool.clone(); move |i| Some(apply_binary(i, &p, &p)) }, move |e, st| expression(e, deriv, st)));
    let small: Vec<Ex> = base[..t.pick(34, 46)].to_vec();
    let m = small.len() as u64;
    v.push(space("triples", &format!("{what} of all combinations (a op b) op c and a op (b op c) of {m} functions"), 2 * 16 * m * m * m, move |i| {
        let (side, i) = (i % 2, i / 2);
        let d: Vec<usize> = digits(i, &[4, 4, m, m, m])?.into_iter().map(|x| x as usize).collect();
        let (o, q) = (BINARY[d[0]], BINARY[d[1]]);
        let g = |k: usize| Box::new(small[d[k]].clone());
        Some(if side == 0 { Ex::Bin(q, Box::new(Ex::Bin(o, g(2), g(3))), g(4)) } else { Ex::Bin(q, g(2), Box::new(Ex::Bin(o, g(3), g(4)))) })
    }, move |e, st| expression(e, deriv, st)));
    // histories of assignments to one function
    let ops: Vec<(Option<B>, Option<U>, Ex)> = {
        let mut o = vec![];
        for b in BINARY { for e in [Ex::X(0), Ex::X(1), Ex::One, Ex::Bin(B::Add, x(0), x(1)), Ex::Bin(B::Mul, x(0), x(1)), Ex::Un(U::Times(2.0), x(0))] { o.push((Some(b), None, e)); } }
        for u in [U::Neg, U::Sin, U::Powi(2), U::Powi(-1), U::Times(2.0), U::Over(2.0)] { o.push((None, Some(u), Ex::Zero)); }
        o
    };
    let (k, l) = (ops.len() as u64, t.pick(if deriv { 3 } else { 4 }, 5));
    v.push(space("histories", &format!("{what} after every history of {l} steps, each one of {k} assignments (+= -= *= /= with one of 6 functions) or unary operations, starting from 0"), pw(k, l),
        move |i| Some(word(i, l, &ops)), move |h: &Vec<(Option<B>, Option<U>, Ex)>, st| {
            let mut f = F::zero();
            let mut jets: Vec<Jet> = POINTS.iter().map(|_| Jet::constant(0.0)).collect();
            for (b, u, e) in h {
                if let Some(b) = b {
                    let g = build(e);
                    match b { B::Add => f += g, B::Sub => f -= g, B::Mul => f *= g, B::Div => f /= g }
                    for (j, p) in jets.iter_mut().zip(&POINTS) { *j = jet_binary(*b, j, &jet(e, p)); }
                }
                if let Some(u) = u { f = unary(*u, f); for j in jets.iter_mut() { *j = jet_unary(*u, j); } }
            }
            if deriv { derivatives(&f, &jets, st)?; } else { values(&f, &jets, st)?; }
            st.outcome(rough(&jets));
            Ok(())
        }));
    // chains of unary operations
    let chain = [U::Sin, U::Cos, U::Powi(2), U::Powi(-1), U::Powf(0.5), U::Times(-2.0), U::Over(3.0), U::Neg];
    let l = t.pick(if deriv { 5 } else { 6 }, if deriv { 6 } else { 8 });
    v.push(space("chains", &format!("{what} of all chains of {l} out of {} unary operations on x0, x0 + x1 and x0 * x1", chain.len()), 3 * pw(chain.len() as u64, l),
        move |i| { let inner = match i % 3 { 0 => Ex::X(0), 1 => Ex::Bin(B::Add, Box::new(Ex::X(0)), Box::new(Ex::X(1))), _ => Ex::Bin(B::Mul, Box::new(Ex::X(0)), Box::new(Ex::X(1))) }; Some(word(i / 3, l, &chain).into_iter().fold(inner, |e, u| Ex::Un(u, Box::new(e)))) },
        move |e, st| expression(e, deriv, st)));
    // all exponents and factors
    let ops: Vec<U> = (-9..=9).map(U::Powi).chain((-24..=24).map(|k| U::Powf(k as f64 / 8.0))).chain((-16..=16).map(|k| U::Times(k as f64 / 4.0))).chain((1..=16).flat_map(|k| [U::Over(k as f64 / 4.0), U::Over(-k as f64 / 4.0)])).collect();
    let inner = vec![Ex::X(0), Ex::X(2), Ex::One, Ex::Zero, Ex::Bin(B::Add, x(0), x(1)), Ex::Bin(B::Mul, x(1), x(2)), Ex::Bin(B::Div, x(1), x(2)), Ex::Un(U::Sin, x(0)), Ex::Un(U::Cos, x(1)), Ex::Un(U::Times(-2.0), x(0)), Ex::Un(U::Powi(2), x(1)), Ex::Un(U::Powf(0.5), x(0)), Ex::Un(U::Powi(-3), x(2))];
    let (no, ni) = (ops.len() as u64, inner.len() as u64);
    v.push(space("numbers", &format!("{what} of two operations in a row out of {no} (powers -9 to 9, real powers and factors and divisors in steps of 1/8 and 1/4) on {ni} functions"), no * no * ni,
        move |i| { let e = Ex::Un(ops[(i / ni % no) as usize], Box::new(inner[(i % ni) as usize].clone())); Some(Ex::Un(ops[(i / ni / no) as usize], Box::new(e))) }, move |e, st| expression(e, deriv, st)));
    // sums and products of lists
    let items: Vec<Ex> = vec![Ex::X(0), Ex::X(1), Ex::One, Ex::Zero, Ex::Bin(B::Add, x(0), x(1)), Ex::Bin(B::Mul, x(0), x(1)), Ex::Un(U::Times(2.0), x(0)), Ex::Un(U::Powi(-1), x(0)), Ex::Un(U::Neg, x(1)), Ex::Un(U::Sin, x(0)), Ex::Bin(B::Sub, x(0), x(0))];
    let items2 = items.clone();
    let k = items.len() as u64;
    let l = t.pick(5, 6);
    v.push(space("lists", &format!("{what} of the sum and the product of every list of up to {l} of {k} functions"), (0..=l).map(|i| pw(k, i)).sum(),
        move |mut i| { for m in 0..=l { let c = pw(k, m); if i < c { return Some(word(i, m, &items)); } i -= c; } None },
        move |w: &Vec<Ex>, st| of_list(w, deriv, st)));
    let long = t.pick(26u64, 40);
    v.push(space("long lists", &format!("{what} of the sum and the product of lists of 6 to {long} functions, taken in steps of 1 to 10 from any start out of {k}"), (long - 5) * 10 * k,
        move |i| { let d = digits(i, &[k, 10, long - 5])?; Some((0..d[2] + 6).map(|j| items2[((d[0] + j * (d[1] + 1)) % k) as usize].clone()).collect::<Vec<_>>()) },
        move |w: &Vec<Ex>, st| of_list(w, deriv, st)));
}
/// The same expressions written with the coordinates handed out by the builders.
macro_rules! written { ($x: ident: $($e: expr, $f: expr;)*) => { vec![$((stringify!($e), AtomicSmoothFnBuilder::new(3).set(|f, $x| { *f = $e; }), (|$x: &[Jet; 3]| $f) as fn(&[Jet; 3]) -> Jet)),*] } }
fn by_builder() -> Vec<(&'static str, F, fn(&[Jet; 3]) -> Jet)> {
    fn b(o: B, x: &Jet, y: &Jet) -> Jet { jet_binary(o, x, y) }
    fn u(o: U, x: &Jet) -> Jet { jet_unary(o, x) }
    written! { x:
        x[0] + x[1], b(B::Add, &x[0], &x[1]);
        x[0] - x[1], b(B::Sub, &x[0], &x[1]);
        x[0] * x[1], b(B::Mul, &x[0], &x[1]);
        x[0] / x[1], b(B::Div, &x[0], &x[1]);
        x[2] + x[1] * x[0], b(B::Add, &x[2], &b(B::Mul, &x[1], &x[0]));
        x[2] - x[1] * x[0], b(B::Sub, &x[2], &b(B::Mul, &x[1], &x[0]));
        x[2] * (x[1] - x[0]), b(B::Mul, &x[2], &b(B::Sub, &x[1], &x[0]));
        x[2] / (x[1] - x[0]), b(B::Div, &x[2], &b(B::Sub, &x[1], &x[0]));
        x[1] * x[0] + x[2], b(B::Add, &x[2], &b(B::Mul, &x[1], &x[0]));
        x[1] * x[0] - x[2], b(B::Sub, &b(B::Mul, &x[1], &x[0]), &x[2]);
        (x[1] - x[0]) * x[2], b(B::Mul, &x[2], &b(B::Sub, &x[1], &x[0]));
        (x[1] - x[0]) / x[2], b(B::Div, &b(B::Sub, &x[1], &x[0]), &x[2]);
        x[0].sin(), u(U::Sin, &x[0]);
        x[1].cos(), u(U::Cos, &x[1]);
        x[2].powi(3), u(U::Powi(3), &x[2]);
        x[2].powi(0), u(U::Powi(0), &x[2]);
        x[0].powf(2.5), u(U::Powf(2.5), &x[0]);
        x[0] * 2.5, u(U::Times(2.5), &x[0]);
        x[0] / 2.5, u(U::Over(2.5), &x[0]);
        x[0] * 0.0, u(U::Times(0.0), &x[0]);
        -x[0].sin() * x[1].powi(3) + x[0] * x[2], b(B::Add, &b(B::Mul, &u(U::Neg, &u(U::Sin, &x[0])), &u(U::Powi(3), &x[1])), &b(B::Mul, &x[0], &x[2]));
    }
}
fn multi(es: &[Ex], deriv: bool, st: &mut Stats) -> Check {
    let m = es.len();
    let f = MultiVarFn::new((m, N)).set(|i, f, _| *f = build(&es[i]));
    let jets: Vec<Vec<Jet>> = POINTS.iter().map(|p| es.iter().map(|e| jet(e, p)).collect()).collect();
    for (i, e) in es.iter().enumerate() { ensure!(f[i] == build(e), "component {i} is {:?}, should be {:?}", f[i], build(e)); }
    let sparse = if deriv { Some(f.clone().jacobian()) } else { None };
    if let Some(s) = &sparse { ensure!(s.size() == (m, N), "the Jacobian has size {:?}, should be {:?}", s.size(), (m, N)); }
    for (p, js) in POINTS.iter().zip(&jets) {
        if js.iter().any(|j| !j.ok) { continue; }
        let x = column(p);
        if let Some(s) = &sparse {
            let got = s.eval(&x);
            ensure!(got.size() == (m, N), "the value of the Jacobian has size {:?}", got.size());
            for i in 0..m {
                let row: Vec<(usize, f64)> = got.row_iter(i).map(|(j, x)| (j, *x)).collect();
                for k in 0..N {
                    let g = row.iter().filter(|(j, _)| *j == k).map(|x| x.1).sum::<f64>();
                    ensure!(close(g, js[i].g[k], &js[i]), "entry {i}, {k} of the Jacobian at {p:?} is {g}, should be {}", js[i].g[k]);
                    st.step();
                }
            }
            // the dense matrix of functions
            let d: Matrix<F> = f[0].clone().jacobian(N);
            let got = d.eval(&x);
            ensure!(got.size() == (1, N) && (0..N).all(|k| close(got[(0, k)], js[0].g[k], &js[0])), "the dense Jacobian of component 0 at {p:?} is {got:?}, should be {:?}", js[0].g);
        } else {
            let got = f.eval(&x);
            ensure!(got.size() == (m, 1), "the value has size {:?}, should be {:?}", got.size(), (m, 1));
            let lines: String = (0..m).map(|i| format!("f[{i}] = {},\n", f[i])).collect();
            ensure!(f.to_string() == lines, "printed as {:?}, should be {lines:?}", f.to_string());
            for i in 0..m { ensure!(close(got[(i, 0)], js[i].v, &js[i]), "component {i} at {p:?} is {}, should be {}", got[(i, 0)], js[i].v); st.step(); }
        }
    }
    st.outcome(jets.iter().map(|j| rough(j)).collect::<Vec<_>>());
    Ok(())
}
fn both(t: Tier, deriv: bool) -> Spaces {
    let mut v: Spaces = Vec::new();
    trees(&mut v, t, deriv);
    let n = by_builder().len() as u64;
    v.push(space("coordinates", "functions written with the coordinates of a builder, all operators between coordinates and functions", n, |i| Some(by_builder()[i as usize].0), move |name: &&str, st| {
        let (_, f, g) = by_builder().into_iter().find(|x| x.0 == *name).unwrap();
        let jets: Vec<Jet> = POINTS.iter().map(|p| g(&[0, 1, 2].map(|i| Jet::coordinate(p[i], i)))).collect();
        st.outcome(rough(&jets));
        if deriv { derivatives(&f, &jets, st) } else { values(&f, &jets, st) }
    }));
    let top = t.pick(30u64, 48);
    v.push(space("many coordinates", &format!("sums, products, quotients, squares, neighbouring products, nested sines, mixed and scaled sums, scaled cubes of products, and norms of 1 to {top} coordinates, alone and in a map with twice each coordinate"), top * 12, |i| Some((i as usize / 12 + 1, i as usize % 12)), move |&(n, k), st| many(n, k, deriv, st)));
    let exps: Vec<i32> = [2i32, 3, 5, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 99999].iter().flat_map(|&e| [e, -e]).collect();
    let ne = exps.len() as u64;
    v.push(space("large powers", &format!("powers, products of two powers, quotients of two powers and powers of powers with exponents in +-{{2, 3, 5, .., 99999}} ({ne} of them) of four functions with values near 1 and -1"), ne * ne * 4 * 4,
        move |i| { let d = digits(i, &[4, 4, ne, ne])?; Some((d[0] as usize, d[1] as usize, exps[d[2] as usize], exps[d[3] as usize])) },
        move |&(b, form, m, n), st| large_power(b, form, m, n, deriv, st)));
    v.push(space("scales", "15 homogeneous functions at points and with factors from 2^-400 to 2^400", 15 * 17 * 17,
        |i| { let d = digits(i, &[15, 17, 17])?; Some((d[0] as usize, (d[1] as i32 - 8) * 50, (d[2] as i32 - 8) * 50)) }, move |&(k, e, c), st| scales(k, e, c, deriv, st)));
    let x = |i: usize| Box::new(Ex::X(i));
    let mut pool = vec![Ex::Zero, Ex::One, Ex::X(0), Ex::X(1), Ex::X(2), Ex::Bin(B::Sub, x(0), x(0)), Ex::Bin(B::Mul, x(0), x(1)), Ex::Bin(B::Add, x(1), x(2)), Ex::Un(U::Sin, x(2)), Ex::Un(U::Powi(3), x(1))];
    if t.pick(false, true) { pool.extend([Ex::Un(U::Times(2.0), x(1)), Ex::Bin(B::Div, x(0), x(2)), Ex::Bin(B::Mul, x(2), Box::new(Ex::Un(U::Sin, x(0))))]); }
    let (k, l) = (pool.len() as u64, 4);
    v.push(space("multi", &format!("all maps with 1 to {l} components, each one of {k} functions of three coordinates"), (1..=l).map(|i| pw(k, i)).sum(),
        move |mut i| { for m in 1..=l { let c = pw(k, m); if i < c { return Some(word(i, m, &pool)); } i -= c; } None }, move |es: &Vec<Ex>, st| multi(es, deriv, st)));
    v
}
/// Powers with large exponents of functions close to 1 in absolute value.
fn large_power(b: usize, form: usize, m: i32, n: i32, deriv: bool, st: &mut Stats) -> Check {
    let total: i64 = match form { 0 => m as i64, 1 => m as i64 + n as i64, 2 => m as i64 - n as i64, _ => m as i64 * n as i64 };
    if total.abs() > 1_000_000 || (form == 0 && n != 2) { return Ok(()); }
    let p = [0.7, 1.3, 0.9];
    let inner = || -> F { match b { 0 => F::one() + F::Projection(0) * 1e-5, 1 => (F::Projection(1) * 1e-3).cos(), 2 => -(F::one() + F::Projection(1) * -2e-6), _ => (F::one() + F::Projection(0) * F::Projection(1) * 1e-5).powf(0.5) } };
    // value and gradient of the inner function
    let (v, g): (f64, [f64; N]) = match b { 0 => (1.0 + p[0] * 1e-5, [1e-5, 0.0, 0.0]), 1 => (f64::cos(p[1] * 1e-3), [0.0, -1e-3 * f64::sin(p[1] * 1e-3), 0.0]), 2 => (-(1.0 + p[1] * -2e-6), [0.0, 2e-6, 0.0]),
        _ => { let r = (1.0 + p[0] * p[1] * 1e-5).sqrt(); (r, [p[1] * 1e-5 / 2.0 / r, p[0] * 1e-5 / 2.0 / r, 0.0]) } };
    let f = match form { 0 => inner().powi(m), 1 => inner().powi(m) * inner().powi(n), 2 => inner().powi(m) / inner().powi(n), _ => inner().powi(m).powi(n) };
    // ln |v| is tiny, so the logarithm of the power is accurate
    let power = |k: i64| -> f64 { let l = (v.abs() - 1.0).ln_1p() * k as f64; l.exp() * if v < 0.0 && k % 2 != 0 { -1.0 } else { 1.0 } };
    let name = match form { 0 => format!("f^{m}"), 1 => format!("f^{m} * f^{n}"), 2 => format!("f^{m} / f^{n}"), _ => format!("(f^{m})^{n}") };
    st.outcome((b, total));
    st.step();
    let near = |a: f64, w: f64| (a - w).abs() <= 1e-6 * w.abs();
    if !deriv {
        let (got, want) = (f.eval(&column(&p)), power(total));
        ensure!(near(got, want), "{name} for the function f number {b}, of value {v}, is {got}, should be {want}");
    } else {
        for i in 0..N {
            let (got, want) = (f.clone().partial_derivative(i).eval(&column(&p)), total as f64 * power(total - 1) * g[i]);
            ensure!(near(got, want), "the derivative of {name} by coordinate {i} for the function f number {b}, of value {v}, is {got}, should be {want}");
        }
    }
    Ok(())
}
/// Homogeneous functions, of the given degree, at points of any magnitude and with factors of any magnitude.
fn scales(k: usize, e: i32, c: i32, deriv: bool, st: &mut Stats) -> Check {
    let x = |i: usize| Box::new(Ex::X(i));
    let bin = |b: B, i: usize, j: usize| Ex::Bin(b, x(i), x(j));
    let un = |u: U, e: Ex| Ex::Un(u, Box::new(e));
    let (ex, degree) = match k {
        0 => (Ex::X(1), 1), 1 => (bin(B::Add, 0, 1), 1), 2 => (bin(B::Sub, 0, 1), 1), 3 => (bin(B::Mul, 0, 1), 2), 4 => (bin(B::Div, 0, 1), 0), 5 => (un(U::Powi(2), Ex::X(0)), 2), 6 => (un(U::Powi(-1), Ex::X(0)), -1),
        7 => (un(U::Powf(2.0), bin(B::Add, 1, 2)), 2), 8 => (un(U::Powf(-1.0), Ex::X(1)), -1), 9 => (un(U::Neg, Ex::X(0)), 1), 10 => (un(U::Times(3.0), bin(B::Sub, 1, 2)), 1), 11 => (un(U::Over(3.0), bin(B::Add, 1, 2)), 1),
        12 => (Ex::Bin(B::Mul, Box::new(bin(B::Add, 0, 1)), Box::new(bin(B::Sub, 1, 2))), 2), 13 => (Ex::Bin(B::Div, Box::new(bin(B::Mul, 0, 1)), Box::new(bin(B::Add, 0, 2))), 1), _ => (Ex::One, 0),
    };
    let p = POINTS[0];
    let j = jet(&ex, &p);
    let (s, a) = (2f64.powi(e), 2f64.powi(c));
    let q = p.map(|v| v * s);
    let top = 1000;
    let near = |got: f64, w: f64, shift: i32, what: &str| -> Check {
        // the number wanted is w times a power of two
        if (e * degree).abs() > top || (shift).abs() > top || e.abs() * 2 > top { return Ok(()); }
        let want = w * 2f64.powi(shift);
        ensure!((got - want).abs() <= 1e-9 * want.abs(), "{what} of {ex:?} at {q:?} is {got:e}, should be {want:e}");
        Ok(())
    };
    st.outcome((k, e * degree, c));
    let forms: [(&str, F, i32); 4] = [("the function itself", build(&ex), 0), ("a small or large multiple", build(&ex) * a, c), ("a small or large fraction", build(&ex) / a, -c), ("a multiple added to itself and divided", (build(&ex) * a + build(&ex) * (a * 3.0)) / (a * 4.0), 0)];
    for (what, f, shift) in forms {
        st.step();
        if !deriv {
            near(f.eval(&column(&q)), j.v, e * degree + shift, what)?;
            // what is read is multiplied from the left, which must not leave the range of the type
            if e.abs().max(c.abs()) > 200 { continue; }
            let text = f.to_string();
            near(read(&text, &q).map_err(|x| format!("printed as {text:?}: {x}"))?, j.v, e * degree + shift, "what is printed")?;
        }
        else { for i in 0..N { near(f.clone().partial_derivative(i).eval(&column(&q)), j.g[i], e * (degree - 1) + shift, &format!("the derivative by coordinate {i} of {what}"))?; } }
    }
    Ok(())
}
/// Functions of many coordinates, with their values and gradients written out.
fn many(n: usize, kind: usize, deriv: bool, st: &mut Stats) -> Check {
    let x: Vec<f64> = (0..n).map(|i| 0.5 + ((i * 7) % 5) as f64 * 0.25 - (i % 3) as f64 * 0.125).collect();
    let c = |i: usize| [1.0, -2.0, 0.5, 3.0][i % 4];
    let p = F::Projection;
    let (f, value, grad): (F, f64, Vec<f64>) = match kind {
        0 => ((0..n).map(|i| p(i) * c(i)).sum(), (0..n).map(|i| x[i] * c(i)).sum(), (0..n).map(c).collect()),
        1 => ((0..n).map(p).product(), x.iter().product(), (0..n).map(|i| (0..n).filter(|j| *j != i).map(|j| x[j]).product()).collect()),
        2 => ((0..n).map(|i| p(i).powi(2)).sum(), x.iter().map(|v| v * v).sum(), x.iter().map(|v| 2.0 * v).collect()),
        3 => ((0..n).map(|i| p(i) * p((i + 1) % n)).sum(), (0..n).map(|i| x[i] * x[(i + 1) % n]).sum(), (0..n).map(|i| if n == 1 { 2.0 * x[0] } else { x[(i + 1) % n] + x[(i + n - 1) % n] }).collect()),
        4 => { let mut f = F::zero(); for i in (0..n).rev() { f += p(i); f = f.sin(); }
            let mut v = vec![0.0; n + 1]; for i in (0..n).rev() { v[i] = f64::sin(v[i + 1] + x[i]); }
            let mut g = vec![0.0; n]; let mut d = 1.0; for i in 0..n { d *= f64::cos(v[i + 1] + x[i]); g[i] = d; } (f, v[0], g) }
        5 => { let mut f = F::one(); for i in 0..n { f /= p(i); } let v: f64 = x.iter().map(|a| 1.0 / a).product(); (f, v, x.iter().map(|a| -v / a).collect()) }
        6 => { let mut f = F::zero(); for i in 0..n { f -= p(i) * p(n - 1); } let s: f64 = x.iter().sum(); (f, -s * x[n - 1], (0..n).map(|i| -x[n - 1] - if i == n - 1 { s } else { 0.0 }).collect()) }
        7 => { let (a, b): (F, F) = ((0..n).step_by(2).map(p).sum(), (1..n).step_by(2).map(|i| p(i).cos()).sum());
            let (s, t): (f64, f64) = ((0..n).step_by(2).map(|i| x[i]).sum(), (1..n).step_by(2).map(|i| x[i].cos()).sum());
            (a * b, s * t, (0..n).map(|i| if i % 2 == 0 { t } else { -s * x[i].sin() }).collect()) }
        8 => ((0..n).map(|i| p(i) * c(i)).sum::<F>() * 2.5, (0..n).map(|i| x[i] * c(i) * 2.5).sum(), (0..n).map(|i| c(i) * 2.5).collect()),
        9 => (-((0..n).map(|i| p(i).cos()).sum::<F>() / 4.0), x.iter().map(|v| -v.cos() / 4.0).sum(), x.iter().map(|v| v.sin() / 4.0).collect()),
        10 => { let v: f64 = x.iter().map(|v| v * v * v).product(); ((0..n).map(p).product::<F>().powi(3) * -2.0, -2.0 * v, x.iter().map(|a| -6.0 * v / a).collect()) }
        _ => { let s: f64 = x.iter().map(|v| v * v).sum(); ((0..n).map(|i| p(i) * p(i)).sum::<F>().powf(0.5), s.sqrt(), x.iter().map(|v| v / s.sqrt()).collect()) }
    };
    let at = Matrix::from_array(x.iter().map(|v| vec![*v]).collect());
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-8 * (1.0 + b.abs());
    st.outcome((kind, n, (value * 1e4) as i64));
    st.step();
    if !deriv {
        ensure!(near(f.eval(&at), value), "the value at {x:?} is {}, should be {value}", f.eval(&at));
        // the same function in a map whose components it shares with the coordinates
        let m = MultiVarFn::new((n + 1, n)).set(|i, g, y| if i == n { *g = f.clone() } else { *g = y[i] * 2.0 });
        let got = m.eval(&at);
        ensure!(got.size() == (n + 1, 1), "the value has size {:?}", got.size());
        for i in 0..=n { let w = if i == n { value } else { 2.0 * x[i] }; ensure!(near(got[(i, 0)], w), "component {i} at {x:?} is {}, should be {w}", got[(i, 0)]); st.step(); }
    } else {
        for i in 0..n { let d = f.clone().partial_derivative(i).eval(&at); ensure!(near(d, grad[i]), "the derivative by coordinate {i} at {x:?} is {d}, should be {}", grad[i]); st.step(); }
        ensure!(f.clone().partial_derivative(n).eval(&at) == 0.0, "the derivative by a coordinate that does not occur is not 0");
        let j = f.clone().jacobian(n);
        ensure!(j.size() == (1, n), "the Jacobian has size {:?}", j.size());
        let j = j.eval(&at);
        for i in 0..n { ensure!(near(j[(0, i)], grad[i]), "entry {i} of the Jacobian at {x:?} is {}, should be {}", j[(0, i)], grad[i]); }
        let m = MultiVarFn::new((n + 1, n)).set(|i, g, y| if i == n { *g = f.clone() } else { *g = y[i] * 2.0 }).jacobian();
        ensure!(m.size() == (n + 1, n), "the Jacobian has size {:?}", m.size());
        let m = m.eval(&at);
        for i in 0..=n {
            let row: Vec<(usize, f64)> = m.row_iter(i).map(|(j, x)| (j, *x)).collect();
            for k in 0..n {
                let g: f64 = row.iter().filter(|r| r.0 == k).map(|r| r.1).sum();
                let w = if i == n { grad[k] } else if i == k { 2.0 } else { 0.0 };
                ensure!(near(g, w), "entry {i}, {k} of the Jacobian at {x:?} is {g}, should be {w}");
            }
            st.step();
        }
    }
    Ok(())
}
pub fn c26(t: Tier) -> Spaces { both(t, false) }
pub fn c27(t: Tier) -> Spaces { both(t, true) }
