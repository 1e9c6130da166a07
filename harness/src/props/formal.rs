//! C05: formal linear combinations.
use super::numbers::Fr;
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{Rational, PID};
use alg::formal_sum_impl;
use alg::lin_alg::Vector;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct B(String);
impl std::fmt::Display for B { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
formal_sum_impl! { B }
fn b(i: usize) -> B { B(["b", "d", "f", "h", "j", "l"][i].to_string()) }

type V = Vector<i64, B>;
type M = BTreeMap<B, i64>;
fn norm(m: M) -> M { m.into_iter().filter(|(_, c)| *c != 0).collect() }
fn plus(a: &M, k: i64, x: &M) -> M { let mut o = a.clone(); for (b, c) in x { *o.entry(b.clone()).or_insert(0) += k * c; } norm(o) }
fn scale(a: &M, k: i64) -> M { norm(a.iter().map(|(b, c)| (b.clone(), c * k)).collect()) }
/// The basis elements x000, x001, ...
fn long(v: &[i64]) -> M { norm(v.iter().enumerate().map(|(i, &c)| (B(format!("x{i:03}")), c)).collect()) }
const PATTERNS: usize = 12;
fn pattern(p: usize, n: usize) -> Vec<i64> {
    (0..n).map(|i| { let k = i as i64; match p {
        0 => 1, 1 => 1 - 2 * (k % 2), 2 => k % 3 - 1, 3 => (i + 1 == n) as i64, 4 => (i == 0) as i64, 5 => k % 2, 6 => (k * k + 1) % 7 - 3,
        7 => (k + 1) * 1_000_000_007, 8 => 1 - k % 3, 9 => (2 * i >= n) as i64, 10 => -((2 * i < n) as i64), _ => -(k + 1) * 1_000_000_007,
    } }).collect()
}
fn coeffs(v: &[i64]) -> M { norm(v.iter().enumerate().map(|(i, &c)| (b(i), c)).collect()) }
/// Built only from single basis elements, scaling and pairwise addition of a larger term.
fn build(m: &M) -> V { m.iter().fold(V::zero(), |acc, (b, c)| acc + Vector::from(b.clone()) * *c) }
fn display(m: &M) -> String {
    if m.is_empty() { return "0".into(); }
    m.iter().enumerate().map(|(i, (b, c))| if i == 0 { match c { 1 => format!("{b}"), -1 => format!("-{b}"), _ => format!("{c}·{b}") } } else { format!(" + ({c})·{b}") }).collect()
}
fn same(v: &V, m: &M, what: &str) -> Check {
    let got: Vec<(i64, B)> = v.iter().cloned().collect();
    let want: Vec<(i64, B)> = m.iter().map(|(b, c)| (*c, b.clone())).collect();
    ensure!(got == want, "{what} has the terms {got:?}, expected {want:?}");
    ensure!(v.len() == want.len(), "{what}: len() = {}", v.len());
    ensure!(v.clone().into_iter().collect::<Vec<_>>() == want, "{what}: into_iter() differs from iter()");
    for (b, c) in m { ensure!(v[b] == *c, "{what}: coefficient of {b} is {}, expected {c}", v[b]); }
    ensure!((*v == V::zero()) == m.is_empty(), "{what}: equality with zero");
    ensure!(v.to_string() == display(m), "{what} prints as {v}, expected {}", display(m));
    Ok(())
}

struct Hist { n: usize, bound: i64, depth: usize }
#[derive(Clone, Debug)]
enum Op { AddV(Vec<i64>), SubV(Vec<i64>), AddB(usize), SubB(usize), RAddB(usize), RSubB(usize), Neg, Mul(i64), Sum3(Vec<i64>, Vec<i64>), Remove(usize) }
impl Model for Hist {
    type State = (V, M);
    type Op = Op;
    type Key = Vec<(i64, B)>;
    fn n_init(&self) -> u64 { 1 }
    fn init(&self, _: u64) -> Result<Self::State, String> { Ok((V::zero(), M::new())) }
    fn show_init(&self, _: u64) -> String { "the zero vector".into() }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &Self::State) -> Vec<Op> {
        let mut v = vec![Op::Neg, Op::Mul(0), Op::Mul(-1), Op::Mul(2)];
        for i in 0..self.n { v.extend([Op::AddB(i), Op::SubB(i), Op::RAddB(i), Op::RSubB(i)]); }
        let few: [Vec<i64>; 6] = [vec![1, 1, 0, 0], vec![0, 1, 0, -1], vec![2, 0, 1, 0], vec![1, 0, 1, 1], vec![-1, -1, -1, -1], vec![0, 0, 0, 1]];
        for w in &few { v.push(Op::AddV(w.clone())); v.push(Op::SubV(w.clone())); for x in &few { v.push(Op::Sum3(w.clone(), x.clone())); } }
        for i in 0..s.1.len() { v.push(Op::Remove(i)); }
        v
    }
    fn apply(&self, s: &Self::State, op: &Op) -> Result<Option<Self::State>, String> {
        let (v, m) = s.clone();
        let (v, m) = match op {
            Op::AddV(w) => { let w = coeffs(w); (v + build(&w), plus(&m, 1, &w)) }
            Op::SubV(w) => { let w = coeffs(w); (v - build(&w), plus(&m, -1, &w)) }
            Op::AddB(i) => (v + b(*i), plus(&m, 1, &M::from([(b(*i), 1)]))),
            Op::SubB(i) => (v - b(*i), plus(&m, -1, &M::from([(b(*i), 1)]))),
            Op::RAddB(i) => (b(*i) + v, plus(&m, 1, &M::from([(b(*i), 1)]))),
            Op::RSubB(i) => (b(*i) - v, plus(&M::from([(b(*i), 1)]), -1, &m)),
            Op::Neg => (-v, scale(&m, -1)),
            Op::Mul(k) => (v * *k, scale(&m, *k)),
            Op::Sum3(x, y) => { let (x, y) = (coeffs(x), coeffs(y)); ([build(&x), v, build(&y)].into_iter().sum(), plus(&plus(&m, 1, &x), 1, &y)) }
            Op::Remove(i) => {
                let mut v = v; let mut m = m;
                let (c, x) = v.remove(*i);
                let k = m.keys().nth(*i).unwrap().clone();
                ensure!(k == x && m[&k] == c, "remove({i}) took out ({c}, {x})");
                m.remove(&k);
                (v, m)
            }
        };
        if m.values().any(|c| c.abs() > self.bound) { return Ok(None); }
        same(&v, &m, "the vector")?;
        Ok(Some((v, m)))
    }
    fn key(&self, s: &Self::State) -> Self::Key { s.0.iter().cloned().collect() }
}

fn sum_check(ms: &[M], st: &mut Stats) -> Check {
    let vs: Vec<V> = ms.iter().map(build).collect();
    for (v, m) in vs.iter().zip(ms) { same(v, m, "a summand")?; }
    let want = ms.iter().fold(M::new(), |a, x| plus(&a, 1, x));
    let s: V = vs.iter().cloned().sum();
    same(&s, &want, "the sum")?;
    let f = vs.iter().cloned().fold(V::zero(), |a, x| a + x);
    ensure!(f == s, "the sum of all is not equal to the result of adding one by one");
    st.steps(2);
    st.outcome(want.into_iter().collect::<Vec<_>>());
    Ok(())
}
fn binary(a: &M, c: &M, st: &mut Stats) -> Check {
    let (x, y) = (build(a), build(c));
    same(&(x.clone() + y.clone()), &plus(a, 1, c), "x+y")?;
    same(&(x.clone() - y.clone()), &plus(a, -1, c), "x-y")?;
    same(&(-x.clone()), &scale(a, -1), "-x")?;
    for k in [-3, 0, 1, 5] { same(&(x.clone() * k), &scale(a, k), "x*k")?; }
    ensure!((x == y) == (a == c), "x == y is {}", x == y);
    st.steps(8);
    st.outcome(plus(a, 1, c).into_iter().collect::<Vec<_>>());
    Ok(())
}
fn field<F: alg::commutative::Field + Copy + std::fmt::Debug>(v: &[i64], w: &[i64], mk: impl Fn(i64, i64) -> F) -> Check where F: PID {
    let bld = |v: &[i64]| v.iter().enumerate().fold(Vector::<F, i32>::zero(), |acc, (i, &c)| acc + Vector::from(i as i32 - 2) * mk(c, 2));
    let (x, y) = (bld(v), bld(w));
    let terms = |f: &dyn Fn(usize) -> i64, d: i64| -> Vec<(F, i32)> { (0..v.len()).filter(|&i| f(i) != 0).map(|i| (mk(f(i), d), i as i32 - 2)).collect() };
    let got: Vec<(F, i32)> = (x.clone() + y.clone()).into_iter().collect();
    let want = terms(&|i| v[i] + w[i], 2);
    ensure!(got == want, "x+y has the terms {got:?}, expected {want:?}");
    let got: Vec<(F, i32)> = ((x.clone() - y) / mk(4, 1)).into_iter().collect();
    let want = terms(&|i| v[i] - w[i], 8);
    ensure!(got == want, "(x-y)/4 has the terms {got:?}, expected {want:?}");
    ensure!(guard(|| x / mk(0, 1)).is_err(), "division of a vector by zero accepted");
    Ok(())
}

pub fn c05(t: Tier) -> Spaces {
    let len3 = t.pick(4, 5);
    let n27: Vec<u64> = (0..=len3).map(|k| pw(27, k)).collect();
    let n27b = n27.clone();
    let wl = t.pick(6usize, 8);
    let ws: Vec<u64> = (0..=wl).map(|n| pw(4, n)).collect();
    let ws2 = ws.clone();
    vec![
        space("sums of several vectors over three basis elements", &format!("all sequences of up to {len3} vectors with coefficients -1,0,1"), n27.iter().sum(),
            move |i| { let (n, j) = block(i, &n27b); Some((0..n).map(|k| word(j / pw(27, k) % 27, 3, &[0i64, 1, -1])).collect::<Vec<_>>()) },
            |v: &Vec<Vec<i64>>, st| sum_check(&v.iter().map(|x| coeffs(x)).collect::<Vec<_>>(), st)),
        space("sums of four vectors over five basis elements", "all quadruples of 0/1 vectors over 5 basis elements", pw(32, 4),
            |i| Some((0..4).map(|k| word(i >> (5 * k), 5, &[0i64, 1])).collect::<Vec<_>>()),
            |v: &Vec<Vec<i64>>, st| sum_check(&v.iter().map(|x| coeffs(x)).collect::<Vec<_>>(), st)),
        space("pairs of vectors", "all pairs with coefficients in -2..=2 over 4 basis elements: +, -, negation, scaling, equality", pw(625, 2),
            |i| Some((word(i % 625, 4, &[0i64, 1, -1, 2, -2]), word(i / 625, 4, &[0i64, 1, -1, 2, -2]))),
            |(a, c): &(Vec<i64>, Vec<i64>), st| binary(&coeffs(a), &coeffs(c), st)),
        space("vectors built from lists of basis elements", &format!("all words of length <= {wl} over 4 basis elements (repetitions count)"), ws.iter().sum(),
            move |i| { let (n, j) = block(i, &ws2); Some(word(j, n, &[0usize, 1, 2, 3])) },
            |w: &Vec<usize>, st| {
                let mut m = M::new();
                for &i in w { *m.entry(b(i)).or_insert(0) += 1; }
                let list: Vec<B> = w.iter().map(|&i| b(i)).collect();
                same(&V::from(list.clone()), &m, "from(Vec)")?;
                same(&list.clone().into_iter().collect(), &m, "collected from an iterator")?;
                match list.as_slice() { [] => {} [x] => same(&V::from([x.clone()]), &m, "from([..])")?, [x, y] => { same(&V::from([x.clone(), y.clone()]), &m, "from([..])")?; same(&(x.clone() + y.clone()), &m, "x+y")?; same(&(x.clone() - y.clone()), &plus(&M::from([(x.clone(), 1)]), -1, &M::from([(y.clone(), 1)])), "x-y")?; same(&(-3 * x.clone()), &M::from([(x.clone(), -3)]), "-3*x")?; same(&-x.clone(), &M::from([(x.clone(), -1)]), "-x")?; }
                    [x, y, z] => same(&V::from([x.clone(), y.clone(), z.clone()]), &m, "from([..])")?, _ => {} }
                st.steps(3);
                st.outcome(m.into_iter().collect::<Vec<_>>());
                Ok(())
            }),
        space("coefficients in the rationals and the reals", "all pairs with coefficients k/2, |k| <= 2, over 3 basis elements, in Q and in f64: +, -, division by 4 and by 0", pw(125, 2),
            |i| Some((word(i % 125, 3, &[0i64, 1, -1, 2, -2]), word(i / 125, 3, &[0i64, 1, -1, 2, -2]))),
            |(a, c): &(Vec<i64>, Vec<i64>), st| {
                field::<Rational>(a, c, |n, d| Fr::new(n as i128, d as i128).rat())?;
                field::<f64>(a, c, |n, d| n as f64 / d as f64)?;
                st.steps(6); st.outcome((a, c));
                Ok(())
            }),
        list("pairs of long vectors", "all pairs of 12 patterns of coefficients (sparse, dense, alternating, huge) over 1 to 130 basis elements", [1usize, 7, 8, 9, 16, 17, 33, 64, 65, 130].iter().flat_map(|&n| (0..PATTERNS * PATTERNS).map(move |k| (n, k / PATTERNS, k % PATTERNS))).collect::<Vec<_>>(),
            |&(n, a, c), st| binary(&long(&pattern(a, n)), &long(&pattern(c, n)), st)),
        space("sums of four long vectors", "all quadruples of 12 patterns of coefficients over 20 basis elements", pw(12, 4),
            |i| Some(word(i, 4, &(0..12).collect::<Vec<usize>>())), |w: &Vec<usize>, st| sum_check(&w.iter().map(|&p| long(&pattern(p, 20))).collect::<Vec<_>>(), st)),
        list("sums of many vectors", "sums of 5 to 40 vectors, each one basis element, a run of them, or a pattern", (5..=40usize).flat_map(|k| (0..24usize).map(move |s| (k, s))).collect::<Vec<_>>(),
            |&(k, s), st| sum_check(&(0..k).map(|j| { let j = j * (s + 1); match s % 3 {
                0 => { let mut v = vec![0; 30]; v[j % 30] = if j % 7 == 3 { -1 } else { 1 }; long(&v) }
                1 => { let mut v = vec![0; 30]; for i in j % 20..j % 20 + 1 + j % 9 { v[i] = if j % 2 == 0 { 1 } else { -1 }; } long(&v) }
                _ => long(&pattern(j % PATTERNS, 30)) } }).collect::<Vec<_>>(), st)),
        list("long lists of basis elements", "lists of up to 200 of 3 to 70 basis elements, upwards, downwards, repeated and mixed", [3usize, 9, 33, 70].iter().flat_map(|&m| [7usize, 8, 17, 33, 64, 200].into_iter().flat_map(move |n| (0..8usize).map(move |s| (m, n, s)))).collect::<Vec<_>>(),
            |&(m, n, s), st| {
                let ids: Vec<usize> = (0..n).map(|i| match s { 0 => i % m, 1 => m - 1 - i % m, 2 => i / 3 % m, 3 => i * 7 % m, 4 => i * i % m, 5 => m / 2, 6 => (i * 5 + i / m) % m, _ => (n - i) / 2 % m }).collect();
                let list: Vec<B> = ids.iter().map(|i| B(format!("x{i:03}"))).collect();
                let mut want = M::new();
                for x in &list { *want.entry(x.clone()).or_insert(0) += 1; }
                same(&V::from(list.clone()), &want, "from(Vec)")?;
                same(&list.into_iter().collect(), &want, "collected from an iterator")?;
                st.steps(2);
                Ok(())
            }),
        bfs("histories of one vector", "histories of +, -, negation, scaling, sums of three, removal over 4 basis elements, |coefficients| bounded",
            Hist { n: 4, bound: t.pick(3, 5), depth: t.pick(4, 6) }),
    ]
}
