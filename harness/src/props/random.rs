//! C29: random matrices, with every list of numbers (over an alphabet) in the place of the generator.
use super::mat::{read, tr, D};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::lin_alg::Matrix;
use rand::rngs::{control, draws};

// small, quarter, just below one, middle: different as fractions of the range, by their low bits and by their sign
const LETTERS: [u64; 5] = [0x0000_0000_0000_1000, 0x4000_0000_0000_0001, 0xFFFF_FFFF_FFFF_FFFF, 0xA5A5_5A5A_1234_5672, 0xC000_0000_0000_1000];
const NONE: u64 = 0;

/// Runs `f` while the generator returns `list`; also returns the number of draws.
fn with<T>(list: &[u64], f: impl FnOnce() -> T) -> (T, usize) {
    control(Some(list.to_vec()));
    let out = f();
    let n = draws();
    control(None);
    (out, n)
}
fn size(m: &Matrix<f64>, n: usize, k: usize, what: &str) -> Check {
    ensure!(m.size() == (n, k), "{what} has size {:?}, not ({n}, {k})", m.size());
    ensure!(read(m).iter().flatten().all(|x| x.is_finite()), "{what} is {m:?}");
    Ok(())
}
fn plain(n: usize, m: usize, w: &[u64]) -> Result<(D<f64>, usize), String> {
    let (x, d) = with(w, || Matrix::<f64>::random(n, m));
    size(&x, n, m, "a random matrix")?;
    let (y, _) = with(w, || Matrix::<f64>::random(n, m));
    ensure!(x == y, "the same numbers give {x:?} and {y:?}");
    let (z, _) = with(w, || Matrix::<i64>::random(n, m));
    ensure!(z.size() == (n, m), "a random matrix of integers has size {:?}, not ({n}, {m})", z.size());
    Ok((read(&x), d))
}
fn symmetric(n: usize, w: &[u64]) -> Result<(D<f64>, usize), String> {
    let (x, d) = with(w, || Matrix::<f64>::random_symmetric(n, n));
    size(&x, n, n, "a random symmetric matrix")?;
    let v = read(&x);
    ensure!(v == tr(&v), "random_symmetric({n}, {n}) is {x:?}, which is not symmetric");
    let (z, _) = with(w, || Matrix::<i64>::random_symmetric(n, n));
    let z = read(&z);
    ensure!(z.len() == n && z == tr(&z), "random_symmetric({n}, {n}) of integers is {z:?}, which is not symmetric");
    Ok((v, d))
}
fn sparse(n: usize, w: &[u64]) -> Result<(D<f64>, usize), String> {
    let (x, d) = with(w, || Matrix::<f64>::random_sparse_symmetric(n, n));
    size(&x, n, n, "a random sparse symmetric matrix")?;
    let v = read(&x);
    ensure!(v == tr(&v), "random_sparse_symmetric({n}, {n}) is {x:?}, which is not symmetric");
    Ok((v, d))
}
fn unit(n: usize, w: &[u64]) -> Result<(D<f64>, usize), String> {
    let (x, d) = with(w, || Matrix::<f64>::random_unit_vec(n));
    size(&x, n, 1, "a random unit vector")?;
    let v = read(&x);
    let norm: f64 = v.iter().map(|r| r[0] * r[0]).sum();
    ensure!((norm - 1.0).abs() < 1e-9, "random_unit_vec({n}) is {x:?}, whose squared length is {norm}");
    Ok((v, d))
}
fn orthogonal(n: usize, w: &[u64]) -> Result<(D<f64>, usize), String> {
    let (x, d) = with(w, || Matrix::<f64>::random_orthogonal(n));
    size(&x, n, n, "a random orthogonal matrix")?;
    let v = read(&x);
    for i in 0..n { for j in 0..=i {
        let c: f64 = (0..n).map(|k| v[k][i] * v[k][j]).sum();
        let r: f64 = (0..n).map(|k| v[i][k] * v[j][k]).sum();
        let e = if i == j { 1.0 } else { 0.0 };
        ensure!((c - e).abs() < 1e-8 && (r - e).abs() < 1e-8, "random_orthogonal({n}) is {x:?}, which is not orthogonal");
    } }
    Ok((v, d))
}
type Made = fn(&(usize, usize), &[u64]) -> Result<(D<f64>, usize), String>;
/// The kinds, whether zero is allowed among the numbers, the number of draws to enumerate, and the entries that are free.
const KINDS: [(&str, bool, Made, fn(usize, usize) -> Vec<(usize, usize)>); 5] = [
    ("random", true, |&(n, m), w| plain(n, m, w), |n, m| (0..n).flat_map(|i| (0..m).map(move |j| (i, j))).collect()),
    ("symmetric", true, |&(n, _), w| symmetric(n, w), |n, _| (0..n).flat_map(|i| (0..=i).map(move |j| (i, j))).collect()),
    ("sparse symmetric", true, |&(n, _), w| sparse(n, w), |n, _| (0..n).flat_map(|i| (0..=i).map(move |j| (i, j))).collect()),
    ("unit vector", false, |&(n, _), w| unit(n, w), |n, _| (0..n).map(|i| (i, 0)).collect()),
    ("orthogonal", false, |&(n, _), w| orthogonal(n, w), |n, _| (0..n).map(|i| (i, 0)).collect()),
];

pub fn c29(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let cap = t.pick(2_000_000u64, 60_000_000);
    for (name, zero, made, _) in KINDS {
        let sizes: Vec<(usize, usize)> = if name == "random" { (1..=4).flat_map(|n| (1..=4).map(move |m| (n, m))).collect() } else { (1..=6).map(|n| (n, n)).collect() };
        for (n, m) in sizes {
            let len = match name { "random" => n * m, "unit vector" => n, "sparse symmetric" => n * (n + 1), _ => n * (n + 1) / 2 };
            let mut al: Vec<u64> = LETTERS.to_vec();
            if zero { al.push(NONE); }
            while al.len() > 2 && (al.len() as f64).powi(len as i32) > cap as f64 { al.pop(); }
            if 2f64.powi(len as i32) > cap as f64 { continue; }
            v.push(space(&format!("{name} {n}x{m}"), &format!("every list of {len} numbers out of {} (and what follows) in the place of the generator", al.len()), pw(al.len() as u64, len),
                move |i| Some(word(i, len, &al)),
                move |w, st| {
                    let (x, d) = made(&(n, m), w)?;
                    st.steps(d.max(1));
                    st.outcome(x.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                    Ok(())
                }));
        }
    }
    let top = t.pick(16usize, 30);
    v.push(space("larger, and what can come out", &format!("each kind, sides up to {top}: the same number always, alternating numbers, and one draw that differs; free entries vary, apart from each other; sparse ones vanish or not"), 5 * top as u64,
        move |i| Some(((i % 5) as usize, (i / 5) as usize + 1)),
        move |&(k, n), st| {
            let (name, zero, made, free) = KINDS[k];
            let shape = if name == "random" { (n, n / 2 + 1) } else { (n, n) };
            let free = free(shape.0, shape.1);
            let mut all: Vec<D<f64>> = Vec::new();
            let pairs: Vec<(u64, u64)> = LETTERS.iter().flat_map(|&a| LETTERS.iter().map(move |&b| (a, b))).chain(if zero && name != "sparse symmetric" { vec![(NONE, LETTERS[0]), (LETTERS[1], NONE), (NONE, NONE)] } else { vec![] }).collect();
            for (a, b) in pairs {
                let long = 2 * n * n + 8;
                let (x, d) = made(&shape, &vec![a; long])?;
                all.push(x);
                st.steps(d.max(1));
                all.push(made(&shape, &(0..long).map(|i| if i % 2 == 0 { a } else { b }).collect::<Vec<_>>())?.0);
                // one draw differs
                for at in 0..d.min(long) {
                    if n > 6 && at % 7 != n % 7 && at + 3 < d { continue; }
                    let mut w = vec![a; long];
                    w[at] = b;
                    let (x, d) = made(&shape, &w)?;
                    st.steps(d.max(1));
                    all.push(x);
                }
            }
            st.outcome((k, n));
            if n <= 6 {
                if name == "orthogonal" || name == "unit vector" {
                    for &(i, j) in &free { ensure!(n == 1 || all.iter().any(|x| x[i][j] != all[0][i][j]), "entry ({i}, {j}) of {name} of size {n} never varies"); }
                } else {
                    for &(i, j) in &free { ensure!(all.iter().any(|x| x[i][j] != all[0][i][j]), "entry ({i}, {j}) of {name} of size {shape:?} never varies"); }
                }
                if name == "unit vector" { for &(i, j) in &free { ensure!(all.iter().any(|x| x[i][j] > 0.0) && all.iter().any(|x| x[i][j] < 0.0), "entry ({i}, {j}) of a unit vector of length {n} always has the same sign"); } }
                if name == "sparse symmetric" {
                    for &(i, j) in &free {
                        ensure!(all.iter().any(|x| x[i][j] == 0.0), "entry ({i}, {j}) of a sparse symmetric matrix of size {n} is never zero");
                        ensure!(all.iter().any(|x| x[i][j] != 0.0), "entry ({i}, {j}) of a sparse symmetric matrix of size {n} is always zero");
                    }
                }
                for (p, &(i, j)) in free.iter().enumerate() { for &(r, s) in &free[..p] {
                    ensure!(all.iter().any(|x| x[i][j] != x[r][s]), "entries ({i}, {j}) and ({r}, {s}) of {name} of size {shape:?} are always the same");
                    if name == "sparse symmetric" { ensure!(all.iter().any(|x| (x[i][j] == 0.0) != (x[r][s] == 0.0)), "entries ({i}, {j}) and ({r}, {s}) of a sparse symmetric matrix of size {n} are always zero together"); }
                } }
            }
            Ok(())
        }));
    v
}
