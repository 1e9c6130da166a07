//! C13 sparse matrices, C28 fixed-size vectors and matrices.
use super::mat::{gen, map, mul, tr, zip, D};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{Field, Rational, PID};
use alg::lin_alg::{ConstMatrix, ConstVector, Matrix, SparseMatrix};
use std::fmt::{Debug, Display};
use std::iter::Sum;

type Pat<T> = D<Option<T>>;
fn dense<T: PID>(p: &Pat<T>) -> D<T> { map(p, |x| x.unwrap_or_else(T::zero)) }
/// The sparse matrix with the pattern `p`: built directly, or from the transposed pattern and transposed.
fn build<T: PID>(p: &Pat<T>, n: usize, m: usize, form: bool) -> SparseMatrix<T> {
    if form { SparseMatrix::from(((m, n), |(i, j): (usize, usize)| p[j][i].clone())).transpose() }
    else { SparseMatrix::from(((n, m), |(i, j): (usize, usize)| p[i][j].clone())) }
}
fn entries<T: PID + Debug>(s: &SparseMatrix<T>, p: &Pat<T>, n: usize, m: usize, what: &str) -> Check {
    ensure!(s.size() == (n, m), "{what}: size is {:?}, should be {:?}", s.size(), (n, m));
    for i in 0..n {
        let got: Vec<(usize, T)> = s.row_iter(i).map(|(k, v)| (k, v.clone())).collect();
        let want: Vec<(usize, T)> = (0..m).filter_map(|j| p[i][j].clone().map(|v| (j, v))).collect();
        ensure!(got == want, "{what}: row {i} lists {got:?}, should list {want:?}");
    }
    for j in 0..m {
        let got: Vec<(usize, T)> = s.col_iter(j).map(|(k, v)| (k, v.clone())).collect();
        let want: Vec<(usize, T)> = (0..n).filter_map(|i| p[i][j].clone().map(|v| (i, v))).collect();
        ensure!(got == want, "{what}: column {j} lists {got:?}, should list {want:?}");
    }
    let mut it = s.row_iter(0);
    while it.next().is_some() {}
    ensure!(it.next().is_none(), "{what}: a row went on after its end");
    Ok(())
}
fn dm<T: PID>(d: &D<T>) -> Matrix<T> { Matrix::from_array(d.clone()) }

fn single<T: PID + Debug + Display>(p: &Pat<T>, n: usize, m: usize, st: &mut Stats) -> Check {
    let d = dense(p);
    let pt: Pat<T> = tr(p);
    for form in [false, true] {
        let s = build(p, n, m, form);
        let what = if form { "built transposed" } else { "built" };
        entries(&s, p, n, m, what)?;
        entries(&s.clone(), p, n, m, "clone")?;
        entries(&s.clone().transpose(), &pt, m, n, "transpose")?;
        entries(&s.clone().transpose().transpose(), p, n, m, "double transpose")?;
        let mut want = String::new();
        for i in 0..n { for j in 0..m { if let Some(v) = &p[i][j] { want += &format!("({i}, {j}): {v}\n"); } } }
        ensure!(s.to_string() == want, "{what}: printed as {s}, should be {want}");
        ensure!(s == dm(&d), "{what}: differs from the dense matrix");
        ensure!(s.clone().transpose() == dm(&tr(&d)), "{what}: its transpose differs from the dense transpose");
        for i in 0..n { for j in 0..m {
            let mut e = d.clone();
            e[i][j] = e[i][j].clone() + T::one();
            ensure!(!(s == dm(&e)), "{what}: equals a dense matrix that differs at ({i}, {j})");
            let q = map(&e, Some);
            ensure!(!(s == build(&q, n, m, false)), "{what}: equals a sparse matrix that differs at ({i}, {j})");
            ensure!(!(build(&q, n, m, true) == s), "{what}: equals a transposed sparse matrix that differs at ({i}, {j})");
        } }
        ensure!(!(s == dm(&gen(n + 1, m, |i, j| if i < n { d[i][j].clone() } else { T::zero() }))), "{what}: equals a dense matrix with another row");
        ensure!(!(s == dm(&gen(n, m + 1, |i, j| if j < m { d[i][j].clone() } else { T::zero() }))), "{what}: equals a dense matrix with another column");
        ensure!(!(s == SparseMatrix::from(((n, m + 1), |(i, j): (usize, usize)| if j < m { p[i][j].clone() } else { None }))), "{what}: equals a sparse matrix with another column");
        for g in [false, true] {
            ensure!(s == build(p, n, m, g), "{what}: differs from the same matrix built the other way");
            ensure!(s == build(&map(&d, |x| if x == T::zero() { None } else { Some(x) }), n, m, g), "{what}: differs from the same matrix without stored zeros");
            ensure!(build(&map(&d, Some), n, m, g) == s, "{what}: differs from the same matrix with stored zeros");
        }
        st.steps(14 + 3 * n * m);
    }
    Ok(())
}
fn product<T: PID + Debug>(a: &Pat<T>, b: &Pat<T>, (n, k, m): (usize, usize, usize), st: &mut Stats) -> Check
    where T: std::ops::Mul<T, Output = T>
{
    let (da, db) = (dense(a), dense(b));
    let want = mul(&da, &db);
    for f in 0..4 {
        let (fa, fb) = (f & 1 == 1, f & 2 == 2);
        let (x, y) = (build(a, n, k, fa), build(b, k, m, fb));
        let r = x.clone() * y.clone();
        ensure!(super::mat::read(&r) == want, "sparse * sparse ({fa}, {fb}) is {:?}, should be {want:?}", super::mat::read(&r));
        let r = x * if fb { dm(&tr(&db)).transpose() } else { dm(&db) };
        ensure!(super::mat::read(&r) == want, "sparse * dense ({fa}, {fb}) is {:?}, should be {want:?}", super::mat::read(&r));
        let r = (if fa { dm(&tr(&da)).transpose() } else { dm(&da) }) * y;
        ensure!(super::mat::read(&r) == want, "dense * sparse ({fa}, {fb}) is {:?}, should be {want:?}", super::mat::read(&r));
        st.steps(3);
    }
    Ok(())
}

pub fn c13(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    // single matrices: None, stored zero, and values
    let alph: [Option<i64>; 4] = [None, Some(1), Some(0), Some(-2)];
    let cells = t.pick(8, 9);
    for n in 1..=4usize { for m in 1..=4usize {
        let k = if n * m <= cells { 4 } else if n * m <= t.pick(9, 12) { 3 } else if n * m <= t.pick(12, 16) { 2 } else { continue };
        let al: Vec<Option<i64>> = if k == 2 { vec![None, Some(3)] } else { alph[..k].to_vec() };
        v.push(space(&format!("one-{n}x{m}"), &format!("all {n}x{m} matrices of i64 with entries in {al:?}, built directly and transposed"), pw(k as u64, n * m),
            move |i| Some(gen(n, m, { let w = word(i, n * m, &al); move |r, c| w[r * m + c] })),
            move |p: &Pat<i64>, st| single(p, n, m, st)));
    } }
    let big = t.pick(20usize, 40);
    v.push(space("long", &format!("sides up to {big}: one, two or no entries per row on a diagonal or a border, and full"), (big * big * 5) as u64,
        move |i| { let d = digits(i, &[big as u64, big as u64, 5])?; Some((d[0] as usize + 1, d[1] as usize + 1, d[2])) },
        |&(n, m, kind), st| {
            let p: Pat<i64> = gen(n, m, |i, j| { let v = Some((i * 7 + j * 3) as i64 - 9); match kind {
                0 => None, 1 => v.filter(|_| i == j), 2 => v.filter(|_| i + j + 1 == n.max(m)), 3 => v.filter(|_| i + 1 == n || j == 0), _ => v } });
            let s = build(&p, n, m, false);
            let u = build(&p, n, m, true);
            entries(&s, &p, n, m, "built")?;
            entries(&u, &p, n, m, "built transposed")?;
            ensure!(s == u && s == s.clone() && s == dm(&dense(&p)), "not equal to itself stored another way");
            st.outcome((n, m, kind));
            st.steps(5);
            let pt = tr(&p);
            product(&p, &pt, (n, m, n), st)
        }));
    let sides = t.pick(vec![5usize, 8, 9, 17], vec![5, 7, 8, 9, 12, 16, 17, 20]);
    let mut cases = Vec::new();
    for &n in &sides { for &m in &sides { for kind in 0..6usize { cases.push((n, m, kind)); } } }
    let shape = |n: usize, m: usize, kind: usize| -> Pat<i64> { gen(n, m, |i, j| {
        let v = (i * 7 + j * 3) as i64 % 11 - 5; // some stored zeros
        let keep = match kind { 0 => i == j, 1 => (i + 2 * j) % 3 == 0, 2 => i > 1 && j + 2 < m && (i + j) % 2 == 0, 3 => i * j % 5 == 1, 4 => (i * i + j) % 7 == 3, _ => true };
        if keep { Some(v) } else { None } }) };
    v.push(list("larger", &format!("sides from {sides:?}, six patterns with empty rows and columns and stored zeros: everything asked of one matrix"), cases.clone(), move |&(n, m, kind), st| single(&shape(n, m, kind), n, m, st)));
    let long = [1usize, 2, 33, 65, 66];
    let mut far = Vec::new();
    for &n in &long { for &m in &long { for kind in 0..6usize { if n.max(m) > 20 && n * m < 2500 { far.push((n, m, kind)); } } } }
    v.push(list("long sides", &format!("sides from {long:?}, as long as there are less than 2500 entries, the same six patterns: everything asked of one matrix"), far, move |&(n, m, kind), st| single(&shape(n, m, kind), n, m, st)));
    let mut far = Vec::new();
    for &n in &long[..5] { for &k in &long[..5] { for &m in &long[..5] { for f in [1usize, 4] { if n.max(m).max(k) > 20 && n * k * m < 5000 { far.push((n, k, m, f)); } } } } }
    v.push(list("products, long sides", &format!("sides from {:?}, as long as n*k*m < 5000, two pairs of patterns", &long[..5]), far, move |&(n, k, m, f), st| product(&shape(n, k, f), &shape(k, m, (f + f % 3 + 1) % 6), (n, k, m), st)));
    let mut cases = Vec::new();
    for &n in &sides { for &k in &sides { for &m in &sides { for f in 0..36usize { cases.push((n, k, m, f)); } } } }
    v.push(list("larger products", &format!("sides from {sides:?}, all pairs of six patterns"), cases, move |&(n, k, m, f), st| product(&shape(n, k, f / 6), &shape(k, m, f % 6), (n, k, m), st)));
    // long lists of entries, on a thread with the default stack of 2 MB
    let mut cases = Vec::new();
    for n in t.pick(vec![1usize, 1000, 65535, 65537, 200_000], vec![1, 1000, 65535, 65537, 200_000, 2_000_000]) { for form in [false, true] { for twice in [false, true] { cases.push((n, form, twice)); } } }
    v.push(list("long lists of entries", &format!("single columns and rows with up to {} entries, one in three of them missing, copied or not, on a thread with a stack of 2 MB: listed, compared and dropped without a trace", t.pick(200_000, 2_000_000)), cases,
        |&(n, form, twice), st| {
            st.steps(6);
            std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || -> Check {
                let before = live_bytes();
                {
                    let s: SparseMatrix<i64> = SparseMatrix::from(((n, 1), |(i, _): (usize, usize)| if i % 3 == 1 { None } else { Some(i as i64 - 5) }));
                    let s = if form { s.transpose() } else { s };
                    let other = if twice { Some(s.clone()) } else { None };
                    let at = |i: usize| if form { s.row_iter(0).nth(i) } else { s.col_iter(0).nth(i) };
                    let c = n - (n + 1) / 3;
                    ensure!(at(c).is_none(), "more than {c} entries are listed");
                    for k in [0, c / 2, c - 1] { let i = k + (k + 1) / 2; ensure!(at(k) == Some((i, &(i as i64 - 5))), "entry {k} is {:?}, should be at {i}", at(k)); }
                    let i = n - 1;
                    let want = if i % 3 == 1 { None } else { Some((0, i as i64 - 5)) };
                    let got = if form { s.col_iter(i).next() } else { s.row_iter(i).next() };
                    ensure!(got.map(|(k, v)| (k, *v)) == want, "the line across {i} starts with {got:?}");
                    if let Some(o) = &other { ensure!(*o == s, "not equal to its copy"); }
                    drop(s);
                    if let Some(o) = other { let got = if form { o.row_iter(0).count() } else { o.col_iter(0).count() }; ensure!(got == c, "the copy lists {got} entries after the original is gone, should be {c}"); }
                }
                ensure!(live_bytes() == before, "{} bytes are left", live_bytes() - before);
                Ok(())
            }).unwrap().join().unwrap_or_else(|_| Err("panicked".into())))
        }));
    v.push(space("one-rational", "all 2x3 matrices of rationals with entries in none, 0, 1/2, -2/3, 3", pw(5, 6),
        move |i| Some(word(i, 6, &[None, Some((0, 1)), Some((1, 2)), Some((-2, 3)), Some((3, 1))])),
        |w, st| {
            let p: Pat<Rational> = gen(2, 3, |i, j| w[i * 3 + j].map(|(a, b)| Rational::new(a, b)));
            single(&p, 2, 3, st)
        }));
    // products
    let shapes: &[(usize, usize, usize, usize)] = t.pick(&[(1, 1, 1, 4), (1, 2, 1, 4), (2, 1, 2, 4), (1, 3, 1, 4), (1, 4, 1, 4), (1, 5, 1, 3), (2, 2, 2, 4), (1, 2, 3, 4), (3, 2, 1, 4), (2, 3, 2, 2), (2, 2, 3, 2), (3, 2, 2, 2), (1, 8, 1, 2)],
        &[(1, 1, 1, 4), (1, 2, 1, 4), (2, 1, 2, 4), (1, 3, 1, 4), (1, 4, 1, 4), (1, 5, 1, 4), (2, 2, 2, 4), (1, 2, 3, 4), (3, 2, 1, 4), (2, 3, 2, 3), (2, 2, 3, 3), (3, 2, 2, 3), (3, 3, 3, 2), (1, 6, 1, 3), (1, 10, 1, 2), (2, 4, 2, 2), (3, 1, 3, 4)]);
    for &(n, k, m, b) in shapes {
        let al: Vec<Option<i64>> = match b { 2 => vec![None, Some(2)], 3 => vec![None, Some(2), Some(-3)], _ => vec![None, Some(2), Some(-3), Some(0)] };
        v.push(space(&format!("product-{n}x{k}x{m}"), &format!("all pairs of a {n}x{k} and a {k}x{m} matrix of i64 with entries in {al:?}, sparse and dense, in both storage orders"), pw(b as u64, n * k + k * m),
            move |i| { let w = word(i, n * k + k * m, &al); Some((gen(n, k, |r, c| w[r * k + c]), gen(k, m, |r, c| w[n * k + r * m + c]))) },
            move |(a, b): &(Pat<i64>, Pat<i64>), st| product(a, b, (n, k, m), st)));
    }
    v.push(space("product-rational", "all pairs of a 1x3 and a 3x1 matrix of rationals with entries in none, 1/2, -2/3, 3", pw(4, 6),
        move |i| Some(word(i, 6, &[None, Some((1, 2)), Some((-2, 3)), Some((3, 1))])),
        |w, st| {
            let f = |x: Option<(i64, i64)>| x.map(|(a, b)| Rational::new(a, b));
            product(&gen(1, 3, |_, j| f(w[j])), &gen(3, 1, |i, _| f(w[3 + i])), (1, 3, 1), st)
        }));
    let top = 4usize;
    v.push(space("mismatch", "products whose inner sizes differ, all shapes with sides up to 4", pw(top as u64, 4),
        move |i| { let d = digits(i, &[4, 4, 4, 4])?; if d[1] == d[2] { return None; } Some([d[0] as usize + 1, d[1] as usize + 1, d[2] as usize + 1, d[3] as usize + 1]) },
        |&[a, b, c, d], st| {
            let s = |n, m| SparseMatrix::from(((n, m), |(i, j)| if (i + j) % 2 == 0 { Some(1i64) } else { None }));
            let e = |n, m| dm(&gen(n, m, |_, _| 1i64));
            ensure!(guard(|| s(a, b) * s(c, d)).is_err(), "sparse * sparse of {a}x{b} and {c}x{d} was accepted");
            ensure!(guard(|| s(a, b) * e(c, d)).is_err(), "sparse * dense of {a}x{b} and {c}x{d} was accepted");
            ensure!(guard(|| e(a, b) * s(c, d)).is_err(), "dense * sparse of {a}x{b} and {c}x{d} was accepted");
            st.steps(3);
            Ok(())
        }));
    v
}

// ---------------------------------------------------------------- C28
fn cvec<T: PID + Copy + Debug + Sum<T>, const N: usize>(a: &[T], b: &[T], s: T) -> Check {
    let arr = |x: &[T]| -> [T; N] { std::array::from_fn(|i| x[i]) };
    let (u, w) = (ConstVector::<T, N>::from(arr(a)), ConstVector::<T, N>::from(arr(b)));
    let at = |f: &dyn Fn(usize) -> T| -> [T; N] { std::array::from_fn(|i| f(i)) };
    let sum = at(&|i| a[i] + b[i]);
    ensure!(*(u + w) == sum, "{a:?} + {b:?} is {:?}", *(u + w));
    let dif = at(&|i| a[i] - b[i]);
    ensure!(*(u - w) == dif, "{a:?} - {b:?} is {:?}", *(u - w));
    let scl = at(&|i| a[i] * s);
    ensure!(*(u * s) == scl, "{a:?} * {s:?} is {:?}", *(u * s));
    ensure!(*(-u) == at(&|i| -a[i]), "-{a:?} is {:?}", *(-u));
    let mut x = u; x += w; ensure!(*x == sum, "+= gives {x:?}");
    let mut x = u; x -= w; ensure!(*x == dif, "-= gives {x:?}");
    let mut x = u; x *= s; ensure!(*x == scl, "*= gives {x:?}");
    ensure!(*ConstVector::<T, N>::zero() == [T::zero(); N], "zero is {:?}", ConstVector::<T, N>::zero());
    let mut d = T::zero();
    for i in 0..N { d += a[i] * b[i]; }
    ensure!(u.dot(w) == d, "{a:?} . {b:?} is {:?}, should be {d:?}", u.dot(w));
    ensure!((u == w) == (a == b), "{a:?} == {b:?} is {}", u == w);
    for i in 0..N { ensure!(u[i] == a[i], "element {i} of {a:?} is {:?}", u[i]); let mut x = u; x[i] = s; ensure!(*x == at(&|k| if k == i { s } else { a[k] }), "writing element {i} gives {x:?}"); }
    Ok(())
}
fn cvec_div<T: Field + Copy + Debug, const N: usize>(a: &[T], s: T) -> Check {
    let u = ConstVector::<T, N>::from(std::array::from_fn::<T, N, _>(|i| a[i]));
    let want: [T; N] = std::array::from_fn(|i| a[i] / s);
    ensure!(*(u / s) == want, "{a:?} / {s:?} is {:?}", *(u / s));
    let mut x = u; x /= s; ensure!(*x == want, "/= gives {x:?}");
    Ok(())
}
fn cmat<T: PID + Copy + Debug + Sum<T>, const N: usize, const M: usize>(a: &D<T>, b: &D<T>, s: T) -> Check {
    let arr = |x: &D<T>| -> [[T; M]; N] { std::array::from_fn(|i| std::array::from_fn(|j| x[i][j])) };
    let (u, w) = (ConstMatrix::<T, N, M>::from(arr(a)), ConstMatrix::<T, N, M>::from(arr(b)));
    ensure!(*u == arr(a), "built from rows {a:?}: {:?}", *u);
    let cols: [ConstVector<T, N>; M] = std::array::from_fn(|j| ConstVector::from(std::array::from_fn::<T, N, _>(|i| a[i][j])));
    ensure!(*ConstMatrix::<T, N, M>::from(cols) == arr(a), "built from the columns of {a:?}: {:?}", *ConstMatrix::<T, N, M>::from(cols));
    let mut x = u; x += w; ensure!(*x == arr(&zip(a, b, |p, q| p + q)), "{a:?} += {b:?} gives {:?}", *x);
    let mut x = u; x -= w; ensure!(*x == arr(&zip(a, b, |p, q| p - q)), "{a:?} -= {b:?} gives {:?}", *x);
    let scl = arr(&map(a, |p| p * s));
    let mut x = u; x *= s; ensure!(*x == scl, "{a:?} *= {s:?} gives {:?}", *x);
    ensure!(*(u * s) == scl, "{a:?} * {s:?} is {:?}", *(u * s));
    ensure!(*(-u) == arr(&map(a, |p| -p)), "-{a:?} is {:?}", *(-u));
    ensure!((u == w) == (a == b), "{a:?} == {b:?} is {}", u == w);
    ensure!(*ConstMatrix::<T, N, M>::zero() == [[T::zero(); M]; N], "zero is wrong");
    ensure!(*ConstMatrix::<T, N, N>::identity() == std::array::from_fn::<[T; N], N, _>(|i| std::array::from_fn(|j| if i == j { T::one() } else { T::zero() })), "the identity of size {N} is wrong");
    for i in 0..N { for j in 0..M { ensure!(u[i][j] == a[i][j], "element ({i}, {j}) of {a:?}"); let mut x = u; x[i][j] = s; let mut e = a.clone(); e[i][j] = s; ensure!(*x == arr(&e), "writing element ({i}, {j}) gives {:?}", *x); } }
    Ok(())
}
fn cmat_div<T: Field + Copy + Debug, const N: usize, const M: usize>(a: &D<T>, s: T) -> Check {
    let u = ConstMatrix::<T, N, M>::from(std::array::from_fn::<[T; M], N, _>(|i| std::array::from_fn(|j| a[i][j])));
    let want: [[T; M]; N] = std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] / s));
    ensure!(*(u / s) == want, "{a:?} / {s:?} is {:?}", *(u / s));
    let mut x = u; x /= s; ensure!(*x == want, "{a:?} /= {s:?} gives {:?}", *x);
    Ok(())
}
fn vec_space<T: PID + Copy + Debug + Sum<T> + Send + Sync + 'static, const N: usize>(ty: &str, al: Vec<T>, scal: Vec<T>, div: Option<fn(&[T], T) -> Check>) -> Box<dyn Space> {
    let (b, k) = (al.len() as u64, scal.len() as u64);
    space(&format!("vector-{ty}-{N}"), &format!("all pairs of vectors of length {N} of {ty} with entries in {al:?}, scalars {scal:?}"), pw(b, 2 * N) * k,
        move |i| Some((word(i / k, 2 * N, &al), scal[(i % k) as usize])),
        move |(w, s), st| {
            st.steps(12);
            cvec::<T, N>(&w[..N], &w[N..], *s)?;
            if let Some(d) = div { if *s != T::zero() { d(&w[..N], *s)?; st.steps(2); } }
            Ok(())
        })
}
fn mat_space<T: PID + Copy + Debug + Sum<T> + Send + Sync + 'static, const N: usize, const M: usize>(ty: &str, al: Vec<T>, s: T, div: Option<fn(&D<T>, T) -> Check>) -> Box<dyn Space> {
    let b = al.len() as u64;
    space(&format!("matrix-{ty}-{N}x{M}"), &format!("all pairs of {N}x{M} matrices of {ty} with entries in {al:?}, scalar {s:?}"), pw(b, 2 * N * M),
        move |i| { let w = word(i, 2 * N * M, &al); Some((gen(N, M, |r, c| w[r * M + c]), gen(N, M, |r, c| w[N * M + r * M + c]))) },
        move |(x, y), st| {
            st.steps(12);
            cmat::<T, N, M>(x, y, s)?;
            if let Some(d) = div { d(x, s)?; st.steps(2); }
            Ok(())
        })
}
pub fn c28(t: Tier) -> Spaces {
    let q = |a, b| Rational::new(a, b);
    let i3 = vec![0i64, 1, -2];
    let i5 = vec![0i64, 1, -2, 3, -7];
    let sc = vec![0i64, 1, -1, 2, -3];
    let f5 = vec![0.0, 1.0, -2.5, 0.125, -7.0];
    let fs = vec![1.0, -2.0, 0.5, 0.0];
    let q5 = vec![q(0, 1), q(1, 2), q(-2, 3), q(3, 1), q(-1, 6)];
    let qs = vec![q(2, 3), q(-1, 2), q(0, 1), q(5, 1)];
    let mut v: Spaces = vec![
        vec_space::<i64, 1>("i64", i5.clone(), sc.clone(), None), vec_space::<i64, 2>("i64", i5.clone(), sc.clone(), None),
        vec_space::<i64, 3>("i64", i5.clone(), sc.clone(), None), vec_space::<i64, 4>("i64", i3.clone(), sc.clone(), None),
        vec_space::<f64, 1>("f64", f5.clone(), fs.clone(), Some(cvec_div::<f64, 1>)), vec_space::<f64, 2>("f64", f5.clone(), fs.clone(), Some(cvec_div::<f64, 2>)),
        vec_space::<f64, 3>("f64", f5.clone(), fs.clone(), Some(cvec_div::<f64, 3>)),
        vec_space::<Rational, 1>("rational", q5.clone(), qs.clone(), Some(cvec_div::<Rational, 1>)), vec_space::<Rational, 2>("rational", q5.clone(), qs.clone(), Some(cvec_div::<Rational, 2>)),
        mat_space::<i64, 1, 1>("i64", i5.clone(), -3, None), mat_space::<i64, 1, 2>("i64", i5.clone(), 2, None), mat_space::<i64, 2, 1>("i64", i5.clone(), 2, None),
        mat_space::<i64, 2, 2>("i64", i3.clone(), -3, None), mat_space::<i64, 1, 3>("i64", i3.clone(), 2, None), mat_space::<i64, 3, 1>("i64", i3.clone(), 2, None),
        mat_space::<i64, 2, 3>("i64", vec![1, -2], 2, None), mat_space::<i64, 3, 2>("i64", vec![1, -2], 2, None), mat_space::<i64, 3, 3>("i64", vec![1, -2], 2, None),
        mat_space::<f64, 2, 2>("f64", vec![0.0, 1.5, -2.0], -0.5, Some(cmat_div::<f64, 2, 2>)), mat_space::<f64, 2, 3>("f64", vec![1.5, -2.0], 4.0, Some(cmat_div::<f64, 2, 3>)),
        mat_space::<Rational, 2, 2>("rational", vec![q(0, 1), q(1, 2), q(-2, 3)], q(-3, 4), Some(cmat_div::<Rational, 2, 2>)), mat_space::<Rational, 3, 2>("rational", vec![q(1, 2), q(-2, 3)], q(-3, 4), Some(cmat_div::<Rational, 3, 2>)),
    ];
    let m = t.pick(12i64, 40);
    let w = (2 * m + 1) as u64;
    v.push(space("norm", &format!("all integer vectors of length 3 with entries up to {m} in absolute value"), pw(w, 3),
        move |i| Some(digits(i, &[w, w, w])?.into_iter().map(|d| d as i64 - m).collect::<Vec<_>>()),
        |x, st| {
            let u = ConstVector::<f64, 3>::from([x[0] as f64, x[1] as f64, x[2] as f64]);
            let n2: i64 = x.iter().map(|a| a * a).sum();
            st.step();
            st.outcome(n2);
            ensure!(u.two_norm() == (n2 as f64).sqrt(), "the norm of {x:?} is {}", u.two_norm());
            Ok(())
        }));
    // other units of measurement: sums of powers of two are exact, so everything has to scale exactly
    let mant = vec![0i64, 1, -2, 3];
    let units = [-300i32, -100, -60, -40, -20, 20, 40, 60, 100, 300];
    v.push(space("units", &format!("all pairs of vectors of length 3 and of 1x2 matrices of floats with entries in {mant:?} times 2^k, k in {units:?}; norms, scalars 2^-k and 3"), pw(4, 6) * 10,
        move |i| Some((word(i / 10, 6, &mant), units[(i % 10) as usize])),
        |(w, e), st| {
            let u = 2f64.powi(*e);
            let f: Vec<f64> = w.iter().map(|&x| x as f64 * u).collect();
            cvec::<f64, 3>(&f[..3], &f[3..], 3.0)?;
            cvec::<f64, 3>(&f[..3], &f[3..], 1.0 / u)?;
            cvec_div::<f64, 3>(&f[..3], u)?;
            let (a, b): (D<f64>, D<f64>) = (vec![f[..2].to_vec()], vec![f[2..4].to_vec()]);
            cmat::<f64, 1, 2>(&a, &b, 1.0 / u)?;
            cmat_div::<f64, 1, 2>(&a, u)?;
            let n2: i64 = w[..3].iter().map(|a| a * a).sum();
            let x = ConstVector::<f64, 3>::from([f[0], f[1], f[2]]);
            ensure!((x.two_norm() / u - (n2 as f64).sqrt()).abs() <= 1e-12 * (n2 as f64), "the norm of {:?} is {}", &f[..3], x.two_norm());
            st.steps(40);
            st.outcome(n2);
            Ok(())
        }));
    // larger sizes
    fn wide_vec<const N: usize>(out: &mut Spaces) {
        out.push(space(&format!("vectors of length {N}"), "all pairs of five patterns of entries (unit vectors, alternating, distinct), three scalars, integers, rationals and floats", 25 * 3, |i| digits(i, &[5, 5, 3]), |d, st| {
            let pat = |k: u64| -> Vec<i64> { (0..N).map(|i| match k { 0 => (i == 0) as i64, 1 => (i + 1 == N) as i64, 2 => 1 - 2 * (i as i64 % 2), 3 => i as i64 - 7, _ => (i * i) as i64 % 11 - 4 }).collect() };
            let (a, b, s) = (pat(d[0]), pat(d[1]), [3i64, -1, 0][d[2] as usize]);
            cvec::<i64, N>(&a, &b, s)?;
            let f = |v: &[i64]| -> Vec<f64> { v.iter().map(|&x| x as f64 / 4.0).collect() };
            cvec::<f64, N>(&f(&a), &f(&b), s as f64)?;
            let q = |v: &[i64]| -> Vec<Rational> { v.iter().map(|&x| Rational::new(x, 3)).collect() };
            cvec::<Rational, N>(&q(&a), &q(&b), Rational::new(s, 2))?;
            if s != 0 { cvec_div::<f64, N>(&f(&a), s as f64)?; cvec_div::<Rational, N>(&q(&a), Rational::new(s, 2))?; }
            let n2: i64 = a.iter().map(|x| x * x).sum();
            let u = ConstVector::<f64, N>::from(std::array::from_fn::<f64, N, _>(|i| a[i] as f64));
            ensure!((u.two_norm() - (n2 as f64).sqrt()).abs() < 1e-12 * (1.0 + n2 as f64), "the norm of {a:?} is {}", u.two_norm());
            st.steps(40);
            Ok(())
        }));
    }
    fn wide_mat<const N: usize, const M: usize>(out: &mut Spaces) {
        out.push(space(&format!("matrices of size {N}x{M}"), "all pairs of five patterns of entries, three scalars, integers, rationals and floats", 25 * 3, |i| digits(i, &[5, 5, 3]), |d, st| {
            let pat = |k: u64| -> D<i64> { gen(N, M, |i, j| match k { 0 => (i == 0 && j + 1 == M) as i64, 1 => (i + 1 == N && j == 0) as i64, 2 => (i * M + j) as i64 - 9, 3 => (i == j) as i64, _ => (i * i + 3 * j) as i64 % 13 - 5 }) };
            let (a, b, s) = (pat(d[0]), pat(d[1]), [3i64, -1, 0][d[2] as usize]);
            cmat::<i64, N, M>(&a, &b, s)?;
            let f = |x: &D<i64>| map(x, |x| x as f64 / 4.0);
            cmat::<f64, N, M>(&f(&a), &f(&b), s as f64)?;
            let q = |x: &D<i64>| map(x, |x| Rational::new(x, 3));
            cmat::<Rational, N, M>(&q(&a), &q(&b), Rational::new(s, 2))?;
            if s != 0 { cmat_div::<f64, N, M>(&f(&a), s as f64)?; cmat_div::<Rational, N, M>(&q(&a), Rational::new(s, 2))?; }
            st.steps(40);
            Ok(())
        }));
    }
    wide_vec::<5>(&mut v); wide_vec::<7>(&mut v); wide_vec::<8>(&mut v); wide_vec::<9>(&mut v); wide_vec::<16>(&mut v); wide_vec::<17>(&mut v); wide_vec::<33>(&mut v); wide_vec::<64>(&mut v); wide_vec::<65>(&mut v); wide_vec::<129>(&mut v); wide_vec::<257>(&mut v);
    wide_mat::<4, 4>(&mut v); wide_mat::<4, 5>(&mut v); wide_mat::<5, 4>(&mut v); wide_mat::<1, 9>(&mut v); wide_mat::<9, 1>(&mut v); wide_mat::<8, 8>(&mut v); wide_mat::<9, 16>(&mut v); wide_mat::<17, 3>(&mut v); wide_mat::<17, 17>(&mut v); wide_mat::<33, 33>(&mut v); wide_mat::<65, 2>(&mut v); wide_mat::<3, 129>(&mut v);
    v.push(vec_space::<i64, 4>("i64-wide", i5.clone(), sc.clone(), None));
    v.push(mat_space::<i64, 2, 2>("i64-wide", i5.clone(), -3, None));
    v.push(mat_space::<i64, 2, 3>("i64-wide", i3.clone(), 2, None));
    v.push(mat_space::<i64, 4, 2>("i64-wide", vec![1, -2], 2, None));
    v.push(mat_space::<i64, 3, 3>("i64-wide", vec![1, -2], 2, None));
    v.push(vec_space::<i64, 5>("i64-wide", i3.clone(), sc.clone(), None));
    if t.pick(false, true) {
        v.push(vec_space::<i64, 5>("i64-wider", i5.clone(), sc.clone(), None));
        v.push(mat_space::<i64, 2, 4>("i64-wider", i3.clone(), 2, None));
        v.push(mat_space::<i64, 4, 2>("i64-wider", i3.clone(), 2, None));
        v.push(mat_space::<i64, 3, 3>("i64-wider", i3.clone(), 2, None));
    }
    v
}
