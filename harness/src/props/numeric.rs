//! C14 determinants and linear systems, C15 orthogonal transformations and spectra, C16 lattice reduction.
use super::mat::{cols, framed, gen, id, known_complexes, map, mul, read, rows, tr, with_view, D, FORMS};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::lin_alg::Matrix;

pub type Z = D<i64>;
pub fn fl(a: &Z) -> D<f64> { map(a, |x| x as f64) }
pub fn mf(a: &D<f64>) -> Matrix<f64> { Matrix::from_array(a.clone()) }
/// Exact determinant (fraction-free elimination).
pub fn det(a: &Z) -> i128 {
    let n = a.len();
    let mut m: D<i128> = map(a, |x| x as i128);
    let (mut sign, mut prev) = (1i128, 1i128);
    for k in 0..n {
        let Some(p) = (k..n).find(|&i| m[i][k] != 0) else { return 0 };
        if p != k { m.swap(p, k); sign = -sign; }
        for i in k + 1..n { for j in k + 1..n { m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev; } }
        prev = m[k][k];
    }
    if n == 0 { 1 } else { sign * m[n - 1][n - 1] }
}
fn sub(a: &Z, r: &[usize], c: &[usize]) -> Z { r.iter().map(|&i| c.iter().map(|&j| a[i][j]).collect()).collect() }
/// Coefficients of the characteristic polynomial: sums of the principal minors of each size, 1..=n.
pub fn minors(a: &Z) -> Vec<i128> { let n = a.len(); (1..=n).map(|k| subsets(n, k).iter().map(|s| det(&sub(a, s, s))).sum()).collect() }
fn elementary(l: &[f64]) -> Vec<f64> {
    let mut e = vec![0.0; l.len() + 1];
    e[0] = 1.0;
    for (i, x) in l.iter().enumerate() { for k in (1..=i + 1).rev() { e[k] += e[k - 1] * x; } }
    e[1..].to_vec()
}
fn fro(a: &D<f64>) -> f64 { a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt() }
fn near(a: &D<f64>, b: &D<f64>, tol: f64) -> bool {
    rows(a) == rows(b) && cols(a) == cols(b) && a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x - y).abs() <= tol)
}
fn vals(m: &Matrix<f64>) -> D<f64> { read(m) }
fn orthonormal(q: &D<f64>, tol: f64) -> bool { near(&mul(&tr(q), q), &id(cols(q)), tol) }
fn square(i: u64, n: usize, al: &[i64]) -> Z { let w = word(i, n * n, al); gen(n, n, |r, c| w[r * n + c]) }
fn symmetric(i: u64, n: usize, al: &[i64]) -> Z {
    let w = word(i, n * (n + 1) / 2, al);
    let at = |r: usize, c: usize| w[r * n - r * (r + 1) / 2 + c];
    gen(n, n, |r, c| at(r.min(c), r.max(c)))
}
fn rng(k: i64) -> Vec<i64> { (-k..=k).collect() }
/// (side, alphabet) pairs of the square matrices explored.
fn all_squares(name: &str, set: &[(usize, Vec<i64>)], check: impl Fn(&Z, &mut Stats) -> Check + Sync + Send + Clone + 'static) -> Spaces {
    set.iter().map(|(n, al)| {
        let (n, al, check) = (*n, al.clone(), check.clone());
        space(&format!("{name}-{n}-{}", al.len()), &format!("all {n}x{n} matrices with entries in {al:?}"), pw(al.len() as u64, n * n), move |i| Some(square(i, n, &al)), check)
    }).collect()
}
fn all_symmetric(name: &str, set: &[(usize, Vec<i64>)], check: impl Fn(&Z, &mut Stats) -> Check + Sync + Send + Clone + 'static) -> Spaces {
    set.iter().map(|(n, al)| {
        let (n, al, check) = (*n, al.clone(), check.clone());
        space(&format!("{name}-{n}-{}", al.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_")), &format!("all symmetric {n}x{n} matrices with entries in {al:?}"), pw(al.len() as u64, n * (n + 1) / 2), move |i| Some(symmetric(i, n, &al)), check)
    }).collect()
}

// ---------------------------------------------------------------- C14
fn det_check(a: &Z, st: &mut Stats) -> Check {
    let want = det(a);
    st.outcome(want);
    let f = fl(a);
    let tol = 1e-9 * (1.0 + fro(&f).powi(rows(a) as i32));
    let got = mf(&f).det();
    ensure!((got - want as f64).abs() <= tol, "det is {got}, should be {want}");
    for form in 1..FORMS {
        let got = with_view(&f, form, &77.5, |v| v.det());
        ensure!((got - want as f64).abs() <= tol, "det of view form {form} is {got}, should be {want}");
    }
    st.steps(FORMS);
    Ok(())
}
fn lu_check(a: &Z, st: &mut Stats) -> Check {
    let n = rows(a);
    let ix: Vec<usize> = (0..n).collect();
    // LU without pivoting exists (and is well conditioned here) when the leading minors are nonzero
    if (1..n).any(|k| det(&sub(a, &ix[..k], &ix[..k])) == 0) { return Ok(()); }
    let f = fl(a);
    let product = |lu: &D<f64>| -> D<f64> {
        let l = gen(n, n, |i, j| if i == j { 1.0 } else if i > j { lu[i][j] } else { 0.0 });
        let u = gen(n, n, |i, j| if i <= j { lu[i][j] } else { 0.0 });
        mul(&l, &u)
    };
    let mut m = mf(&f);
    m.lu();
    let lu = vals(&m);
    ensure!(near(&product(&lu), &f, 1e-6), "L*U is {:?}", product(&lu));
    let mut big = framed(&f, &77.5, 1, 2, 1, 1);
    big[(1..n + 1, 2..n + 2)].lu();
    let got = read(&big);
    ensure!(near(&gen(n, n, |i, j| got[i + 1][j + 2]), &lu, 1e-6), "LU of a view is {:?}", got);
    for (i, r) in got.iter().enumerate() { for (j, x) in r.iter().enumerate() {
        ensure!((i >= 1 && i <= n && j >= 2 && j < n + 2) || *x == 77.5, "LU of a view wrote outside of it, at ({i}, {j})");
    } }
    st.steps(2);
    Ok(())
}
fn solve_check(a: &Z, st: &mut Stats) -> Check {
    let n = rows(a);
    let d = det(a);
    if d == 0 { return Ok(()); }
    let f = fl(a);
    for k in 0..3usize {
        let b: Vec<i64> = (0..n).map(|i| match k { 0 => (i == 0) as i64, 1 => i as i64 * 3 - 2, _ => if i + 1 == n { -5 } else { 1 } }).collect();
        // Cramer's rule, exactly
        let want: D<f64> = (0..n).map(|c| vec![det(&gen(n, n, |i, j| if j == c { b[i] } else { a[i][j] })) as f64 / d as f64]).collect();
        let bm: D<f64> = b.iter().map(|&x| vec![x as f64]).collect();
        for form in 0..4 {
            let m = if form % 2 == 0 { mf(&f) } else { mf(&tr(&f)).transpose() };
            let v = if form < 2 { mf(&bm) } else { mf(&tr(&bm)).transpose() };
            let x = vals(&m.solve(v));
            ensure!(near(&x, &want, 1e-6 * (1.0 + fro(&want))), "solution for b = {b:?} (form {form}) is {x:?}, should be {want:?}");
            st.step();
        }
    }
    Ok(())
}
fn norm_check(a: &Z, st: &mut Stats) -> Check {
    let one = (0..cols(a)).map(|j| (0..rows(a)).map(|i| a[i][j].abs()).sum::<i64>()).max().unwrap() as f64;
    let inf = a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<i64>()).max().unwrap() as f64;
    let sq = a.iter().flatten().map(|x| x * x).sum::<i64>() as f64;
    let f = fl(a);
    st.outcome((one as i64, inf as i64, sq as i64));
    let check = |form: usize, o: f64, i: f64, fr: f64, two: Result<f64, String>| -> Check {
        ensure!(o == one, "one-norm is {o}, should be {one} (form {form})");
        ensure!(i == inf, "inf-norm is {i}, should be {inf} (form {form})");
        ensure!((fr - sq.sqrt()).abs() <= 1e-9 * (1.0 + fr), "frobenius norm is {fr}, should be {} (form {form})", sq.sqrt());
        if cols(a) == 1 { ensure!(matches!(two, Ok(x) if (x - sq.sqrt()).abs() <= 1e-9 * (1.0 + x)), "two-norm is {two:?}, should be {} (form {form})", sq.sqrt()); }
        else { ensure!(two.is_err(), "the two-norm of a matrix with several columns is {two:?}, should be rejected (form {form})"); }
        Ok(())
    };
    let m = mf(&f);
    check(0, m.one_norm(), m.inf_norm(), m.frobenius_norm(), guard(|| m.two_norm()))?;
    for form in 0..FORMS { with_view(&f, form, &-99.0, |v| check(form + 10, v.one_norm(), v.inf_norm(), v.frobenius_norm(), guard(|| v.two_norm())))?; }
    st.steps(4 * (FORMS + 1));
    Ok(())
}

/// The same matrix in another unit of measurement.
fn scaled_check(a: &Z, e: i32, st: &mut Stats) -> Check {
    let n = rows(a);
    let s = 2f64.powi(e);
    let f = map(&fl(a), |x| x * s);
    let size = fro(&fl(a));
    let want = det(a);
    let got = mf(&f).det();
    ensure!((got / s.powi(n as i32) - want as f64).abs() <= 1e-9 * size.powi(n as i32), "det of {f:?} is {got:e}, should be {want} times 2^{}", e * n as i32);
    let m = mf(&f);
    let one = (0..n).map(|j| (0..n).map(|i| a[i][j].abs()).sum::<i64>()).max().unwrap() as f64;
    let inf = a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<i64>()).max().unwrap() as f64;
    ensure!((m.one_norm() / s - one).abs() <= 1e-9 * one && (m.inf_norm() / s - inf).abs() <= 1e-9 * inf && (m.frobenius_norm() / s - size).abs() <= 1e-9 * size,
        "the norms of {f:?} are {:e}, {:e}, {:e}, should be {one}, {inf}, {size} times 2^{e}", m.one_norm(), m.inf_norm(), m.frobenius_norm());
    for j in 0..n {
        let w: f64 = f.iter().map(|r| (r[j] / s) * (r[j] / s)).sum::<f64>().sqrt();
        let got = m[(.., j)].two_norm() / s;
        ensure!((got - w).abs() <= 1e-9 * w, "the two-norm of column {j} of {f:?} is {got:e} times 2^{e}, should be {w}");
    }
    st.steps(4);
    if want != 0 {
        for unit in [1.0, s, 1.0 / s] {
            let b: D<f64> = (0..n).map(|i| vec![(0..n).map(|j| a[i][j] * (j as i64 + 1)).sum::<i64>() as f64 * unit]).collect();
            let x = vals(&mf(&f).solve(mf(&b)));
            for i in 0..n { ensure!((x[i][0] * s / unit - (i + 1) as f64).abs() <= 1e-7 * n as f64, "the solution of {f:?} * x = {b:?} is {x:?}, should be 1, 2, .. times {:e}", unit / s); }
            st.step();
        }
    }
    let ix: Vec<usize> = (0..n).collect();
    if (1..n).all(|k| det(&sub(a, &ix[..k], &ix[..k])) != 0) {
        let mut m = mf(&f);
        m.lu();
        let lu = vals(&m);
        for i in 0..n { for j in 0..n {
            let x: f64 = (0..=i.min(j)).map(|k| (if k == i { 1.0 } else { lu[i][k] }) * lu[k][j]).sum();
            ensure!((x / s - a[i][j] as f64).abs() <= 1e-7, "LU of {f:?} is {lu:?}, which does not multiply back");
        } }
        st.step();
    }
    st.outcome((want, e));
    Ok(())
}

pub fn c14(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let mut set = vec![(1, rng(9)), (2, rng(6)), (3, rng(2)), (3, vec![0, 1, -2, 5]), (4, vec![0, 1])];
    if t.pick(false, true) { set.extend([(3, rng(3)), (4, rng(1)), (5, vec![0, 1])]); }
    v.extend(all_squares("det", &set, det_check));
    v.extend(all_squares("solve", &set, solve_check));
    let mut set = vec![(1, rng(9)), (2, rng(6)), (3, rng(2)), (3, vec![1, -2, 5, 0]), (4, vec![1, -1]), (4, vec![1, 0])];
    if t.pick(false, true) { set.extend([(3, rng(3)), (4, vec![0, 1, -1]), (5, vec![1, -1])]); }
    v.extend(all_squares("lu", &set, lu_check));
    for (n, m, k) in t.pick(vec![(1usize, 1usize, 9usize), (1, 2, 5), (2, 1, 5), (2, 2, 4), (2, 3, 2), (3, 2, 2), (5, 1, 3), (1, 5, 3), (3, 3, 1), (2, 5, 1), (5, 2, 1)], vec![(1, 1, 50), (1, 2, 20), (2, 1, 20), (2, 2, 9), (2, 3, 3), (3, 2, 3), (6, 1, 3), (1, 6, 3), (3, 3, 2), (2, 5, 1), (5, 2, 1), (3, 4, 1), (4, 3, 1)]) {
        let al = rng(k as i64);
        v.push(space(&format!("norm-{n}x{m}"), &format!("all {n}x{m} matrices with entries in {al:?}"), pw(al.len() as u64, n * m), move |i| { let w = word(i, n * m, &al); Some(gen(n, m, |r, c| w[r * m + c])) }, norm_check));
    }
    // larger matrices with known determinant and solution: permuted triangular ones
    let top = t.pick(6usize, 7);
    v.push(space("permuted", &format!("all row permutations of a triangular matrix, sides 2 to {top}, and of a tridiagonal one"), (2..=top).map(factorial).sum::<u64>() * 2,
        move |i| { let (k, j) = block(i / 2, &(2..=top).map(factorial).collect::<Vec<_>>()); Some((nth_perm(j, k + 2), i % 2 == 0)) },
        |(p, tri), st| {
            let n = p.len();
            let base: Z = gen(n, n, |i, j| if *tri { if j >= i { (i * 2 + j) as i64 % 5 - 1 + (i == j) as i64 * 3 } else { 0 } } else if i == j { 0 } else if i.abs_diff(j) == 1 { 1 + (i > j) as i64 } else { 0 });
            let a: Z = p.iter().map(|&i| base[i].clone()).collect();
            det_check(&a, st)?;
            solve_check(&a, st)
        }));
    let top = t.pick(28u64, 34);
    v.push(space("large", &format!("sides 5 to {top}, eight well conditioned patterns (banded, triangular, arrow, cyclic, permuted, block, sparse, full), six row rotations: determinant, system and LU"), (top - 4) * 8 * 6,
        move |i| { let d = digits(i, &[6, 8, top - 4])?; Some((d[2] as usize + 5, d[1], d[0] as usize)) },
        |&(n, k, rot), st| {
            let base: Z = gen(n, n, |i, j| { let e = i == j; let d = i.abs_diff(j); match k {
                0 => if e { 3 } else if d == 1 { -1 } else { 0 },
                1 => if e { if i % 2 == 0 { 1 } else { -2 } } else if i < j && d <= 2 { 1 } else { 0 },
                2 => if e { if i == 0 { n as i64 + 2 } else { 2 } } else if i == 0 || j == 0 { 1 } else { 0 },
                3 => if e { 2 } else if j == (i + 1) % n { 1 } else { 0 },
                4 => if j == (i * if n % 3 == 0 { 5 } else { 3 } + 1) % n { 1 + (i % 3) as i64 } else { 0 },
                5 => if i / 2 == j / 2 { if e { 2 } else { 1 } } else { 0 },
                6 => if e { -2 } else if i + j + 1 == n { 1 } else { 0 },
                _ => if e { 2 } else if i < j { 1 } else { 0 } } });
            let a: Z = (0..n).map(|i| base[(i + rot * n / 6) % n].clone()).collect();
            let want = det(&a);
            let f = fl(&a);
            let tol = 1e-9 * (1.0 + want.abs() as f64);
            let view = rot % FORMS;
            let got = if view == 0 { mf(&f).det() } else { with_view(&f, view, &77.5, |v| v.det()) };
            ensure!((got - want as f64).abs() <= tol, "det is {got}, should be {want}");
            st.step();
            solve_check(&a, st)?;
            if rot == 0 { lu_check(&a, st)?; }
            Ok(())
        }));
    let top = t.pick(40u64, 70);
    v.push(space("norms, large", &format!("sides 1 to {top} by 1 to 5 and transposes, zero but for one row, one column or one entry, at the first, middle and last place"), top * 5 * 2 * 9,
        move |i| { let d = digits(i, &[9, 2, 5, top])?; Some((d[3] as usize + 1, d[2] as usize + 1, d[1] == 1, d[0] as usize)) },
        |&(n, m, flip, k), st| {
            let at = |l: usize| [0, l / 2, l - 1][k % 3];
            let a: Z = gen(n, m, |i, j| match k / 3 { 0 => (i == at(n)) as i64 * (j as i64 - 2), 1 => (j == at(m)) as i64 * (3 - i as i64), _ => if i == at(n) && j == at(m) { -7 } else { (i + j) as i64 % 2 } });
            norm_check(&if flip { tr(&a) } else { a }, st)
        }));
    v.push(space("scaled", "all 3x3 matrices with entries in [0, 1, -1] whose rows are scaled by 1, 2^20 and 2^-20 in every order", pw(3, 9) * 6,
        |i| Some((square(i / 6, 3, &[0, 1, -1]), nth_perm(i % 6, 3))),
        |(a, p), st| {
            let s = [1.0, 1048576.0, 1.0 / 1048576.0];
            let f = gen(3, 3, |i, j| a[i][j] as f64 * s[p[i]]);
            let want = det(a) as f64;
            st.step();
            ensure!((mf(&f).det() - want).abs() <= 1e-6, "det of {f:?} is {}, should be {want}", mf(&f).det());
            if want != 0.0 {
                let b: D<f64> = (0..3).map(|i| vec![f[i].iter().sum()]).collect();
                let x = vals(&mf(&f).solve(mf(&b)));
                ensure!(near(&x, &vec![vec![1.0]; 3], 1e-6), "the solution should be all ones, but is {x:?}");
                st.step();
            }
            Ok(())
        }));
    let exps = [-200i32, -100, -60, -40, -30, -10, 10, 30, 60, 100, 200];
    let sets: Vec<(usize, Vec<i64>)> = t.pick(vec![(1, rng(2)), (2, rng(2)), (3, rng(1)), (4, vec![0, 1])], vec![(1, rng(3)), (2, rng(3)), (3, vec![0, 1, -2, 3]), (3, rng(1)), (4, vec![0, 1])]);
    for (n, al) in sets {
        v.push(space(&format!("all tiny or huge {n}x{n}-{}", al.len()), &format!("determinant, LU, system and norms of all {n}x{n} matrices with entries in {al:?} times a power of two from 2^-200 to 2^200"), pw(al.len() as u64, n * n) * 11,
            move |i| Some((square(i / 11, n, &al), exps[(i % 11) as usize])),
            move |(a, e), st| scaled_check(a, *e, st)));
    }
    v.push(space("mismatch", "determinants, LU, and systems of all sizes up to 4x4 that do not fit", 4 * 4 * 4,
        |i| { let d = digits(i, &[4, 4, 4])?; Some([d[0] as usize + 1, d[1] as usize + 1, d[2] as usize + 1]) },
        |&[n, m, k], st| {
            let a = gen(n, m, |i, j| if i == j { 2.0 } else { 1.0 / (1 + i + 2 * j) as f64 });
            if n != m {
                ensure!(matches!(guard(|| mf(&a).det()), Err(_) | Ok(0.0)), "the determinant of a {n}x{m} matrix is not 0");
                ensure!(guard(|| { let mut x = mf(&a); x.lu(); }).is_err(), "the LU decomposition of a {n}x{m} matrix was computed");
            }
            if n != m || m != k { ensure!(guard(|| mf(&a).solve(mf(&gen(k, 1, |i, _| i as f64)))).is_err(), "a system with a {n}x{m} matrix and {k} right sides was solved"); }
            st.steps(3);
            Ok(())
        }));
    v
}

// ---------------------------------------------------------------- C15
/// Modulo a prime: full rank there is full rank, and nothing overflows (a deficiency that only the prime sees skips the input).
fn full_column_rank(a: &Z) -> bool {
    const P: i128 = (1 << 61) - 1;
    let (n, m) = (rows(a), cols(a));
    let mut x: D<i128> = map(a, |v| (v as i128).rem_euclid(P));
    let inverse = |v: i128| { let (mut b, mut e, mut r) = (v, P - 2, 1i128); while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; } r };
    for k in 0..m {
        let Some(p) = (k..n).find(|&i| x[i][k] != 0) else { return false };
        x.swap(p, k);
        let inv = inverse(x[k][k]);
        for i in k + 1..n {
            let c = x[i][k] * inv % P;
            if c != 0 { for j in k..m { x[i][j] = (x[i][j] - c * x[k][j]).rem_euclid(P); } }
        }
    }
    true
}
fn gs_check(a: &Z, st: &mut Stats) -> Check {
    if !full_column_rank(a) { return Ok(()); }
    let f = fl(a);
    let m = cols(a);
    for form in 0..2 {
        let x = if form == 0 { mf(&f) } else { mf(&tr(&f)).transpose() };
        let q = vals(&x.clone().gram_schmidt());
        ensure!(orthonormal(&q, 1e-7), "gram_schmidt gives {q:?}, which is not orthonormal");
        let r = mul(&tr(&q), &f);
        ensure!(near(&mul(&q, &r), &f, 1e-7), "gram_schmidt gives {q:?}, which spans something else");
        for i in 0..m { ensure!(r[i][i] > 0.0, "gram_schmidt turned column {i} around: {q:?}"); for j in 0..i { ensure!(r[i][j].abs() < 1e-7, "gram_schmidt column {i} is not in the span of the first {i}: {q:?}"); } }
        let w = vals(&x.gram_schmidt_without_normalize());
        let norms: Vec<f64> = (0..m).map(|j| w.iter().map(|r| r[j] * r[j]).sum()).collect();
        for i in 0..m { for j in 0..m {
            let d: f64 = w.iter().map(|r| r[i] * r[j]).sum();
            ensure!(i == j || d.abs() < 1e-7, "without normalisation: columns {i} and {j} of {w:?} are not orthogonal");
            ensure!(i != j || (d - r[i][i] * r[i][i]).abs() < 1e-6, "without normalisation: column {i} of {w:?} has the wrong length");
            let c: f64 = w.iter().zip(&f).map(|(r, s)| r[i] * s[j]).sum::<f64>() / norms[i];
            ensure!(if i == j { (c - 1.0).abs() < 1e-7 } else { i < j || c.abs() < 1e-7 }, "without normalisation: {w:?} is not a unitriangular combination");
        } }
        st.steps(2);
    }
    Ok(())
}
fn invariants(a: &Z, b: &D<f64>, what: &str) -> Check {
    let n = rows(a);
    let f = fl(a);
    ensure!((fro(&f) - fro(b)).abs() <= 1e-7 * (1.0 + fro(&f)), "{what} changed the norm: {b:?}");
    // traces of powers determine the characteristic polynomial
    let (mut p, mut q) = (f.clone(), b.clone());
    for k in 1..=n {
        let (x, y): (f64, f64) = ((0..n).map(|i| p[i][i]).sum(), (0..n).map(|i| q[i][i]).sum());
        ensure!((x - y).abs() <= 1e-6 * (1.0 + fro(&f).powi(k as i32)), "{what} changed the trace of the {k}-th power from {x} to {y}: {b:?}");
        p = mul(&p, &f);
        q = mul(&q, b);
    }
    Ok(())
}
fn hessenberg_check(a: &Z, st: &mut Stats) -> Check {
    let n = rows(a);
    let mut m = mf(&fl(a));
    m.hessenberg_form();
    let h = vals(&m);
    let tol = 1e-9 * (1.0 + fro(&h));
    for i in 2..n { for j in 0..i - 1 { ensure!(h[i][j].abs() <= tol, "not a Hessenberg matrix: {h:?}"); } }
    st.step();
    invariants(a, &h, "hessenberg_form")?;
    let mut big = framed(&fl(a), &77.5, 2, 1, 1, 2);
    big[(2..n + 2, 1..n + 1)].hessenberg_form();
    let got = read(&big);
    for (i, r) in got.iter().enumerate() { for (j, x) in r.iter().enumerate() {
        let inside = i >= 2 && i < n + 2 && j >= 1 && j <= n;
        ensure!(if inside { (x - h[i - 2][j - 1]).abs() <= tol } else { *x == 77.5 }, "hessenberg_form of a view is {got:?}");
    } }
    st.step();
    Ok(())
}
fn quasi_triangular(x: &D<f64>, tol: f64) -> bool {
    let n = rows(x);
    (0..n).all(|i| (0..i).all(|j| x[i][j].abs() <= tol || (i == j + 1 && (j == 0 || x[j][j - 1].abs() <= tol) && (i + 1 == n || x[i + 1][i].abs() <= tol))))
}
fn qr_check(a: &Z, st: &mut Stats) -> Check {
    let f = fl(a);
    let tol = 1e-8 * (1.0 + fro(&f));
    let mut m = mf(&f);
    m.qr();
    let plain = vals(&m);
    ensure!(quasi_triangular(&plain, tol), "qr leaves {plain:?}, which has a block larger than 2x2");
    for owned in [true, false] {
        let mut m = mf(&f);
        let q = vals(&if owned { m.qr_with_op() } else { m[(.., ..)].qr_with_op() });
        let x = vals(&m);
        ensure!(rows(&q) == rows(a) && cols(&q) == rows(a) && orthonormal(&q, 1e-8), "qr_with_op returns {q:?}, which is not orthogonal");
        ensure!(near(&mul(&mul(&q, &x), &tr(&q)), &f, tol), "qr_with_op leaves {x:?} and returns {q:?}, which do not give the matrix back");
        ensure!(quasi_triangular(&x, tol), "qr_with_op leaves {x:?}, which has a block larger than 2x2");
        // both ways give the same blocks along the diagonal
        let n = rows(a);
        for i in 0..n { ensure!((x[i][i] - plain[i][i]).abs() <= 1e-5 * (1.0 + fro(&f)) , "qr and qr_with_op end in {plain:?} and {x:?}"); }
    }
    st.steps(3);
    Ok(())
}
fn francis_check(a: &Z, st: &mut Stats) -> Check {
    let f = fl(a);
    let tol = 1e-8 * (1.0 + fro(&f));
    let mut m = mf(&f);
    m.francis_step();
    let x = vals(&m);
    invariants(a, &x, "francis_step")?;
    let n = rows(a);
    for i in 2..n { for j in 0..i - 1 { ensure!(x[i][j].abs() <= tol, "francis_step leaves {x:?}, which is not a Hessenberg matrix"); } }
    let mut m = mf(&f);
    let q = vals(&m.francis_step_with_op());
    ensure!(near(&vals(&m), &x, tol), "francis_step and francis_step_with_op give {x:?} and {:?}", vals(&m));
    ensure!(orthonormal(&q, 1e-8) && near(&mul(&mul(&q, &x), &tr(&q)), &f, tol), "francis_step_with_op leaves {x:?} and returns {q:?}, which do not give the matrix back");
    st.steps(2);
    Ok(())
}
/// The same numbers up to rounding, for a matrix of the given size.
fn same(a: &[f64], b: &[f64], size: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * size) }
fn eigenvalues_ok(l: &[f64], a: &Z, what: &str) -> Check {
    let n = rows(a);
    ensure!(l.len() == n, "{what}: {} eigenvalues of a {n}x{n} matrix", l.len());
    ensure!(l.iter().all(|x| x.is_finite()) && l.windows(2).all(|w| w[0] <= w[1]), "{what}: {l:?} are not numbers in increasing order");
    let scale = 1.0 + fro(&fl(a));
    for (k, (x, y)) in elementary(l).into_iter().zip(minors(a)).enumerate() {
        ensure!((x - y as f64).abs() <= 1e-7 * scale.powi(k as i32 + 1), "{what}: {l:?} are not the roots of the characteristic polynomial: coefficient {} is {x}, should be {y}", k + 1);
    }
    Ok(())
}
fn eigenvectors_ok(a: &Z, l: &[f64], v: &D<f64>, symmetric: bool, what: &str) -> Check {
    let f = fl(a);
    let (n, k) = (rows(a), cols(v));
    ensure!(rows(v) == n, "{what}: eigenvectors of size {:?}", (rows(v), k));
    let av = mul(&f, v);
    for j in 0..k {
        let norm: f64 = v.iter().map(|r| r[j] * r[j]).sum::<f64>().sqrt();
        ensure!((norm - 1.0).abs() < 1e-7, "{what}: eigenvector {j} of {v:?} has length {norm}");
        for i in 0..n { ensure!((av[i][j] - l[j] * v[i][j]).abs() <= 1e-6 * (1.0 + fro(&f)), "{what}: column {j} of {v:?} is no eigenvector for {}", l[j]); }
    }
    ensure!(!symmetric || orthonormal(v, 1e-6), "{what}: the eigenvectors {v:?} are not orthogonal");
    Ok(())
}
fn column(m: &Matrix<f64>) -> Vec<f64> { vals(m).into_iter().map(|r| r[0]).collect() }
fn symmetric_check(a: &Z, st: &mut Stats) -> Check {
    let f = fl(a);
    let n = rows(a);
    let tol = 1e-8 * (1.0 + fro(&f));
    // tridiagonalisation, recording the transformation or not
    let clean = |m: &Matrix<f64>| { let x = vals(m); gen(n, n, |i, j| if i.abs_diff(j) <= 1 { x[i][j] } else { 0.0 }) };
    let mut m = mf(&f);
    m.householder_tridiagonalization(false);
    let t1 = clean(&m);
    let mut m = mf(&f);
    m.householder_tridiagonalization(true);
    let t2 = clean(&m);
    ensure!(near(&t1, &t2, tol), "tridiagonalization with and without the transformation gives {t2:?} and {t1:?}");
    let mut q = id::<f64>(n);
    if n > 2 { let h = vals(&m[(2.., ..n - 2)].extract_householder_vecs()); for i in 1..n { for j in 1..n { q[i][j] = h[i - 1][j - 1]; } } }
    ensure!(orthonormal(&q, 1e-8), "the recorded transformation {q:?} is not orthogonal");
    ensure!(near(&mul(&mul(&q, &f), &tr(&q)), &t2, tol), "tridiagonalization gives {t2:?} and records {q:?}, which do not belong to the matrix");
    // symmetric QR algorithm
    let mut m = mf(&f);
    let q = vals(&m.symmetric_qr(true));
    let x = vals(&m);
    ensure!(orthonormal(&q, 1e-8), "symmetric_qr returns {q:?}, which is not orthogonal");
    ensure!(near(&mul(&mul(&q, &f), &tr(&q)), &x, tol), "symmetric_qr leaves {x:?} and returns {q:?}, which do not belong to the matrix");
    ensure!(quasi_triangular(&x, tol) && quasi_triangular(&tr(&x), tol), "symmetric_qr leaves {x:?}, which has a block larger than 2x2");
    let mut m = mf(&f);
    m.symmetric_qr(false);
    ensure!(near(&vals(&m), &x, 10.0 * tol), "symmetric_qr with and without the transformation leaves {x:?} and {:?}", vals(&m));
    // spectra and eigenvectors
    let l = column(&mf(&f).spectrum_symmetric());
    if n <= 6 { eigenvalues_ok(&l, a, "spectrum_symmetric")?; eigenvalues_ok(&column(&mf(&f).spectrum()), a, "spectrum")?; }
    else {
        // the eigenvectors below certify all of `l`; the general algorithm has to agree with it
        let mut g = column(&mf(&f).spectrum());
        g.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ensure!(g.len() == n && g.iter().zip(&l).all(|(x, y)| (x - y).abs() <= 1e-6 * (1.0 + fro(&f))), "spectrum lists {g:?}, spectrum_symmetric {l:?}");
    }
    let (s, v) = mf(&f).spectrum_with_invariant_space_symmetric();
    ensure!(same(&column(&s), &l, fro(&f)), "spectrum_with_invariant_space_symmetric lists {:?}, spectrum_symmetric {l:?}", column(&s));
    eigenvectors_ok(a, &l, &vals(&v), true, "spectrum_with_invariant_space_symmetric")?;
    for k in 1..=n {
        let (s, v) = mf(&f).spectrum_with_n_smallest_eigenvecs_symmetric(k);
        ensure!(same(&column(&s), &l, fro(&f)) && v.size() == (n, k), "spectrum_with_n_smallest_eigenvecs_symmetric({k}): spectrum {:?}, size {:?}", column(&s), v.size());
        eigenvectors_ok(a, &l, &vals(&v), true, "spectrum_with_n_smallest_eigenvecs_symmetric")?;
        let (x, v) = mf(&f).spectrum_with_n_th_eigenvec_symmetric(k - 1);
        ensure!(same(&[x], &l[k - 1..k], fro(&f)), "spectrum_with_n_th_eigenvec_symmetric({}) returns {x}, not {}", k - 1, l[k - 1]);
        eigenvectors_ok(a, &[x], &vals(&v), true, "spectrum_with_n_th_eigenvec_symmetric")?;
    }
    st.steps(8 + 2 * n);
    if n <= 6 { st.outcome(minors(a)); }
    Ok(())
}
/// Distinct real eigenvalues, decided exactly (sides 1 to 3).
fn distinct_real(a: &Z) -> bool {
    let e = minors(a);
    match rows(a) {
        1 => true,
        2 => e[0] * e[0] - 4 * e[1] > 0,
        3 => { let (b, c, d) = (-e[0], e[1], -e[2]); b * b * c * c - 4 * c * c * c - 4 * b * b * b * d - 27 * d * d + 18 * b * c * d > 0 }
        _ => unreachable!(),
    }
}
fn real_check(a: &Z, st: &mut Stats) -> Check {
    let f = fl(a);
    let l = column(&mf(&f).spectrum());
    eigenvalues_ok(&l, a, "spectrum")?;
    let (s, v) = mf(&f).spectrum_with_invariant_space();
    ensure!(same(&column(&s), &l, fro(&f)), "spectrum_with_invariant_space lists {:?}, spectrum {l:?}", column(&s));
    eigenvectors_ok(a, &l, &vals(&v), false, "spectrum_with_invariant_space")?;
    st.outcome(minors(a));
    st.steps(2);
    Ok(())
}
/// The same matrix in another unit of measurement: everything scales along.
fn scaled_spectra(a: &Z, e: i32, symmetric: bool, st: &mut Stats) -> Check {
    let n = rows(a);
    let s = 2f64.powi(e);
    let (f, g) = (fl(a), map(&fl(a), |x| x * s));
    let size = fro(&f);
    let unit = |x: &Matrix<f64>| map(&vals(x), |v| v / s);
    let tol = 1e-6 * size;
    let (l, l0) = (column(&mf(&g).spectrum()), column(&mf(&f).spectrum()));
    for i in 0..n { ensure!((l[i] / s - l0[i]).abs() <= tol, "spectrum of {g:?} is {l:?}, should be {l0:?} times 2^{e}"); }
    let (w, v) = mf(&g).spectrum_with_invariant_space();
    ensure!(same(&column(&w), &l, fro(&g)), "spectrum_with_invariant_space of {g:?} lists {:?}, spectrum {l:?}", column(&w));
    let unscaled: Vec<f64> = l.iter().map(|x| x / s).collect();
    eigenvectors_ok(a, &unscaled, &vals(&v), false, "spectrum_with_invariant_space of a scaled matrix")?;
    if symmetric {
        let (l, l0) = (column(&mf(&g).spectrum_symmetric()), column(&mf(&f).spectrum_symmetric()));
        for i in 0..n { ensure!((l[i] / s - l0[i]).abs() <= tol, "spectrum_symmetric of {g:?} is {l:?}, should be {l0:?} times 2^{e}"); }
        let (w, v) = mf(&g).spectrum_with_invariant_space_symmetric();
        ensure!(same(&column(&w), &l, fro(&g)), "spectrum_with_invariant_space_symmetric of {g:?} lists {:?}, spectrum_symmetric {l:?}", column(&w));
        let unscaled: Vec<f64> = l.iter().map(|x| x / s).collect();
        eigenvectors_ok(a, &unscaled, &vals(&v), true, "spectrum_with_invariant_space_symmetric of a scaled matrix")?;
        let mut m = mf(&g);
        let q = vals(&m.symmetric_qr(true));
        ensure!(orthonormal(&q, 1e-8) && near(&mul(&mul(&q, &f), &tr(&q)), &unit(&m), tol), "symmetric_qr of {g:?} leaves {:?} and returns {q:?}", vals(&m));
        st.steps(3);
    }
    let mut m = mf(&g);
    let q = vals(&m.qr_with_op());
    let x = unit(&m);
    ensure!(orthonormal(&q, 1e-8) && near(&mul(&mul(&q, &x), &tr(&q)), &f, tol) && quasi_triangular(&x, tol), "qr_with_op of {g:?} leaves {:?} and returns {q:?}", vals(&m));
    let mut m = mf(&g);
    m.hessenberg_form();
    invariants(a, &unit(&m), "hessenberg_form of a scaled matrix")?;
    if n > 2 {
        let mut m = mf(&g);
        m.hessenberg_form();
        let h = unit(&m);
        let q = vals(&m.francis_step_with_op());
        ensure!(orthonormal(&q, 1e-8) && near(&mul(&mul(&q, &unit(&m)), &tr(&q)), &h, tol), "francis_step_with_op of {h:?} times 2^{e} leaves {:?} and returns {q:?}", vals(&m));
    }
    if full_column_rank(a) {
        ensure!(near(&vals(&mf(&g).gram_schmidt()), &vals(&mf(&f).gram_schmidt()), 1e-7), "gram_schmidt of {g:?} is not that of {f:?}");
        ensure!(near(&unit(&mf(&g).gram_schmidt_without_normalize()), &vals(&mf(&f).gram_schmidt_without_normalize()), tol), "gram_schmidt_without_normalize of {g:?} is not that of {f:?} scaled");
    }
    st.steps(5);
    st.outcome((minors(a), e));
    Ok(())
}
pub fn householder_ok(x: &[f64]) -> Check {
    let n = x.len();
    let col: D<f64> = x.iter().map(|&v| vec![v]).collect();
    let scale = fro(&col);
    for form in 0..2 {
        let (v, b) = if form == 0 { mf(&col).householder_vec() } else { let m = framed(&col, &3.5, 1, 1, 1, 1); m[(1..n + 1, 1)].householder_vec() };
        let v = vals(&v);
        ensure!(rows(&v) == n && cols(&v) == 1 && (v[0][0] - 1.0).abs() < 1e-9, "the Householder vector of {x:?} is {v:?}");
        let h = gen(n, n, |i, j| (i == j) as i64 as f64 - b * v[i][0] * v[j][0]);
        ensure!(orthonormal(&h, 1e-8), "{v:?} and {b} do not give a reflection (vector {x:?})");
        let y = mul(&h, &col);
        for i in 0..n { ensure!((y[i][0] - if i == 0 { scale } else { 0.0 }).abs() <= 1e-8 * scale, "the Householder reflection sends {x:?} to {y:?}"); }
    }
    Ok(())
}

pub fn c15(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let deep = t.pick(false, true);
    for (n, m, k) in t.pick(vec![(1usize, 1usize, 4i64), (2, 1, 3), (2, 2, 4), (3, 1, 3), (3, 2, 2), (3, 3, 1), (4, 2, 1)], vec![(1, 1, 9), (2, 1, 9), (2, 2, 6), (3, 1, 6), (3, 2, 3), (3, 3, 1), (4, 2, 1), (4, 3, 1), (3, 3, 2)]) {
        let al = rng(k);
        v.push(space(&format!("gram-schmidt-{n}x{m}"), &format!("all {n}x{m} matrices of full column rank with entries up to {k} in absolute value"), pw(al.len() as u64, n * m), move |i| { let w = word(i, n * m, &al); Some(gen(n, m, |r, c| w[r * m + c])) }, gs_check));
    }
    for n in 1..=5usize {
        let al: Vec<f64> = t.pick(vec![0.0, 1.0, -1.0, 2.5, -3.0, 0.0009765625, -1048576.0], vec![0.0, 1.0, -1.0, 2.5, -3.0, 7.0, 0.0009765625, -1048576.0, -1.0 / 1048576.0, 333.25]);
        v.push(space(&format!("householder-{n}"), &format!("all vectors of length {n} with entries in {al:?}"), pw(al.len() as u64, n), move |i| Some(word(i, n, &al)), |x, st| { st.steps(2); householder_ok(x) }));
    }
    let units = [-300i32, -200, -60, -30, 30, 60, 200, 300];
    for n in 1..=4usize {
        let al: Vec<f64> = vec![0.0, 1.0, -1.0, 2.5, -3.0];
        v.push(space(&format!("householder-{n}, other units"), &format!("all vectors of length {n} with entries in {al:?} times 2^k, k in {units:?}"), pw(5, n) * 8, move |i| { let s = 2f64.powi(units[(i % 8) as usize]); Some(word(i / 8, n, &al).into_iter().map(|x| x * s).collect::<Vec<_>>()) }, |x, st| { st.steps(2); householder_ok(x) }));
    }
    // Gram-Schmidt does not mix the units of the vectors
    for (n, m, k) in t.pick(vec![(1usize, 1usize, 4i64), (2, 2, 2), (3, 2, 1)], vec![(1, 1, 9), (2, 2, 4), (3, 2, 2), (3, 3, 1)]) {
        let al = rng(k);
        let each = [0i32, -150, 150, -35, 35];
        v.push(space(&format!("gram-schmidt-{n}x{m}, units of the vectors"), &format!("all {n}x{m} matrices of full column rank with entries up to {k} in absolute value, each vector times 2^k, k in {each:?}"), pw(al.len() as u64, n * m) * pw(5, m),
            move |i| { let w = word(i / pw(5, m), n * m, &al); Some((gen(n, m, |r, c| w[r * m + c]), word(i % pw(5, m), m, &each))) },
            |(a, e): &(Z, Vec<i32>), st| {
                if !full_column_rank(a) { return Ok(()); }
                let f = fl(a);
                let g = gen(rows(a), cols(a), |i, j| f[i][j] * 2f64.powi(e[j]));
                let (q, q0) = (vals(&mf(&g).gram_schmidt()), vals(&mf(&f).gram_schmidt()));
                ensure!(near(&q, &q0, 1e-7), "gram_schmidt of {g:?} is {q:?}, that of {f:?} is {q0:?}");
                let (w, w0) = (vals(&mf(&g).gram_schmidt_without_normalize()), vals(&mf(&f).gram_schmidt_without_normalize()));
                let unscaled = gen(rows(a), cols(a), |i, j| w[i][j] / 2f64.powi(e[j]));
                ensure!(near(&unscaled, &w0, 1e-7 * (1.0 + fro(&f))), "gram_schmidt_without_normalize of {g:?} is {w:?}, that of {f:?} is {w0:?}");
                st.steps(2);
                st.outcome(e);
                Ok(())
            }));
    }
    let vals: Vec<f64> = { let mut w = vec![0.0]; for e in (-14..=14).chain([-100, -60, -30, 30, 60, 100]) { for m in [1.0, 1.7, 3.0] { for s in [1.0, -1.0] { w.push(s * m * 10f64.powi(e)); } } } w };
    let nv = vals.len() as u64;
    v.push(space("givens", "all pairs of 0 and +-1, 1.7, 3 times 10^-14 to 10^14, 10^+-30, 10^+-60, 10^+-100", nv * nv, move |i| Some((vals[(i / nv) as usize], vals[(i % nv) as usize])),
        |&(a, b), st| {
            let (x, y) = Matrix::<f64>::givens_rotation(a, b);
            st.step();
            ensure!((a * y + b * x).abs() <= 1e-9 * a.abs().max(b.abs()), "givens_rotation({a}, {b}) = ({x}, {y}): a*y + b*x = {}", a * y + b * x);
            ensure!((x * x + y * y - 1.0).abs() <= 1e-9, "givens_rotation({a}, {b}) = ({x}, {y}) is not a rotation");
            Ok(())
        }));
    let mut set = vec![(1, rng(3)), (2, rng(3)), (3, rng(1)), (3, vec![0, 1, -2, 3]), (4, vec![0, 1])];
    if deep { set.extend([(3, rng(2)), (4, vec![1, -1, 0])]); }
    v.extend(all_squares("hessenberg", &set, hessenberg_check));
    // one Francis step on Hessenberg matrices
    for (n, k) in t.pick(vec![(3usize, 1i64), (4, 0)], vec![(3, 2), (4, 0), (4, 1)]) {
        let al: Vec<i64> = if k == 0 { vec![0, 1] } else { rng(k) };
        let cells: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| j + 1 >= i).collect();
        let nc = cells.len();
        v.push(space(&format!("francis-{n}-{}", al.len()), &format!("all {n}x{n} Hessenberg matrices with entries in {al:?}"), pw(al.len() as u64, nc),
            move |i| { let w = word(i, nc, &al); let mut a = vec![vec![0i64; n]; n]; for (c, &x) in cells.iter().zip(&w) { a[c.0][c.1] = x; } Some(a) }, francis_check));
    }
    // symmetric matrices
    let mut set = vec![(1, rng(5)), (2, rng(4)), (3, rng(2)), (3, vec![0, 1, 1000003]), (4, rng(1)), (5, vec![0, 1])];
    if deep { set.extend([(3, rng(4)), (4, vec![0, 1, -1, 2]), (5, vec![-1, 1]), (3, vec![0, 7, 1100000000])]); }
    v.extend(all_symmetric("symmetric", &set, symmetric_check));
    let top = t.pick(5usize, 6);
    v.push(space("laplacian", &format!("the graph Laplacians and adjacency matrices of all graphs with 2 to {top} vertices"), (2..=top).map(|n| 2 * pw(2, n * (n - 1) / 2)).sum(),
        move |i| {
            let (b, j) = block(i, &(2..=top).map(|n| 2 * pw(2, n * (n - 1) / 2)).collect::<Vec<_>>());
            let n = b + 2;
            let w = word(j / 2, n * (n - 1) / 2, &[0i64, 1]);
            let mut a = vec![vec![0i64; n]; n];
            let mut k = 0;
            for r in 0..n { for c in r + 1..n { a[r][c] = w[k]; a[c][r] = w[k]; k += 1; } }
            Some(if j % 2 == 0 { a } else { gen(n, n, |r, c| if r == c { a[r].iter().sum() } else { -a[r][c] }) })
        }, symmetric_check));
    let top = t.pick(20u64, 30);
    v.push(space("large", &format!("sides 3 to {top}: path, cycle, star, complete, zero, scalar, diagonal, all-ones, block and dense symmetric matrices"), (top - 2) * 10,
        move |i| { let n = (i / 10) as usize + 3; let k = i % 10; Some(gen(n, n, |r, c| { let d = r.abs_diff(c); let e = r == c; (match k {
            0 => if e { 2 - (r == 0 || r == n - 1) as i64 } else { -((d == 1) as i64) },
            1 => if e { 2 } else { -((d == 1 || d == n - 1) as i64) },
            2 => if e { if r == 0 { n as i64 - 1 } else { 1 } } else { -((r == 0 || c == 0) as i64) },
            3 => if e { n as i64 - 1 } else { -1 },
            4 => 0, 5 => if e { -3 } else { 0 }, 6 => if e { (r * 7 % n) as i64 - 2 } else { 0 }, 7 => 1,
            8 => (r / 2 == c / 2) as i64 * (1 + (e as i64) * (r as i64 / 2)),
            _ => ((r * c + r + c) % 7) as i64 - 3 }) as i64 })) },
        symmetric_check));
    let top = t.pick(6usize, 7);
    v.push(list("combinatorial Laplacians", &format!("the combinatorial Laplacians, in every degree, of simplices and spheres on up to {top} vertices, the torus, the projective plane, the Klein bottle and the dunce hat"),
        known_complexes(top).into_iter().flat_map(|(_, b)| {
            let z = b.clone();
            (0..b.len()).filter_map(move |k| {
                // b[k] takes degree k to degree k - 1
                let down = if z[k].is_empty() { None } else { Some(mul(&tr(&z[k]), &z[k])) };
                let up = z.get(k + 1).filter(|u| !u.is_empty() && !u[0].is_empty()).map(|u| mul(u, &tr(u)));
                match (down, up) { (Some(a), Some(b)) => Some(gen(rows(&a), rows(&a), |i, j| a[i][j] + b[i][j])), (a, b) => a.or(b) }
            }).filter(|a| !a.is_empty()).collect::<Vec<_>>()
        }).collect(), symmetric_check));
    let exps = [-90i32, -60, -40, -30, -20, -10, 10, 20, 30, 40, 60, 90];
    for (n, al) in t.pick(vec![(1usize, rng(2)), (2, rng(2)), (3, rng(1)), (4, vec![0, 1])], vec![(1, rng(3)), (2, rng(4)), (3, rng(2)), (4, rng(1)), (5, vec![0, 1])]) {
        v.push(space(&format!("scaled symmetric {n}"), &format!("all symmetric {n}x{n} matrices with entries in {al:?} times a power of two from 2^-90 to 2^90"), pw(al.len() as u64, n * (n + 1) / 2) * 12,
            move |i| Some((symmetric(i / 12, n, &al), exps[(i % 12) as usize])), |(a, e), st| scaled_spectra(a, *e, true, st)));
    }
    for (n, al) in t.pick(vec![(2usize, rng(2)), (3, vec![0, 1, -2])], vec![(2, rng(4)), (3, vec![0, 1, -2, 3])]) {
        v.push(space(&format!("scaled real {n}"), &format!("all {n}x{n} matrices with entries in {al:?} and distinct real eigenvalues, times a power of two from 2^-90 to 2^90"), pw(al.len() as u64, n * n) * 12,
            move |i| Some((square(i / 12, n, &al), exps[(i % 12) as usize])).filter(|x| distinct_real(&x.0)), |(a, e), st| scaled_spectra(a, *e, false, st)));
    }
    // matrices with distinct real eigenvalues
    let mut set = vec![(1usize, rng(3)), (2, rng(5)), (3, rng(1)), (3, vec![0, 1, -2, 3])];
    if deep { set.push((3, rng(2))); }
    for (n, al) in set {
        v.push(space(&format!("real-{n}-{}", al.len()), &format!("all {n}x{n} matrices with entries in {al:?} and distinct real eigenvalues"), pw(al.len() as u64, n * n),
            move |i| Some(square(i, n, &al)).filter(distinct_real), real_check));
    }
    let (ul, ll): (Vec<i64>, Vec<i64>) = t.pick((vec![0, 1], vec![0, -1]), (vec![0, 1], vec![0, 1, -1]));
    let (nu, nl) = (pw(2, 6), pw(ll.len() as u64, 6));
    v.push(space("real-4", &format!("P*T*P^-1 for all 4x4 upper triangular T with diagonal a permutation of 1, 2, 3, -1 and entries above in {ul:?}, and all unitriangular P with entries below in {ll:?}"), 24 * nu * nl,
        move |i| {
            let d = digits(i, &[24, nu, nl])?;
            let p = nth_perm(d[0], 4);
            let (u, l) = (word(d[1], 6, &ul), word(d[2], 6, &ll));
            let ix = |r: usize, c: usize| c * (c - 1) / 2 + r; // r < c
            let tt: Z = gen(4, 4, |r, c| if r == c { [1, 2, 3, -1][p[r]] } else if r < c { u[ix(r, c)] } else { 0 });
            let pm: Z = gen(4, 4, |r, c| if r == c { 1 } else if r > c { l[ix(c, r)] } else { 0 });
            // inverse of a unitriangular matrix: I - N + N^2 - N^3
            let nn: Z = gen(4, 4, |r, c| if r > c { pm[r][c] } else { 0 });
            let (n2, n3) = (mul(&nn, &nn), mul(&mul(&nn, &nn), &nn));
            let inv: Z = gen(4, 4, |r, c| (r == c) as i64 - nn[r][c] + n2[r][c] - n3[r][c]);
            Some(mul(&mul(&pm, &tt), &inv))
        }, real_check));
    // larger matrices: eigenvalues known, transformations of every kind
    let top = t.pick(9u64, 10);
    v.push(space("real, large", &format!("P*T*P^-1 of sides 5 to {top}: T bidiagonal with distinct integer eigenvalues in six orders, P unit lower bidiagonal, upper, both or the identity"), (top - 4) * 6 * 4 * 3,
        move |i| {
            let d = digits(i, &[6, 4, 3, top - 4])?;
            let n = d[3] as usize + 5;
            let place = |i: usize| match d[0] { 0 => i, 1 => n - 1 - i, 2 => (i * 2) % n + if n % 2 == 0 && i >= n / 2 { 1 } else { 0 }, 3 => (i + n / 2) % n, 4 => i ^ 1, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } };
            let diag: Vec<i64> = (0..n).map(|i| { let p = place(i); if p < n { p as i64 - d[2] as i64 * 2 } else { n as i64 - 1 - d[2] as i64 * 2 } }).collect();
            let mut a: Z = gen(n, n, |i, j| if i == j { diag[i] } else if j == i + 1 { (d[2] as i64 + i as i64) % 2 } else { 0 });
            let low = |a: &mut Z| for i in 0..n - 1 { // row i+1 += row i; column i -= column i+1
                let r = a[i].clone(); for (x, y) in a[i + 1].iter_mut().zip(r) { *x += y; }
                for r in a.iter_mut() { let x = r[i + 1]; r[i] -= x; }
            };
            if d[1] & 1 == 1 { low(&mut a); }
            if d[1] & 2 == 2 { a = tr(&a); low(&mut a); }
            let mut u = diag.clone(); u.sort(); u.dedup();
            if u.len() < n || a.iter().flatten().any(|x| x.abs() > 40) { return None; }
            Some(a)
        }, |a, st| { real_check(a, st)?; qr_check(a, st) }));
    v.push(list("real, more than twenty", "symmetric tridiagonal matrices of sides 21 to 24 with eigenvectors by inverse iteration", (21..=24usize).flat_map(|n| (0..4usize).map(move |k| (n, k))).collect(), |&(n, k), st| {
        let a: Z = gen(n, n, |i, j| if i == j { [2, i as i64, (i * 5 % n) as i64 * 2, 1 - i as i64][k] } else if i.abs_diff(j) == 1 { [-1, 1, (i + j) as i64 / 2 % 2, -1][k] } else { 0 });
        let f = fl(&a);
        let (s, v) = mf(&f).spectrum_with_invariant_space();
        let l = column(&s);
        ensure!(same(&l, &column(&mf(&f).spectrum()), fro(&f)), "spectrum_with_invariant_space lists {l:?}, spectrum {:?}", column(&mf(&f).spectrum()));
        ensure!(l.len() == n && l.windows(2).all(|w| w[0] < w[1]), "{l:?} are not {n} different numbers in increasing order");
        let (tr1, tr2): (f64, f64) = ((0..n).map(|i| f[i][i]).sum(), f.iter().flatten().map(|x| x * x).sum());
        ensure!((l.iter().sum::<f64>() - tr1).abs() < 1e-7 * (1.0 + tr2) && (l.iter().map(|x| x * x).sum::<f64>() - tr2).abs() < 1e-7 * (1.0 + tr2), "{l:?} has other power sums than the eigenvalues: {tr1}, {tr2}");
        // n different eigenvalues with an eigenvector each are all there are
        eigenvectors_ok(&a, &l, &read(&v), false, "spectrum_with_invariant_space")?;
        st.steps(2);
        st.outcome((n, k));
        Ok(())
    }));
    let top = t.pick(18u64, 20);
    v.push(space("reductions, large", &format!("sides 5 to {top}: Hessenberg form and Gram-Schmidt of eight patterns (banded, triangular, arrow, cyclic, permuted, block, sparse, full) with two to all columns"), (top - 4) * 8,
        move |i| { let n = (i / 8) as usize + 5; let k = i % 8; Some(gen(n, n, |i, j| { let e = i == j; let d = i.abs_diff(j); (match k {
            0 => if e { 2 } else if d <= 2 { 1 } else { 0 }, 1 => if i >= j { 1 } else { 0 }, 2 => if e { 3 } else if i == 0 || j + 1 == n { 1 } else { 0 }, 3 => if j == (i + 1) % n { 2 } else if e { 1 } else { 0 },
            4 => if j == n - 1 - i { 1 + i as i64 } else { 0 }, 5 => if i / 3 == j / 3 { 1 + (e as i64) } else { 0 }, 6 => if j == (i + n / 2) % n || e { 1 + e as i64 } else { 0 }, _ => if e { 5 } else { ((i * 3 + j * 5) % 4) as i64 - 1 } }) as i64 })) },
        |a, st| {
            hessenberg_check(a, st)?;
            let n = rows(a);
            for m in [2, n / 2, n - 1, n] {
                let b: Z = gen(n, m, |i, j| a[i][j]);
                gs_check(&b, st)?;
            }
            Ok(())
        }));
    let mut set = vec![(2usize, rng(2)), (3, rng(1)), (4, vec![0, 1])];
    if deep { set.extend([(3, vec![0, 1, -2, 3])]); }
    v.extend(all_squares("qr", &set, |a, st| {
        // matrices that have complex eigenvalues are fine here, as long as the iteration ends
        qr_check(a, st)
    }));
    v
}

// ---------------------------------------------------------------- C16
fn lll_check(a: &Z, delta: f64, st: &mut Stats) -> Check { lll_in_units(a, delta, 0, st) }
fn lll_in_units(a: &Z, delta: f64, unit: i32, st: &mut Stats) -> Check {
    let unit = 2f64.powi(unit);
    if !full_column_rank(a) { return Ok(()); }
    let (n, m) = (rows(a), cols(a));
    for form in 0..2 {
        let g = map(&fl(a), |x| x * unit);
        let x = if form == 0 { mf(&g) } else { mf(&tr(&g)).transpose() };
        let out = map(&vals(&x.lll_lattice_reduce(delta)), |x| x / unit);
        st.step();
        ensure!(rows(&out) == n && cols(&out) == m, "the reduced basis has size {:?}", (rows(&out), cols(&out)));
        let b: Z = map(&out, |x| x.round() as i64);
        ensure!(near(&fl(&b), &out, 1e-6), "the reduced basis {out:?} leaves the integer lattice");
        // b generates the same lattice: every b_j is an integer combination of the a_i and the volumes agree
        let (at, bt) = (tr(a), tr(&b));
        let gram = mul(&at, a);
        let d = det(&gram);
        for j in 0..m {
            let rhs: Vec<i64> = at.iter().map(|c| c.iter().zip(&bt[j]).map(|(x, y)| x * y).sum()).collect();
            let c: Vec<i128> = (0..m).map(|k| det(&gen(m, m, |i, l| if l == k { rhs[i] } else { gram[i][l] }))).collect();
            ensure!(c.iter().all(|x| x % d == 0), "vector {j} of {b:?} is not in the lattice");
            for i in 0..n { let s: i128 = (0..m).map(|k| a[i][k] as i128 * (c[k] / d)).sum(); ensure!(s == b[i][j] as i128, "vector {j} of {b:?} is not in the span of the lattice"); }
        }
        ensure!(det(&mul(&bt, &b)) == d, "{b:?} generates another lattice (squared volume {}, should be {d})", det(&mul(&bt, &b)));
        // reducedness
        let f = fl(&b);
        let mut o: D<f64> = tr(&f);
        let mut mu = vec![vec![0.0; m]; m];
        for i in 0..m { for j in 0..i {
            let nj: f64 = o[j].iter().map(|x| x * x).sum();
            mu[i][j] = (0..n).map(|k| f[k][i] * o[j][k]).sum::<f64>() / nj;
            let oj = o[j].clone();
            for k in 0..n { o[i][k] -= mu[i][j] * oj[k]; }
            ensure!(mu[i][j].abs() <= 0.5 + 1e-6, "{b:?} is not size-reduced: coefficient ({i}, {j}) is {}", mu[i][j]);
        } }
        let sq: Vec<f64> = o.iter().map(|r| r.iter().map(|x| x * x).sum()).collect();
        for i in 1..m { ensure!(sq[i] >= (delta - mu[i][i - 1] * mu[i][i - 1]) * sq[i - 1] - 1e-6 * (1.0 + sq[i - 1]), "{b:?} violates the Lovasz condition at {i} for delta = {delta}"); }
        st.outcome(&b);
    }
    Ok(())
}
pub fn c16(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let deltas = [0.75, 0.3, 0.5, 0.99];
    for (n, m, k) in t.pick(vec![(1usize, 1usize, 5i64), (2, 1, 4), (2, 2, 9), (3, 2, 2), (3, 3, 1)], vec![(1, 1, 9), (2, 1, 6), (2, 2, 20), (3, 2, 3), (4, 2, 2), (3, 3, 1), (3, 3, 2), (4, 3, 1)]) {
        let al = rng(k);
        let nd = if n * m >= 9 && k > 1 { 1 } else { 4 };
        v.push(space(&format!("lll-{n}x{m}-{k}"), &format!("all bases of {m} vectors of length {n} with entries up to {k} in absolute value, delta in {:?}", &deltas[..nd]), pw(al.len() as u64, n * m) * nd as u64,
            move |i| { let w = word(i / nd as u64, n * m, &al); Some((gen(n, m, |r, c| w[r * m + c]), deltas[(i % nd as u64) as usize])) },
            |(a, d), st| lll_check(a, *d, st)));
    }
    for (n, m, k) in t.pick(vec![(1usize, 1usize, 2i64), (2, 2, 4), (3, 2, 1), (3, 3, 1)], vec![(1, 1, 9), (2, 2, 9), (3, 2, 2), (3, 3, 1)]) {
        let al = rng(k);
        let units = [-200i32, -70, -35, -20, 20, 35, 70, 200];
        v.push(space(&format!("lll-{n}x{m}-{k}, other units"), &format!("all bases of {m} vectors of length {n} with entries up to {k} in absolute value times 2^k, k in {units:?}, delta 0.75"), pw(al.len() as u64, n * m) * 8,
            move |i| { let w = word(i / 8, n * m, &al); Some((gen(n, m, |r, c| w[r * m + c]), units[(i % 8) as usize])) },
            |(a, u), st| lll_in_units(a, 0.75, *u, st)));
    }
    let al = vec![0i64, 1, -3, 987, 1597, -2584, 4181, 6765, -10000, 9999];
    let na = al.len() as u64;
    let wide = [0.2501, 0.26, 0.45, 0.75, 0.9, 0.999, 0.9999];
    v.push(space("lll-long", &format!("all bases of 2 vectors of length 2 with entries in {al:?}, and their images in length 7, delta in {wide:?}"), pw(na, 4) * 7 * 2,
        move |i| { let d = digits(i, &[2, 7, pw(na, 4)])?; let w = word(d[2], 4, &al); let a: Z = gen(2, 2, |r, c| w[r * 2 + c]); let up: Z = gen(7, 2, |i, j| match i { 0 | 5 => a[0][j], 3 => a[1][j] - a[0][j], 6 => a[1][j], _ => 0 }); Some((if d[0] == 0 { a } else { up }, wide[d[1] as usize])) },
        |(a, d), st| lll_check(a, *d, st)));
    let al = vec![0i64, 1, 2, 7, -13, 50];
    let na = al.len() as u64;
    v.push(space("lll-triangular", &format!("all 3x3 upper triangular bases with diagonal 1, 5, 100 in every order and entries above in {al:?}, and their transposes"), 6 * pw(na, 3) * 4 * 2,
        move |i| { let d = digits(i, &[6, pw(na, 3), 4, 2])?; let p = nth_perm(d[0], 3); let w = word(d[1], 3, &al); let a: Z = gen(3, 3, |r, c| if r == c { [1, 5, 100][p[r]] } else if r < c { w[r + c - 1] } else { 0 }); Some((if d[3] == 1 { tr(&a) } else { a }, deltas[d[2] as usize])) },
        |(a, d), st| lll_check(a, *d, st)));
    let (al, top) = t.pick((vec![1i64, 37, 1000], 5usize), (vec![1i64, 2, 37, 555, 1000], 6));
    let na = al.len() as u64;
    v.push(space("lll-knapsack", &format!("knapsack bases: the identity with a row of weights in {al:?} below, dimension 3 to {top}"), (3..=top).map(|n| pw(na, n)).sum(),
        move |i| { let (b, j) = block(i, &(3..=top).map(|n| pw(na, n)).collect::<Vec<_>>()); let n = b + 3; let w = word(j, n, &al); Some(gen(n + 1, n, |r, c| if r == n { w[c] } else { (r == c) as i64 })) },
        |a, st| lll_check(a, 0.75, st)));
    let top = t.pick(12u64, 14);
    v.push(space("lll-scrambled", &format!("dimension 4 to {top}: four diagonal lattices, scrambled by six unimodular matrices, vectors in three orders, one vector left out or none, every delta"), (top - 3) * 4 * 6 * 3 * 2 * 4,
        move |i| {
            let d = digits(i, &[4, 2, 3, 6, 4, top - 3])?;
            let n = d[5] as usize + 4;
            let base = |i: usize| match d[4] { 0 => 1, 1 => 1 + i as i64, 2 => if i == n / 2 { 30 } else { 2 }, _ => if i == 0 { 1 } else { 4 } };
            let mut a: Z = gen(n, n, |i, j| if i == j { base(i) } else { 0 });
            for j in 1..n { // columns are added along a chain
                let c = match d[3] { 0 => 0, 1 => 1, 2 => -2, 3 => if j % 2 == 0 { 1 } else { -1 }, 4 => if j == n - 1 { 7 } else { 0 }, _ => (j % 3) as i64 - 1 };
                let from = if d[3] == 4 { 0 } else { j - 1 };
                for r in a.iter_mut() { let x = r[from]; r[j] += c * x; }
            }
            let cols: Vec<usize> = (0..n).map(|j| match d[2] { 0 => j, 1 => n - 1 - j, _ => (j + n / 2) % n }).skip(d[1] as usize).collect();
            let a: Z = a.iter().map(|r| cols.iter().map(|&c| r[c]).collect()).collect();
            if a.iter().flatten().any(|x| x.abs() > 300) { return None; }
            // the determinants that decide which lattice this is have to fit 128 bits
            if n > 12 && tr(&a).iter().map(|c| (c.iter().map(|x| (x * x) as f64).sum::<f64>()).log2()).sum::<f64>() > 61.0 { return None; }
            Some((a, deltas[d[0] as usize]))
        },
        |(a, d), st| lll_check(a, *d, st)));
    let tops = t.pick(vec![21usize, 22], vec![21, 22, 23, 24]);
    v.push(list("lll, more than twenty vectors", &format!("four scrambled diagonal lattices and four knapsacks in each of the dimensions {tops:?}, with all vectors or all but two"),
        tops.into_iter().flat_map(|n| (0..8usize).flat_map(move |k| [0usize, 2].map(|m| (n, k, m)))).collect(),
        |&(n, k, m), st| {
            let mut a: Z = gen(n, n, |i, j| if i == j { if k % 4 == 1 { 1 + (i % 2) as i64 } else if k % 4 == 2 && i == n - 1 { 3 } else { 1 } } else { 0 });
            if k < 4 { for j in 1..n { let c = [1, -2, if j % 2 == 0 { 1 } else { -1 }, if j + 2 > n { 5 } else { 0 }][k]; let from = if k == 3 || k == 1 { 0 } else { j - 1 }; for r in a.iter_mut() { let x = r[from]; r[j] += c * x; } } }
            else { for j in 0..n { a[n - 1][j] = [1, j as i64, if j == n - 1 { 3 } else { 0 }, (j * j % 5) as i64][k - 4] + (j == n - 1) as i64; } }
            let a: Z = a.iter().map(|r| r[m..].to_vec()).collect();
            lll_check(&a, 0.75, st)
        }));
    v.push(list("lll-rejected", "delta outside of (0.25, 1) and more vectors than dimensions", vec![(2usize, 2usize, 0.25), (2, 2, 1.0), (2, 2, -1.0), (2, 2, 2.0), (2, 2, 0.0), (1, 2, 0.75), (2, 3, 0.75), (1, 3, 0.5), (3, 3, f64::NAN)],
        |&(n, m, d), st| {
            st.step();
            let a = gen(n, m, |i, j| if i == j { 2.0 } else { 1.0 });
            ensure!(guard(|| mf(&a).lll_lattice_reduce(d)).is_err(), "lll_lattice_reduce accepted {n}x{m} with delta = {d}");
            Ok(())
        }));
    v
}
