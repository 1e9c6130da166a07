//! Shared: naive dense reference matrices and the forms in which a matrix can be handed to the code.
use alg::commutative::PID;
use alg::lin_alg::{Matrix, SubMatrix};

pub type D<T> = Vec<Vec<T>>;
pub fn rows<T>(d: &D<T>) -> usize { d.len() }
pub fn cols<T>(d: &D<T>) -> usize { d[0].len() }
pub fn gen<T>(n: usize, m: usize, f: impl Fn(usize, usize) -> T) -> D<T> { (0..n).map(|i| (0..m).map(|j| f(i, j)).collect()).collect() }
pub fn tr<T: Clone>(d: &D<T>) -> D<T> { gen(cols(d), rows(d), |i, j| d[j][i].clone()) }
pub fn zip<T: Clone>(a: &D<T>, b: &D<T>, f: impl Fn(T, T) -> T) -> D<T> { gen(rows(a), cols(a), |i, j| f(a[i][j].clone(), b[i][j].clone())) }
pub fn map<T: Clone, U>(a: &D<T>, f: impl Fn(T) -> U) -> D<U> { a.iter().map(|r| r.iter().map(|x| f(x.clone())).collect()).collect() }
pub fn mul<T: PID>(a: &D<T>, b: &D<T>) -> D<T> {
    gen(rows(a), cols(b), |i, j| { let mut s = T::zero(); for k in 0..cols(a) { s += a[i][k].clone() * b[k][j].clone(); } s })
}
pub fn id<T: PID>(n: usize) -> D<T> { gen(n, n, |i, j| if i == j { T::one() } else { T::zero() }) }
/// The content of any (sub)matrix read element by element.
pub fn read<T: PID>(m: &SubMatrix<T>) -> D<T> { let (r, c) = m.size(); (0..r).map(|i| (0..c).map(|j| m[(i, j)].clone()).collect()).collect() }

/// Forms: 0 owned; 1 owned, stored transposed; 2 window of a larger matrix; 3 transposed window; 4 window of a window, transposed twice.
pub const FORMS: usize = 5;
pub fn owned<T: PID>(d: &D<T>, form: usize) -> Matrix<T> {
    if form % 2 == 0 { Matrix::from_array(d.clone()) } else { Matrix::from_array(tr(d)).transpose() }
}
pub fn framed<T: PID>(d: &D<T>, junk: &T, t: usize, l: usize, b: usize, r: usize) -> Matrix<T> {
    let (n, m) = (rows(d), cols(d));
    Matrix::from_array(gen(n + t + b, m + l + r, |i, j| if i >= t && i < t + n && j >= l && j < l + m { d[i - t][j - l].clone() } else { junk.clone() }))
}
pub fn with_view<T: PID, R>(d: &D<T>, form: usize, junk: &T, f: impl FnOnce(&SubMatrix<T>) -> R) -> R {
    let (n, m) = (rows(d), cols(d));
    match form {
        0 | 1 => f(&owned(d, form)),
        2 => { let x = framed(d, junk, 1, 2, 1, 1); f(&x[(1..n + 1, 2..m + 2)]) }
        3 => { let x = framed(&tr(d), junk, 2, 1, 0, 1); f(x[(2..m + 2, 1..n + 1)].transpose()) }
        _ => { let x = framed(d, junk, 2, 3, 1, 2).transpose(); let y = &x[(1.., 1..)]; f(&y.transpose()[(1..n + 1, 2..=m + 1)]) }
    }
}

/// Larger matrices whose elimination keeps its numbers small: a name and the matrix, and its transpose.
pub fn patterned(max: usize) -> Vec<(String, D<i64>)> {
    let mut out: Vec<(String, D<i64>)> = Vec::new();
    let diag = |n: usize, f: &dyn Fn(usize) -> i64| gen(n, n, |i, j| if i == j { f(i) } else { 0 });
    for n in 1..=max {
        let mut add = |s: &str, a: D<i64>| out.push((format!("{s} {n}"), a));
        add("zero", gen(n, n, |_, _| 0));
        add("identity", diag(n, &|_| 1));
        add("all twos", diag(n, &|_| 2));
        add("twos and minus threes", diag(n, &|i| if i % 2 == 0 { 2 } else { -3 }));
        add("divisor chain", diag(n, &|i| [1, 1, 2, 2, 4, 12, 12, 0][(i * 8 / n).min(7)]));
        add("reversed divisor chain", diag(n, &|i| [12, -12, 4, 2, 2, 1, 1, 1][(i * 8 / n).min(7)]));
        add("six, ten, fifteen", diag(n, &|i| if i < 9 { [6, 10, 15][i % 3] } else { 1 }));
        add("zeros between", diag(n, &|i| if i % 3 == 1 { 0 } else { 1 + (i % 3) as i64 }));
        add("one nonzero at the end", diag(n, &|i| if i + 1 == n { 5 } else { 0 }));
        add("antidiagonal", gen(n, n, |i, j| if i + j + 1 == n { if i % 2 == 0 { 1 } else { -2 } } else { 0 }));
        add("shift by one", gen(n, n, |i, j| if j == i + 1 { 3 } else { 0 }));
        add("cyclic shift", gen(n, n, |i, j| if j == (i + n / 2) % n { 1 } else { 0 }));
        add("path", gen(n + 1, n, |i, j| if i == j { -1 } else if i == j + 1 { 1 } else { 0 }));
        add("cycle", gen(n, n, |i, j| if i == j { -1 } else if i == (j + 1) % n && n > 1 { 1 } else { 0 }));
        add("twice around", gen(n, n, |i, j| if i == j { -2 } else if i == (j + 1) % n && n > 1 { 2 } else { 0 }));
        add("two on one", gen(n, n, |i, j| if i == j { 2 } else if j == i + 1 { 1 } else { 0 }));
        add("full triangle", gen(n, n, |i, j| if j >= i { 1 } else { 0 }));
        add("lower triangle of twos", gen(n, n, |i, j| if j <= i { 2 } else { 0 }));
        add("all ones", gen(n, n, |_, _| 1));
        add("row by column", gen(n, n, |i, j| [1, 2, -1, 3][i % 4] * [2, 1, -1][j % 3]));
        add("checkerboard", gen(n, n, |i, j| ((i + j) % 2) as i64));
        add("stripes", gen(n, n, |i, j| if i % 3 == j % 3 { 1 } else { 0 }));
        add("last row and column", gen(n, n, |i, j| if i + 1 == n || j + 1 == n { 2 } else { 0 }));
        add("first row and column", gen(n, n, |i, j| if i == 0 || j == 0 { 3 } else { 0 }));
        add("blocks", gen(n, n, |i, j| if i / 2 == j / 2 { if i == j { 2 } else { 1 } } else { 0 }));
        add("staircase", gen(n, 2 * n, |i, j| if j / 2 == i { 1 + (j % 2) as i64 } else { 0 }));
        if n > 1 && n <= 7 { // incidence matrix of the complete graph
            let e: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
            add("complete graph", gen(n, e.len(), |i, j| if i == e[j].0 { -1 } else if i == e[j].1 { 1 } else { 0 }));
        }
    }
    let t: Vec<_> = out.iter().filter(|(_, a)| tr(a) != *a).map(|(s, a)| (format!("{s} transposed"), tr(a))).collect();
    out.extend(t);
    out
}
/// Boundary matrices of known complexes, by degree; degree 0 maps to a point.
pub fn known_complexes(max_simplex: usize) -> Vec<(String, Vec<D<i64>>)> {
    let m = |t: &[[usize; 3]]| -> Vec<u32> { t.iter().map(|x| x.iter().fold(0, |s, v| s | 1 << v)).collect() };
    let mut all: Vec<(String, Vec<u32>)> = Vec::new();
    for n in 2..=max_simplex { all.push((format!("simplex on {n} vertices"), vec![(1 << n) - 1])); all.push((format!("sphere on {n} vertices"), (0..n).map(|i| ((1u32 << n) - 1) & !(1 << i)).collect())); }
    all.push(("torus".into(), (0..7usize).flat_map(|i| [[i, (i + 1) % 7, (i + 3) % 7], [i, (i + 2) % 7, (i + 3) % 7]]).map(|x| x.iter().fold(0, |s, v| s | 1 << v)).collect()));
    all.push(("projective plane".into(), m(&[[1,3,4],[2,3,4],[1,4,5],[2,4,6],[4,5,6],[1,2,6],[1,3,6],[3,5,6],[2,3,5],[1,2,5]])));
    all.push(("Klein bottle".into(), m(&[[0,1,4],[0,1,6],[0,2,6],[0,2,8],[0,3,4],[0,3,8],[1,2,5],[1,2,7],[1,4,5],[1,6,7],[2,5,6],[2,7,8],[3,4,7],[3,5,6],[3,5,8],[3,6,7],[4,5,8],[4,7,8]])));
    all.push(("dunce hat".into(), m(&[[0,1,3],[0,1,4],[0,1,7],[0,2,4],[0,2,5],[0,2,6],[0,3,5],[0,6,7],[1,2,3],[1,2,5],[1,2,7],[1,4,5],[2,3,6],[2,4,7],[3,5,6],[4,5,7],[5,6,7]])));
    all.into_iter().map(|(s, f)| { let b = super::normal::simplicial_boundaries(&f).0; (s, b) }).collect()
}
