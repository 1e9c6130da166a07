//! C08: dense matrix arithmetic.  C09: views.  C10: ownership of elements.
use super::mat::*;
use super::numbers::Fr;
use crate::engine::*;
use crate::{ensure, fail, Tier};
use alg::commutative::{Rational, PID};
use alg::lin_alg::{Matrix, SubMatrix, Vector};
use alg::{formal_sum_impl, matrix};
use std::fmt::Debug;

fn expect<T: PID + Debug>(got: &SubMatrix<T>, want: &D<T>, size: (usize, usize), what: &str) -> Check {
    ensure!(got.size() == size, "{what} has size {:?}, expected {size:?}", got.size());
    ensure!(got.size_as_range() == (0..size.0, 0..size.1), "{what}: size_as_range() = {:?}", got.size_as_range());
    for i in 0..size.0 { for j in 0..size.1 {
        ensure!(got[(i, j)] == want[i][j], "{what}: entry ({i},{j}) is {:?}, expected {:?}", got[(i, j)], want[i][j]);
    } }
    Ok(())
}
fn full<T: PID + Debug>(got: &SubMatrix<T>, want: &D<T>, what: &str) -> Check { expect(got, want, (rows(want), cols(want)), what) }

/// Operators with the integer-on-the-left form, which exists per element type only.
trait LeftMul: PID + Debug { fn left(self, m: &SubMatrix<Self>) -> Matrix<Self>; }
macro_rules! left { ($($t:ty)*) => { $(impl LeftMul for $t { fn left(self, m: &SubMatrix<Self>) -> Matrix<Self> { self * m } })* } }
left! { i64 i32 i128 isize i8 i16 Rational f64 }

fn sums<T: LeftMul>(a: &D<T>, b: &D<T>, fa: usize, fb: usize, junk: &T, st: &mut Stats) -> Check {
    let add = zip(a, b, |x, y| x + y);
    let sub = zip(a, b, |x, y| x - y);
    let same = a == b;
    with_view(a, fa, junk, |va| with_view(b, fb, junk, |vb| -> Check {
        full(&(va + vb), &add, "&a + &b")?;
        full(&(va - vb), &sub, "&a - &b")?;
        full(&(owned(a, fa) + vb), &add, "a + &b")?;
        full(&(owned(a, fa) - vb), &sub, "a - &b")?;
        full(&(va + owned(b, fb)), &add, "&a + b")?;
        full(&(va - owned(b, fb)), &sub, "&a - b")?;
        full(&(owned(a, fa) + owned(b, fb)), &add, "a + b")?;
        full(&(owned(a, fa) - owned(b, fb)), &sub, "a - b")?;
        let mut x = owned(a, fa); x += vb; full(&x, &add, "a += &b")?;
        let mut x = owned(a, fa); x -= vb; full(&x, &sub, "a -= &b")?;
        let mut x = owned(a, fa); x += owned(b, fb); full(&x, &add, "a += b")?;
        let mut x = owned(a, fa); x -= owned(b, fb); full(&x, &sub, "a -= b")?;
        ensure!((*va == *vb) == same && (*vb == *va) == same, "equality of submatrices is not {same}");
        ensure!((*va == owned(b, fb)) == same, "submatrix == matrix is not {same}");
        ensure!((owned(a, fa) == owned(b, fb)) == same, "matrix == matrix is not {same}");
        full(va, a, "a after use")?;
        full(vb, b, "b after use")
    }))?;
    st.steps(18);
    Ok(())
}
fn products<T: LeftMul>(a: &D<T>, b: &D<T>, fa: usize, fb: usize, junk: &T, st: &mut Stats) -> Check {
    let ab = mul(a, b);
    with_view(a, fa, junk, |va| with_view(b, fb, junk, |vb| -> Check {
        full(&(va * vb), &ab, "&a * &b")?;
        full(&(owned(a, fa) * vb), &ab, "a * &b")?;
        full(&(va * owned(b, fb)), &ab, "&a * b")?;
        full(&(owned(a, fa) * owned(b, fb)), &ab, "a * b")?;
        for i in 0..rows(a) { for j in 0..cols(b) {
            let d = va[(i, ..)].dot(&vb[(.., j)]);
            ensure!(d == ab[i][j], "row {i} dot column {j} = {d:?}, expected {:?}", ab[i][j]);
        } }
        let dot_ok = guard(|| va.dot(vb)).is_ok();
        ensure!(dot_ok == (rows(a) == 1 && cols(b) == 1), "dot of {}x{} and {}x{}: accepted = {dot_ok}", rows(a), cols(a), rows(b), cols(b));
        full(va, a, "a after use")?;
        full(vb, b, "b after use")
    }))?;
    st.steps(4 + ab.len() * ab[0].len());
    Ok(())
}
fn unary<T: LeftMul>(a: &D<T>, s: &T, fa: usize, junk: &T, st: &mut Stats) -> Check {
    let sa = map(a, |x| x * s.clone());
    let t = tr(a);
    with_view(a, fa, junk, |va| -> Check {
        full(va, a, "a")?;
        full(&(va * s.clone()), &sa, "&a * s")?;
        full(&s.clone().left(va), &sa, "s * &a")?;
        full(&(owned(a, fa) * s.clone()), &sa, "a * s")?;
        let mut x = owned(a, fa); x *= s.clone(); full(&x, &sa, "a *= s")?;
        full(va.transpose(), &t, "transposed view")?;
        full(va.transpose().transpose(), a, "view transposed twice")?;
        full(&owned(a, fa).transpose(), &t, "transposed matrix")?;
        full(&owned(a, fa).transpose().transpose(), a, "matrix transposed twice")?;
        full(&va.as_matrix(), a, "as_matrix")?;
        full(&va.transpose().as_matrix(), &t, "as_matrix of the transposed view")?;
        let o = owned(a, fa);
        let mut c = o.clone();
        full(&c, a, "clone")?;
        c[(0, 0)] += T::one();
        full(&o, a, "a after its clone was changed")?;
        let mut c = va.as_matrix();
        c[(0, 0)] += T::one();
        full(va, a, "a after a copy of it was changed")
    })?;
    st.steps(12);
    Ok(())
}
fn division(a: &D<Rational>, s: Rational, fa: usize, st: &mut Stats) -> Check {
    let q = map(a, |x| x / s);
    let junk = Rational::new(77, 5);
    with_view(a, fa, &junk, |va| full(&(va / s), &q, "&a / s"))?;
    full(&(owned(a, fa) / s), &q, "a / s")?;
    let mut x = owned(a, fa); x /= s; full(&x, &q, "a /= s")?;
    let mut x = owned(a, fa); x[(.., ..)] /= s; full(&x, &q, "a[(.., ..)] /= s")?;
    st.steps(4);
    Ok(())
}
fn int_to<T: PID>(n: i64) -> T { let mut s = T::zero(); let o = if n < 0 { -T::one() } else { T::one() }; for _ in 0..n.abs() { s += o.clone(); } s }

#[derive(Clone, Debug)]
struct Sz(usize, usize, usize, usize);
fn mismatch(s: &Sz, st: &mut Stats) -> Check {
    let a = gen(s.0, s.1, |i, j| (i * 3 + j) as i64);
    let b = gen(s.2, s.3, |i, j| (i + j * 5) as i64);
    for fa in 0..FORMS { for fb in 0..FORMS {
        let r: Check = with_view(&a, fa, &99, |va| with_view(&b, fb, &99, |vb| {
            let fits = (s.0, s.1) == (s.2, s.3);
            let try_ = |what: &str, ok: bool, want: bool| -> Check { ensure!(ok == want, "{what} of {}x{} and {}x{}: accepted = {ok}", s.0, s.1, s.2, s.3); Ok(()) };
            try_("&a + &b", guard(|| va + vb).is_ok(), fits)?;
            try_("&a - &b", guard(|| va - vb).is_ok(), fits)?;
            try_("a + &b", guard(|| owned(&a, fa) + vb).is_ok(), fits)?;
            try_("&a - b", guard(|| va - owned(&b, fb)).is_ok(), fits)?;
            try_("a - b", guard(|| owned(&a, fa) - owned(&b, fb)).is_ok(), fits)?;
            try_("a += b", guard(|| { let mut x = owned(&a, fa); x += owned(&b, fb); }).is_ok(), fits)?;
            try_("a -= &b", guard(|| { let mut x = owned(&a, fa); x -= vb; }).is_ok(), fits)?;
            try_("&a * &b", guard(|| va * vb).is_ok(), s.1 == s.2)?;
            try_("a * b", guard(|| owned(&a, fa) * owned(&b, fb)).is_ok(), s.1 == s.2)?;
            try_("a * &b", guard(|| owned(&a, fa) * vb).is_ok(), s.1 == s.2)?;
            try_("&a * b", guard(|| va * owned(&b, fb)).is_ok(), s.1 == s.2)?;
            try_("write", guard(|| { let mut x = owned(&a, fa); x[(.., ..)].write(vb); }).is_ok(), fits)?;
            try_("write_and_move", guard(|| { let mut x = owned(&a, fa); x[(.., ..)].write_and_move(owned(&b, fb)); }).is_ok(), fits)?;
            if !fits { ensure!(*va != *vb && *va != owned(&b, fb), "matrices of different sizes are equal"); }
            Ok(())
        }));
        r?;
        st.steps(13);
    } }
    Ok(())
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Bs(String);
impl std::fmt::Display for Bs { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
formal_sum_impl! { Bs }

fn show<T>(d: &D<T>, f: impl Fn(&T) -> String) -> String {
    let mut s = String::from("\n");
    for r in d { s += "| "; s += &r.iter().map(&f).collect::<Vec<_>>().join("\t"); s += " |\n"; }
    s
}

pub fn c08(t: Tier) -> Spaces {
    let mut out: Spaces = Vec::new();
    let ff = (FORMS * FORMS) as u64;
    // every bilinear combination is fixed by its values on elementary pairs
    let shapes: Vec<(usize, usize, usize)> = (0..64).map(|i| (1 + i % 4, 1 + i / 4 % 4, 1 + i / 16)).collect();
    let mut elem = Vec::new();
    for &(n, k, m) in &shapes { for i in 0..n * k { for j in 0..k * m { elem.push((n, k, m, i, j)); } } }
    out.push(space("elementary products", "E_ij * E_kl for all shapes up to 4x4 times 4x4, i64, all storage forms of both", elem.len() as u64 * ff,
        move |i| { let e = elem[(i / ff) as usize]; Some((e, (i % ff) as usize / FORMS, (i % ff) as usize % FORMS)) },
        |&((n, k, m, x, y), fa, fb), st| {
            let a = gen(n, k, |i, j| if i * k + j == x { 3i64 } else { 0 });
            let b = gen(k, m, |i, j| if i * m + j == y { -5i64 } else { 0 });
            products(&a, &b, fa, fb, &99, st)
        }));
    let sh = shapes.clone();
    out.push(space("generic products", "distinct entries, all shapes up to 4x4 times 4x4, six element types, all storage forms", shapes.len() as u64 * ff * 6,
        move |i| { let d = digits(i, &[6, ff, sh.len() as u64])?; Some((sh[d[2] as usize], d[0], d[1] as usize / FORMS, d[1] as usize % FORMS)) },
        |&((n, k, m), ty, fa, fb), st| {
            let a = gen(n, k, |i, j| (i * 4 + j) as i64 * 2 - 7);
            let b = gen(k, m, |i, j| 5 - (i * 5 + j * 3) as i64 % 11);
            fn go<T: LeftMul>(a: &D<i64>, b: &D<i64>, fa: usize, fb: usize, st: &mut Stats) -> Check {
                let (a, b) = (map(a, int_to::<T>), map(b, int_to::<T>));
                products(&a, &b, fa, fb, &int_to(9), st)?;
                if a.len() == b.len() && a[0].len() == b[0].len() { sums(&a, &b, fa, fb, &int_to(9), st)?; sums(&a, &a, fa, fb, &int_to(9), st)?; }
                unary(&a, &int_to(-3), fa, &int_to(9), st)
            }
            match ty {
                0 => go::<i32>(&a, &b, fa, fb, st), 1 => go::<i128>(&a, &b, fa, fb, st), 2 => go::<isize>(&a, &b, fa, fb, st),
                3 => go::<Rational>(&a, &b, fa, fb, st), 4 => go::<f64>(&a, &b, fa, fb, st), _ => go::<i16>(&a, &b, fa, fb, st),
            }
        }));
    // larger shapes
    let sides = t.pick(vec![1usize, 5, 8, 9, 17], vec![1, 2, 5, 7, 8, 9, 16, 17, 33]);
    let mut bigs = Vec::new();
    for &n in &sides { for &k in &sides { for &m in &sides { if n.max(k).max(m) > 4 { for f in 0..FORMS * FORMS { bigs.push((n, k, m, f)); } } } } }
    for (n, k, m) in [(33usize, 65usize, 1usize), (65, 1, 33), (33, 33, 33), (1, 66, 65), (65, 66, 2), (2, 130, 3), (64, 64, 2), (16, 32, 16), (3, 300, 1), (1, 1025, 2), (300, 1, 2), (2, 1, 300)] { for f in 0..FORMS * FORMS { bigs.push((n, k, m, f)); } }
    out.push(list("larger products", &format!("all shapes with sides from {sides:?}, and twelve with sides up to 1025, distinct entries, all storage forms, i64 and rationals"), bigs, |&(n, k, m, f), st| {
        let a = gen(n, k, |i, j| (i * 37 + j * 11) as i64 % 101 - 50);
        let b = gen(k, m, |i, j| 40 - (i * 29 + j * 13) as i64 % 97);
        products(&a, &b, f / FORMS, f % FORMS, &99, st)?;
        if n == k && n < 16 && m < 16 { products(&map(&a, |x| Rational::new(x, 2)), &map(&b, |x| Rational::new(x, 3)), f / FORMS, f % FORMS, &Rational::new(1, 3), st)?; }
        Ok(())
    }));
    let sides2 = [1usize, 2, 5, 7, 8, 9, 16, 17, 33, 65];
    let mut bigs = Vec::new();
    for &n in &sides2 { for &m in &sides2 { if n.max(m) > 4 { for f in 0..FORMS * FORMS { bigs.push((n, m, f)); } } } }
    out.push(list("larger sums, scalars and transposes", &format!("all shapes with sides from {sides2:?}, distinct entries, operands that are equal or differ in one corner, all storage forms"), bigs, |&(n, m, f), st| {
        let (fa, fb) = (f / FORMS, f % FORMS);
        let a = gen(n, m, |i, j| (i * 131 + j) as i64 - 200);
        let b = gen(n, m, |i, j| 7 - (i + 67 * j) as i64);
        sums(&a, &b, fa, fb, &99, st)?;
        sums(&a, &a, fa, fb, &99, st)?;
        for (i, j) in [(0, 0), (n - 1, m - 1), (0, m - 1), (n - 1, 0), (n / 2, m / 2)] { let mut c = a.clone(); c[i][j] += 1; sums(&a, &c, fa, fb, &99, st)?; }
        if fb == 0 {
            unary(&a, &-3, fa, &99, st)?;
            division(&map(&a, |x| Rational::new(x, 3)), Rational::new(5, 7), fa, st)?;
            let text = show(&a, |x| x.to_string());
            with_view(&a, fa, &99, |v| -> Check { ensure!(v.to_string() == text, "a {n}x{m} view prints as {v}, expected {text}"); Ok(()) })?;
            ensure!(owned(&a, fa).to_string() == text, "a {n}x{m} matrix prints as {}, expected {text}", owned(&a, fa));
            let basis: Vec<Bs> = (0..m).map(|i| Bs(format!("y{i:03}"))).collect();
            let got: Vec<Vector<i64, Bs>> = owned(&a, fa) * basis.clone();
            ensure!(got.len() == n, "change of basis by a {n}x{m} matrix gives {} vectors", got.len());
            for (i, g) in got.iter().enumerate() {
                let terms: Vec<(i64, Bs)> = g.iter().cloned().collect();
                let want: Vec<(i64, Bs)> = (0..m).filter(|&j| a[i][j] != 0).map(|j| (a[i][j], basis[j].clone())).collect();
                ensure!(terms == want, "row {i} of the change of basis is {terms:?}, expected {want:?}");
            }
        }
        Ok(())
    }));
    // all contents of small shapes
    let alpha: Vec<i64> = t.pick(vec![-2, -1, 0, 1, 3], vec![-2, -1, 0, 1, 2, 3]);
    let na = alpha.len() as u64;
    let al = alpha.clone();
    out.push(space("all small products", &format!("2x2 times 2x2 over {alpha:?}, i64, all storage forms"), pw(na, 8) * ff,
        move |i| { let w = pw(na, 8); let f = (i / w) as usize; Some((word(i % w, 4, &al), word(i % w / pw(na, 4), 4, &al), f)) },
        move |(a, b, f), st| {
            let (fa, fb) = (f / 5, f % 5);
            let (a, b) = (gen(2, 2, |i, j| a[i * 2 + j]), gen(2, 2, |i, j| b[i * 2 + j]));
            products(&a, &b, fa, fb, &99, st)
        }));
    if t == Tier::Thorough {
        out.push(space("all 2x3 by 3x2 products", "2x3 times 3x2 over {-1,0,2}, i64, all storage forms", pw(3, 12) * ff,
            move |i| { let w = pw(3, 12); let f = (i / w) as usize; Some((word(i % w, 6, &[-1i64, 0, 2]), word(i % w / pw(3, 6), 6, &[-1i64, 0, 2]), f)) },
            move |(a, b, f), st| products(&gen(2, 3, |i, j| a[i * 3 + j]), &gen(3, 2, |i, j| b[i * 2 + j]), f / 5, f % 5, &99, st)));
    }
    // sums, scalars, transposes: all contents
    let mut blocks: Vec<(usize, usize)> = Vec::new();
    for n in 1..=3 { for m in 1..=3 { if n * m <= 4 { blocks.push((n, m)); } } }
    for (n, m) in blocks {
        let e = n * m;
        let al = vec![-3i64, 0, 2];
        out.push(space(&format!("sums {n}x{m}"), "all pairs over {-3,0,2}, all storage forms, i64", pw(9, e) * ff,
            move |i| { let w = pw(9, e); Some((word(i % w, e, &al), word(i % w / pw(3, e), e, &al), (i / w) as usize)) },
            move |(a, b, f), st| {
                let (fa, fb) = (f / 5, f % 5);
                let (a, b) = (gen(n, m, |i, j| a[i * m + j]), gen(n, m, |i, j| b[i * m + j]));
                sums(&a, &b, fa, fb, &99, st)
            }));
        let al = vec![-3i64, 0, 2];
        out.push(space(&format!("scalars and transposes {n}x{m}"), "all contents over {-3,0,2}, all storage forms, scalars -2..=2, i64", pw(3, e) * FORMS as u64 * 5,
            move |i| { let w = pw(3, e); let d = digits(i / w, &[FORMS as u64, 5])?; Some((word(i % w, e, &al), d[0] as usize, d[1] as i64 - 2)) },
            move |(a, f, s), st| {
                let a = gen(n, m, |i, j| a[i * m + j]);
                unary(&a, s, *f, &99, st)?;
                if *s != 0 { division(&map(&a, |x| Rational::new(x, 3)), Rational::new(*s, 7), *f, st)?; }
                Ok(())
            }));
    }
    let top = t.pick(4, 5);
    let mut szs = Vec::new();
    for a in 1..=top { for b in 1..=top { for c in 1..=top { for d in 1..=top { szs.push(Sz(a, b, c, d)); } } } }
    // two views of one matrix as operands
    let ranges = |n: usize| -> Vec<(usize, usize)> { (0..n).flat_map(|a| (a + 1..=n).map(move |b| (a, b))).collect() };
    for (n, m) in t.pick(vec![(2usize, 2usize), (2, 3), (3, 3)], vec![(2, 2), (2, 3), (3, 2), (3, 3), (2, 4)]) {
        let (r, c) = (ranges(n), ranges(m));
        let views: Vec<((usize, usize), (usize, usize), bool)> = r.iter().flat_map(|&r| c.iter().flat_map(move |&c| [false, true].map(|t| (r, c, t)))).collect();
        let (k, cells) = (views.len() as u64, n * m);
        let e = if cells < 9 || t.pick(false, true) { pw(2, cells) } else { 64 };
        let bits = move |i: u64| if e < pw(2, cells) { // contents that are as symmetric as the six free bits of a symmetric 3x3 matrix
            let b = |j: u64| i >> j & 1; [b(0), b(1), b(2), b(1), b(3), b(4), b(2), b(4), b(5)].iter().enumerate().fold(0, |a, (j, x)| a | x << j) } else { i };
        out.push(space(&format!("views of one matrix {n}x{m}"), "every pair of views of the same matrix, transposed or not, all 0-1 contents (of 3x3 in the quick tier: all symmetric ones with one entry changed)", k * k * e * if e < pw(2, cells) { 2 } else { 1 },
            move |i| { let (a, i) = (i % k, i / k); let (b, i) = (i % k, i / k); let (x, flip) = if e < pw(2, cells) { (bits(i % 64), i / 64) } else { (i, 0) }; Some((x ^ (flip << 3), views[a as usize], views[b as usize])) },
            move |&(x, a, b), st| {
                let d: D<i64> = gen(n, m, |i, j| (x >> (i * m + j) & 1) as i64);
                let o = Matrix::from_array(d.clone());
                let get = |(r, c, t): ((usize, usize), (usize, usize), bool)| { let v = &o[(r.0..r.1, c.0..c.1)]; let e: D<i64> = d[r.0..r.1].iter().map(|x| x[c.0..c.1].to_vec()).collect(); if t { (v.transpose(), tr(&e)) } else { (v, e) } };
                let ((va, ea), (vb, eb)) = (get(a), get(b));
                ensure!((va == vb) == (ea == eb), "equality of {ea:?} and {eb:?} is {}", va == vb);
                if rows(&ea) == rows(&eb) && cols(&ea) == cols(&eb) {
                    full(&(va + vb), &zip(&ea, &eb, |x, y| x + y), "&a + &b")?;
                    full(&(va - vb), &zip(&ea, &eb, |x, y| x - y), "&a - &b")?;
                    st.steps(2);
                }
                if cols(&ea) == rows(&eb) { full(&(va * vb), &mul(&ea, &eb), "&a * &b")?; st.step(); }
                st.step();
                st.outcome((x, ea == eb));
                full(&o, &d, "the matrix after use")
            }));
    }
    out.push(list("size mismatches", &format!("all pairs of sizes up to {top}x{top}, all storage forms"), szs, mismatch));
    // construction
    let mut lens: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=4u32 { for i in 0..4u64.pow(n) { lens.push(word(i, n as usize, &[0, 1, 2, 3])); } }
    out.push(list("construction from rows", "every list of up to 4 row lengths, each up to 3", lens, |l, st| {
        let v: Vec<Vec<i64>> = l.iter().enumerate().map(|(i, &k)| (0..k).map(|j| (10 * i + j) as i64).collect()).collect();
        let good = !l.is_empty() && l[0] > 0 && l.iter().all(|&k| k == l[0]);
        let r = guard(|| Matrix::from_array(v.clone()));
        ensure!(r.is_ok() == good, "rows of lengths {l:?}: accepted = {}", r.is_ok());
        if let Ok(m) = r { full(&m, &v, "the matrix")?; }
        st.step();
        Ok(())
    }));
    let hi = t.pick(12, 24);
    out.push(space("zero and identity", &format!("all sizes up to {hi}, element types i64, f64, Rational"), (hi + 1) * (hi + 1), move |i| Some(((i % (hi + 1)) as usize, (i / (hi + 1)) as usize)), |&(n, m), st| {
        fn go<T: PID + Debug>(n: usize, m: usize) -> Check {
            let r = guard(|| Matrix::<T>::zero(n, m));
            ensure!(r.is_ok() == (n > 0 && m > 0), "zero({n}, {m}): accepted = {}", r.is_ok());
            if let Ok(z) = r { full(&z, &gen(n, m, |_, _| T::zero()), "zero")?; }
            let r = guard(|| Matrix::<T>::identity(n));
            ensure!(r.is_ok() == (n > 0), "identity({n}): accepted = {}", r.is_ok());
            if let Ok(z) = r { full(&z, &id::<T>(n), "identity")?; }
            Ok(())
        }
        st.steps(6);
        go::<i64>(n, m)?; go::<f64>(n, m)?; go::<Rational>(n, m)
    }));
    // printing
    let al = vec![-12i64, 0, 1, 345];
    out.push(space("printing", "all 1x1..2x2 contents over four values, Display and Debug, i64, Rational and f64, all storage forms", 4 * 256 * FORMS as u64,
        move |i| { let d = digits(i, &[256, 2, 2, FORMS as u64])?; Some((word(d[0], 4, &al), 1 + d[1] as usize, 1 + d[2] as usize, d[3] as usize)) },
        |(w, n, m, f), st| {
            let a = gen(*n, *m, |i, j| w[i * m + j]);
            let o = owned(&a, *f);
            let want = show(&a, |x| x.to_string());
            ensure!(o.to_string() == want, "Display gives {:?}, expected {want:?}", o.to_string());
            ensure!(format!("{o:?}") == want, "Debug gives {:?}, expected {want:?}", format!("{o:?}"));
            let v = with_view(&a, *f, &99, |v| (v.to_string(), format!("{v:?}")));
            ensure!(v == (want.clone(), want.clone()), "a view prints as {v:?}, expected {want:?}");
            let q = map(&a, |x| x as f64 / 8.0);
            let o = owned(&q, *f);
            for (got, want) in [(o.to_string(), show(&q, |x| format!("{x:.3}"))), (format!("{o:.1}"), show(&q, |x| format!("{x:.1}"))), (format!("{o:.5}"), show(&q, |x| format!("{x:.5}"))), (format!("{o:?}"), show(&q, |x| format!("{x:?}")))] {
                ensure!(got == want, "prints as {got:?}, expected {want:?}");
            }
            let q = map(&a, |x| Fr::new(x as i128, 6));
            let want = show(&q, |x| x.show());
            let o = owned(&map(&q, |x| x.rat()), *f);
            ensure!(o.to_string() == want && format!("{o:?}") == want, "rational matrix prints as {o}, expected {want}");
            st.steps(9);
            Ok(())
        }));
    // the constructor macro
    out.push(list("constructor macro", "literal matrices", vec![0u8], |_, st| {
        full(&matrix!(i64; [[1, 2, 3], [4, 5, 6]]), &vec![vec![1, 2, 3], vec![4, 5, 6]], "matrix!(i64; ..)")?;
        full(&matrix!(f64; [[0.5], [1.5]]), &vec![vec![0.5], vec![1.5]], "matrix!(f64; ..)")?;
        full(&matrix!([[1, 2, 3], [4, 5, 6], [7, 8, 9]]), &vec![vec![1, 2, 3], vec![4, 5, 6], vec![7, 8, 9]], "matrix!(..)")?;
        full(&matrix!([[Rational::from(1)], [Rational::from(2)], [Rational::from(4)]]), &vec![vec![Rational::from(1)], vec![Rational::from(2)], vec![Rational::from(4)]], "matrix!(..)")?;
        st.steps(4);
        Ok(())
    }));
    // change of basis: every integer matrix on every list of basis elements (with repetitions)
    let al = vec![-1i64, 0, 2];
    out.push(space("change of basis", "all 1x1..2x3 matrices over {-1,0,2} times all lists of basis elements, owned and stored transposed; wrong lengths", 4 * pw(3, 9) * 2,
        move |i| {
            let d = digits(i, &[2, 2, 2, pw(3, 6), 27])?;
            let (n, m) = (1 + d[0] as usize, 2 + d[1] as usize);
            if d[3] >= pw(3, n * m) || d[4] >= pw(3, m) { return None; }
            Some((n, m, d[2] as usize, word(d[3], n * m, &al), word(d[4], m, &[0usize, 1, 2])))
        },
        |(n, m, f, w, bs), st| {
            let a = gen(*n, *m, |i, j| w[i * m + j]);
            let names = ["c", "a", "b"];
            let basis: Vec<Bs> = bs.iter().map(|&i| Bs(names[i].into())).collect();
            let got = owned(&a, *f) * basis.clone();
            ensure!(got.len() == *n, "{} vectors, expected {n}", got.len());
            for i in 0..*n {
                let mut want: std::collections::BTreeMap<Bs, i64> = Default::default();
                for j in 0..*m { *want.entry(basis[j].clone()).or_default() += a[i][j]; }
                let want: Vec<(i64, Bs)> = want.into_iter().filter(|x| x.1 != 0).map(|(b, c)| (c, b)).collect();
                let g: Vec<(i64, Bs)> = got[i].iter().cloned().collect();
                ensure!(g == want, "row {i} times the basis is {g:?}, expected {want:?}");
            }
            let longer: Vec<Bs> = basis.iter().cloned().chain([Bs("z".into())]).collect();
            ensure!(guard(|| owned(&a, *f) * longer).is_err(), "a basis with one element too many was accepted");
            ensure!(guard(|| -> Vec<Vector<i64, Bs>> { owned(&a, *f) * basis[1..].to_vec() }).is_err(), "a basis with one element too few was accepted");
            st.steps(*n + 2);
            Ok(())
        }));
    out
}

// ================================================================ C09
/// One index of a view: all seven kinds.
#[derive(Clone, Copy, Debug, PartialEq)]
enum R { Rng(usize, usize), From(usize), Full, Incl(usize, usize), To(usize), ToIncl(usize), Idx(usize) }
impl R {
    fn all(top: usize) -> Vec<R> {
        let mut v = vec![R::Full];
        for a in 0..=top { v.extend([R::From(a), R::To(a), R::ToIncl(a), R::Idx(a)]); for b in 0..=top { v.extend([R::Rng(a, b), R::Incl(a, b)]); } }
        v
    }
    fn bounds(self, n: usize) -> Option<(usize, usize)> {
        let (a, b) = match self { R::Rng(a, b) => (a, b), R::From(a) => (a, n), R::Full => (0, n), R::Incl(a, b) => (a, b + 1), R::To(b) => (0, b), R::ToIncl(b) => (0, b + 1), R::Idx(a) => (a, a + 1) };
        if a <= b && b <= n { Some((a, b)) } else { None }
    }
}
macro_rules! with_index {
    ($r:expr, |$x:ident| $body:expr, $idx:expr) => { match $r {
        R::Rng(a, b) => { let $x = a..b; $body }
        R::From(a) => { let $x = a..; $body }
        R::Full => { let $x = ..; $body }
        R::Incl(a, b) => { let $x = a..=b; $body }
        R::To(b) => { let $x = ..b; $body }
        R::ToIncl(b) => { let $x = ..=b; $body }
        R::Idx($x) => { let _ = $x; $idx }
    } };
}
fn view<'a>(m: &'a SubMatrix<i64>, r: R, c: R) -> Option<&'a SubMatrix<i64>> {
    Some(with_index!(r, |x| with_index!(c, |y| &m[(x, y)], &m[(x, y)]), with_index!(c, |y| &m[(x, y)], return None)))
}
fn view_mut<'a>(m: &'a mut SubMatrix<i64>, r: R, c: R) -> Option<&'a mut SubMatrix<i64>> {
    Some(with_index!(r, |x| with_index!(c, |y| &mut m[(x, y)], &mut m[(x, y)]), with_index!(c, |y| &mut m[(x, y)], return None)))
}
type Cells = D<(usize, usize)>; // which base cell each entry of the view is
fn base(n: usize, m: usize) -> D<i64> { gen(n, m, |i, j| (i * 100 + j) as i64 + 1) }
fn cells(n: usize, m: usize) -> Cells { gen(n, m, |i, j| (i, j)) }
fn sub_cells(c: &Cells, w: usize, r: (usize, usize), k: (usize, usize)) -> (Cells, usize) { let _ = w; (c[r.0..r.1].iter().map(|row| row[k.0..k.1].to_vec()).collect(), k.1 - k.0) }
/// The view reads exactly those base cells, and nothing else can be indexed.
fn reads(v: &SubMatrix<i64>, c: &Cells, w: usize, b: &D<i64>, what: &str) -> Check {
    ensure!(v.size() == (c.len(), w), "{what} has size {:?}, expected {:?}", v.size(), (c.len(), w));
    for i in 0..c.len() { for j in 0..w {
        let (x, y) = c[i][j];
        ensure!(v[(i, j)] == b[x][y], "{what}: entry ({i},{j}) is {}, expected {} (base cell ({x},{y}))", v[(i, j)], b[x][y]);
    } }
    let (n, m) = (c.len(), w);
    for (i, j) in [(n, 0), (0, m), (n, m), (n + 1, m + 1), (usize::MAX, 0)] {
        ensure!(guard(|| v[(i, j)]).is_err(), "{what}: index ({i},{j}) of a {n}x{m} view was accepted");
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct ViewCase { n: usize, m: usize, t: usize, r: R, c: R }
fn tcells(c: &Cells, w: usize) -> (Cells, usize) { ((0..w).map(|j| c.iter().map(|row| row[j]).collect()).collect(), c.len()) }
/// Checks one view of `v`, then every mutable access to it.
fn one_view(k: &ViewCase, st: &mut Stats) -> Check {
    let b = base(k.n, k.m);
    let (cs, w) = (cells(k.n, k.m), k.m);
    let mk = || match k.t { 0 => Matrix::from_array(b.clone()), _ => Matrix::from_array(tr(&b)).transpose() };
    // t = 2: the base is seen through a transposed view
    let (cs, w) = if k.t == 2 { tcells(&cs, w) } else { (cs, w) };
    let m0 = if k.t == 2 { Matrix::from_array(b.clone()) } else { mk() };
    let v0: &SubMatrix<i64> = if k.t == 2 { m0.transpose_view() } else { &m0 };
    let (rn, cn) = v0.size();
    let valid = k.r.bounds(rn).zip(k.c.bounds(cn));
    if matches!((k.r, k.c), (R::Idx(_), R::Idx(_))) {
        let (R::Idx(i), R::Idx(j)) = (k.r, k.c) else { unreachable!() };
        let r = guard(|| v0[(i, j)]);
        ensure!(r.is_ok() == valid.is_some(), "element ({i},{j}) of a {rn}x{cn} matrix: accepted = {}", r.is_ok());
        st.step();
        return Ok(());
    }
    let got = guard(|| view(v0, k.r, k.c).unwrap());
    ensure!(got.is_ok() == valid.is_some(), "view ({:?}, {:?}) of a {rn}x{cn} matrix: accepted = {}", k.r, k.c, got.is_ok());
    st.step();
    let Some((rr, cc)) = valid else {
        if k.t != 2 {
            let mut m1 = mk();
            ensure!(guard(|| { view_mut(&mut m1, k.r, k.c); }).is_err(), "mutable view ({:?}, {:?}) of a {rn}x{cn} matrix was accepted", k.r, k.c);
        }
        return Ok(());
    };
    let v = got.unwrap();
    let (vc, vw) = sub_cells(&cs, w, rr, cc);
    reads(v, &vc, vw, &b, "the view")?;
    let (tc, tw) = tcells(&vc, vw);
    reads(v.transpose(), &tc, tw, &b, "the transposed view")?;
    reads(v.transpose().transpose(), &vc, vw, &b, "the view transposed twice")?;
    if !vc.is_empty() && vw > 0 { reads(&v.as_matrix(), &vc, vw, &b, "as_matrix of the view")?; }
    st.steps(vc.len() * vw * 3);
    if k.t == 2 { return Ok(()); }
    // writing through the view changes exactly its own cells
    let large = vc.len() * vw > 49;
    for i in 0..vc.len() { for j in 0..vw {
        if large && !((i == 0 || i + 1 == vc.len()) && (j == 0 || j + 1 == vw)) { continue; }
        let mut m1 = mk();
        view_mut(&mut m1, k.r, k.c).unwrap()[(i, j)] = -5;
        let mut want = b.clone();
        want[vc[i][j].0][vc[i][j].1] = -5;
        full(&m1, &want, &format!("the matrix after writing entry ({i},{j}) of the view"))?;
        st.step();
    } }
    let mut m1 = mk();
    ensure!(guard(|| view_mut(&mut m1, k.r, k.c).unwrap()[(vc.len(), 0)] = -5).is_err(), "a write below the view was accepted");
    ensure!(guard(|| view_mut(&mut m1, k.r, k.c).unwrap()[(0, vw)] = -5).is_err(), "a write to the right of the view was accepted");
    full(&m1, &b, "the matrix after rejected writes")
}
trait TV { fn transpose_view(&self) -> &SubMatrix<i64>; }
impl TV for Matrix<i64> { fn transpose_view(&self) -> &SubMatrix<i64> { (**self).transpose() } }

#[derive(Clone, Copy, Debug)]
enum MOp { SwapR(usize, usize), SwapC(usize, usize), RowOp(usize, usize, i64), ColOp(usize, usize, i64), Scale(i64), Write, WriteMove, AddFrom(usize) }
/// Applies an operation to a naive grid restricted to the given cells; None when it has to be rejected.
fn model_op(b: &D<i64>, c: &Cells, w: usize, op: MOp) -> Option<D<i64>> {
    let mut o = b.clone();
    let h = c.len();
    let at = |i: usize, j: usize| { let (x, y) = c[i][j]; b[x][y] };
    let mut set = |i: usize, j: usize, v: i64| { let (x, y) = c[i][j]; o[x][y] = v; };
    match op {
        MOp::SwapR(p, q) => { if p >= h || q >= h { return None; } for j in 0..w { set(p, j, at(q, j)); set(q, j, at(p, j)); } }
        MOp::SwapC(p, q) => { if p >= w || q >= w { return None; } for i in 0..h { set(i, p, at(i, q)); set(i, q, at(i, p)); } }
        MOp::RowOp(p, q, s) => { if p >= h || q >= h { return None; } for j in 0..w { set(p, j, at(p, j) + s * at(q, j)); } }
        MOp::ColOp(p, q, s) => { if p >= w || q >= w { return None; } for i in 0..h { set(i, p, at(i, p) + s * at(i, q)); } }
        MOp::Scale(s) => for i in 0..h { for j in 0..w { set(i, j, s * at(i, j)); } },
        MOp::Write | MOp::WriteMove => for i in 0..h { for j in 0..w { set(i, j, filler(i, j)); } },
        MOp::AddFrom(k) => for i in 0..h { for j in 0..w { set(i, j, at(i, j) + at(i, (j + k) % w)); } },
    }
    Some(o)
}
fn filler(i: usize, j: usize) -> i64 { -((i * 10 + j) as i64) - 1 }
fn real_op(v: &mut SubMatrix<i64>, op: MOp) {
    let (h, w) = v.size();
    match op {
        MOp::SwapR(p, q) => v.swap_rows(p, q),
        MOp::SwapC(p, q) => v.swap_cols(p, q),
        MOp::RowOp(p, q, s) => v.row_operation(p, q, s),
        MOp::ColOp(p, q, s) => v.col_operation(p, q, s),
        MOp::Scale(s) => *v *= s,
        MOp::Write => { let f = framed(&gen(h, w, filler), &7, 1, 0, 0, 2); v.write(&f[(1.., ..w)]) }
        MOp::WriteMove => v.write_and_move(Matrix::from_array(tr(&gen(h, w, filler))).transpose()),
        MOp::AddFrom(k) => { let c = v.as_matrix(); let s = gen(h, w, |i, j| c[(i, (j + k) % w)]); let sum = &*v + Matrix::from_array(s); v.write(&sum) }
    }
}
fn real_op_owned(m: &mut Matrix<i64>, op: MOp) {
    match op {
        MOp::SwapR(p, q) => m.swap_rows(p, q), MOp::SwapC(p, q) => m.swap_cols(p, q),
        MOp::RowOp(p, q, s) => m.row_operation(p, q, s), MOp::ColOp(p, q, s) => m.col_operation(p, q, s),
        MOp::Scale(s) => *m *= s,
        _ => real_op(m, op),
    }
}
fn all_ops(h: usize, w: usize) -> Vec<MOp> {
    let mut v = vec![MOp::Scale(2), MOp::Scale(0), MOp::Write, MOp::WriteMove, MOp::AddFrom(0), MOp::AddFrom(1)];
    for p in 0..=h { for q in 0..=h { v.push(MOp::SwapR(p, q)); for s in [-2, 0, 1] { v.push(MOp::RowOp(p, q, s)); } } }
    for p in 0..=w { for q in 0..=w { v.push(MOp::SwapC(p, q)); for s in [-2, 0, 1] { v.push(MOp::ColOp(p, q, s)); } } }
    v
}

/// Histories of writes through several overlapping views of one matrix.
struct ViewHist { n: usize, m: usize, depth: usize, sparse_ops: bool }
#[derive(Clone, Debug)]
struct VOp { chain: Vec<(R, R)>, op: MOp }
impl ViewHist {
    fn chains(&self) -> Vec<Vec<(R, R)>> {
        vec![vec![], vec![(R::Full, R::Idx(0))], vec![(R::Idx(self.n - 1), R::Full)], vec![(R::From(1), R::To(self.m - 1))],
            vec![(R::Incl(0, self.n - 1), R::From(1)), (R::From(1), R::Full)]]
    }
}
impl Model for ViewHist {
    type State = (Matrix<i64>, D<i64>, u8);
    type Op = (VOp, bool); // bool: transpose the owned matrix afterwards
    type Key = (D<i64>, u8);
    fn max_states(&self) -> usize { 8_000_000 }
    fn n_init(&self) -> u64 { 2 }
    fn init(&self, i: u64) -> Result<Self::State, String> {
        let b = gen(self.n, self.m, |i, j| (i * self.m + j) as i64 + 1);
        Ok((owned(&b, i as usize), b, i as u8))
    }
    fn show_init(&self, i: u64) -> String { format!("{}x{} matrix 1,2,..{}", self.n, self.m, if i == 1 { ", stored transposed" } else { "" }) }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &Self::State) -> Vec<Self::Op> {
        let mut v = vec![(VOp { chain: vec![], op: MOp::Scale(1) }, true)];
        for ch in self.chains() {
            let (mut h, mut w) = (s.1.len(), s.1[0].len());
            let mut ok = true;
            for (r, c) in &ch { match r.bounds(h).zip(c.bounds(w)) { Some((a, b)) => { h = a.1 - a.0; w = b.1 - b.0; } None => ok = false } }
            if !ok || h == 0 || w == 0 { continue; }
            for op in all_ops(h, w) {
                if self.sparse_ops && matches!(op, MOp::RowOp(_, _, -2) | MOp::ColOp(_, _, -2) | MOp::Scale(0) | MOp::WriteMove | MOp::AddFrom(_)) { continue; }
                v.push((VOp { chain: ch.clone(), op }, false));
            }
        }
        v
    }
    fn apply(&self, s: &Self::State, (op, flip): &Self::Op) -> Result<Option<Self::State>, String> {
        let mut m = owned(&s.1, s.2 as usize);
        if !(m == s.0) { fail!("a matrix rebuilt from the same entries is not equal"); }
        if *flip { let b = tr(&s.1); let m = m.transpose(); full(&m, &b, "the transposed matrix")?; return Ok(Some((m, b, 1 - s.2))); }
        let (mut c, mut w) = (cells(s.1.len(), s.1[0].len()), s.1[0].len());
        for (r, k) in &op.chain { let (rr, kk) = (r.bounds(c.len()).unwrap(), k.bounds(w).unwrap()); (c, w) = sub_cells(&c, w, rr, kk); }
        let want = model_op(&s.1, &c, w, op.op);
        let r = guard(|| {
            if op.chain.is_empty() { real_op_owned(&mut m, op.op); } else {
                let mut v: &mut SubMatrix<i64> = &mut m;
                for (r, k) in &op.chain { v = view_mut(v, *r, *k).unwrap(); }
                real_op(v, op.op);
            }
        });
        match (want, r) {
            (None, Err(_)) => Ok(None),
            (None, Ok(())) => Err("an operation on rows or columns that do not exist was accepted".into()),
            (Some(_), Err(e)) => Err(e),
            (Some(b), Ok(())) => { full(&m, &b, "the whole matrix")?; if b.iter().flatten().any(|x| x.abs() > 1 << 40) { return Ok(None); } Ok(Some((m, b, s.2))) }
        }
    }
    fn key(&self, s: &Self::State) -> Self::Key { (s.1.clone(), s.2) }
}

pub fn c09(t: Tier) -> Spaces {
    let mut out: Spaces = Vec::new();
    let top = t.pick(5, 6);
    let kinds = R::all(top + 1);
    let nk = kinds.len() as u64;
    let top64 = top as u64;
    out.push(space("views", &format!("all 49 index kinds with all bounds 0..={}, of all matrices up to {top}x{top}, owned, stored transposed and seen through a transposed view; reads and writes", top + 1), nk * nk * top64 * top64 * 3,
        move |i| { let d = digits(i, &[nk, nk, top64, top64, 3])?; Some(ViewCase { n: 1 + d[2] as usize, m: 1 + d[3] as usize, t: d[4] as usize, r: kinds[d[0] as usize], c: kinds[d[1] as usize] }) },
        one_view));
    // larger matrices
    let at = [0usize, 1, 7, 8, 9, 15, 16, 17, 33, 34];
    let mut kinds: Vec<R> = vec![R::Full];
    for &a in &at { kinds.extend([R::From(a), R::To(a), R::ToIncl(a), R::Idx(a)]); for &b in &at { kinds.push(R::Rng(a, b)); if b % 2 == 1 { kinds.push(R::Incl(a, b)); } } }
    let kinds: Vec<R> = kinds.into_iter().filter(|r| match *r { R::Rng(a, b) | R::Incl(a, b) => a <= b + 1, _ => true }).collect();
    let nk = kinds.len() as u64;
    let shapes = [(17usize, 33usize), (33, 9), (8, 16), (1, 33), (16, 1)];
    out.push(space("views of larger matrices", &format!("all index kinds with bounds {at:?} of matrices of sizes {shapes:?} in three storage forms; reads, and writes to the corners"), nk * nk * 15,
        move |i| { let d = digits(i, &[nk, nk, 5, 3])?; let s = shapes[d[2] as usize]; Some(ViewCase { n: s.0, m: s.1, t: d[3] as usize, r: kinds[d[0] as usize], c: kinds[d[1] as usize] }) },
        one_view));
    let mut cases = Vec::new();
    let shape = (10usize, 18usize);
    let rs: [R; 4] = [R::Full, R::Rng(1, 9), R::From(8), R::Idx(9)];
    let cs: [R; 5] = [R::Full, R::Rng(1, 17), R::Rng(8, 16), R::From(15), R::Idx(17)];
    for r in rs { for c in cs { if matches!((r, c), (R::Idx(_), R::Idx(_))) { continue; } for form in 0..2 {
        let (h, w) = (r.bounds(shape.0).unwrap(), c.bounds(shape.1).unwrap());
        for op in all_ops(h.1 - h.0, w.1 - w.0) { cases.push((r, c, form, op)); }
    } } }
    out.push(list("row and column operations on larger views", "every operation (valid or not) on 19 views of a 10x18 matrix, owned or stored transposed", cases, move |&(r, c, form, op), st| {
        let b = base(shape.0, shape.1);
        let (cs, w) = sub_cells(&cells(shape.0, shape.1), shape.1, r.bounds(shape.0).unwrap(), c.bounds(shape.1).unwrap());
        let want = model_op(&b, &cs, w, op);
        let mut x = owned(&b, form);
        let g = guard(|| real_op(view_mut(&mut x, r, c).unwrap(), op));
        st.step();
        match want {
            None => ensure!(g.is_err(), "an operation on rows or columns that do not exist was accepted"),
            Some(d) => { if let Err(e) = g { fail!("{e}"); } full(&x, &d, "the whole matrix afterwards")?; }
        }
        Ok(())
    }));
    // and on a larger one: the operations on the first, middle and last rows and columns
    let shape = (26usize, 34usize);
    let mut cases = vec![];
    for (r, c) in [(R::Full, R::Full), (R::Rng(1, 25), R::Rng(2, 33)), (R::From(2), R::Idx(33)), (R::Idx(25), R::Full)] { for form in 0..2 {
        let (h, w) = (r.bounds(shape.0).unwrap(), c.bounds(shape.1).unwrap());
        let (h, w) = (h.1 - h.0, w.1 - w.0);
        let near = |p: usize, h: usize| p < 2 || p + 2 >= h || p.abs_diff(21) < 2;
        for op in all_ops(h, w) { if match op { MOp::SwapR(p, q) | MOp::RowOp(p, q, _) => near(p, h) && near(q, h), MOp::SwapC(p, q) | MOp::ColOp(p, q, _) => near(p, w) && near(q, w), _ => true } { cases.push((r, c, form, op)); } }
    } }
    out.push(list("row and column operations on a 26x34 matrix", "operations on the first, the last and three middle rows and columns, and on the whole, of four views of a 26x34 matrix, owned or stored transposed", cases, move |&(r, c, form, op), st| {
        let b = base(shape.0, shape.1);
        let (cs, w) = sub_cells(&cells(shape.0, shape.1), shape.1, r.bounds(shape.0).unwrap(), c.bounds(shape.1).unwrap());
        let want = model_op(&b, &cs, w, op);
        let mut x = owned(&b, form);
        let g = guard(|| real_op(view_mut(&mut x, r, c).unwrap(), op));
        st.step();
        match want {
            None => ensure!(g.is_err(), "an operation on rows or columns that do not exist was accepted"),
            Some(d) => { if let Err(e) = g { fail!("{e}"); } full(&x, &d, "the whole matrix afterwards")?; }
        }
        Ok(())
    }));
    // two levels, with a transposition before, between or after
    let (n, m) = (t.pick(3usize, 4), 4usize);
    let ok = |n: usize| -> Vec<R> { R::all(n).into_iter().filter(|r| r.bounds(n).is_some() && matches!(r, R::Rng(..) | R::Full | R::Idx(_))).collect() };
    let (lr, lc) = (ok(n), ok(m));
    let (a, b) = (lr.len() as u64, lc.len() as u64);
    let second = R::all(n.max(m));
    let second: Vec<R> = second.into_iter().filter(|r| matches!(r, R::Rng(..) | R::From(_) | R::Incl(..) | R::Idx(_)) || n == 3).collect();
    let s = second.len() as u64;
    out.push(space("views of views", &format!("every view of every view of a {n}x{m} matrix, transposed in between or not"), a * b * s * s * 2,
        move |i| { let d = digits(i, &[s, s, b, a, 2])?; Some((lr[d[3] as usize], lc[d[2] as usize], second[d[0] as usize], second[d[1] as usize], d[4] == 1)) },
        move |&(r1, c1, r2, c2, flip), st| {
            let bs = base(n, m);
            let m0 = Matrix::from_array(bs.clone());
            let Some(v1) = view(&m0, r1, c1) else { return Ok(()) };
            let (cs, w) = sub_cells(&cells(n, m), m, r1.bounds(n).unwrap(), c1.bounds(m).unwrap());
            let (v1, cs, w) = if flip { let (c, w) = tcells(&cs, w); (v1.transpose(), c, w) } else { (v1, cs, w) };
            let valid = r2.bounds(cs.len()).zip(c2.bounds(w));
            if matches!((r2, c2), (R::Idx(_), R::Idx(_))) { return Ok(()); }
            let got = guard(|| view(v1, r2, c2).unwrap());
            ensure!(got.is_ok() == valid.is_some(), "view ({r2:?}, {c2:?}) of a {}x{w} view: accepted = {}", cs.len(), got.is_ok());
            if let Some((rr, cc)) = valid {
                let (vc, vw) = sub_cells(&cs, w, rr, cc);
                reads(got.unwrap(), &vc, vw, &bs, "the view of the view")?;
                if !flip {
                    for i in 0..vc.len() { for j in 0..vw {
                        let mut m1 = Matrix::from_array(bs.clone());
                        view_mut(view_mut(&mut m1, r1, c1).unwrap(), r2, c2).unwrap()[(i, j)] = -5;
                        let mut want = bs.clone(); want[vc[i][j].0][vc[i][j].1] = -5;
                        full(&m1, &want, "the matrix after a write through a view of a view")?;
                    } }
                }
                st.steps(vc.len() * vw + 1);
            }
            Ok(())
        }));
    // every operation on every view
    let (n, m) = (t.pick(3usize, 4), 4usize);
    let lr: Vec<R> = (0..n).flat_map(|a| (a + 1..=n).map(move |b| R::Rng(a, b))).collect();
    let lc: Vec<R> = (0..m).flat_map(|a| (a + 1..=m).map(move |b| R::Rng(a, b))).collect();
    let mut cases = Vec::new();
    for &r in &lr { for &c in &lc { for form in 0..2 {
        let (h, w) = (r.bounds(n).unwrap(), c.bounds(m).unwrap());
        for op in all_ops(h.1 - h.0, w.1 - w.0) { cases.push((r, c, form, op)); }
    } } }
    out.push(list("row and column operations", &format!("every operation (valid or not) on every non-empty view of a {n}x{m} matrix, owned or stored transposed"), cases, move |&(r, c, form, op), st| {
        let b = base(n, m);
        let (cs, w) = sub_cells(&cells(n, m), m, r.bounds(n).unwrap(), c.bounds(m).unwrap());
        let want = model_op(&b, &cs, w, op);
        let mut x = owned(&b, form);
        let g = guard(|| real_op(view_mut(&mut x, r, c).unwrap(), op));
        st.step();
        match want {
            None => ensure!(g.is_err(), "an operation on rows or columns that do not exist was accepted"),
            Some(d) => { if let Err(e) = g { fail!("{e}"); } full(&x, &d, "the whole matrix afterwards")?; }
        }
        Ok(())
    }));
    for (n, m, d) in t.pick(vec![(2, 2, 4), (3, 3, 3), (2, 3, 3), (3, 2, 3), (4, 4, 2)], vec![(2, 2, 5), (3, 3, 4), (2, 3, 4), (3, 2, 4), (4, 4, 3)]) {
        out.push(bfs(&format!("histories {n}x{m}"), &format!("all histories of up to {d} operations through five overlapping views and of transpositions"), ViewHist { n, m, depth: d, sparse_ops: d >= 3 }));
    }
    // sizes near the limits of the packed view metadata
    let sides = vec![1usize, 2, 255, 256, 257, 1023, 1024, 32767, 32768, 65534, 65535, 65536, 65537, 131072];
    let mut big = Vec::new();
    for &s in &sides { for k in [1usize, 2, 3] { for f in 0..2 { big.push((s, k, f)); if s > 3 { big.push((k, s, f)); } } } }
    big.push((256, 300, 0));
    big.push((300, 256, 1));
    out.push(list("long matrices", "sides around powers of two up to 131072, owned and transposed: sides below 65536 behave, larger ones are rejected with a panic", big, |&(n, m, f), st| {
        let val = |i: usize, j: usize| (i * 7 + j * 1000003) as i64;
        let r = guard(|| { let mut x = Matrix::<i64>::zero(n, m); for i in 0..n { for j in 0..m { x[(i, j)] = val(i, j); } } if f == 1 { x.transpose() } else { x } });
        let fits = n < 65536 && m < 65536;
        let x = match r { Ok(x) => x, Err(e) => { ensure!(!fits, "a {n}x{m} matrix: {e}"); return Ok(()) } };
        let (h, w) = if f == 1 { (m, n) } else { (n, m) };
        let at = |i: usize, j: usize| if f == 1 { val(j, i) } else { val(i, j) };
        ensure!(x.size() == (h, w), "size of a {h}x{w} matrix is {:?}", x.size());
        for i in 0..h { for j in 0..w { ensure!(x[(i, j)] == at(i, j), "entry ({i},{j}) of a {h}x{w} matrix is {}, expected {}", x[(i, j)], at(i, j)); } }
        let v = &x[(h / 2.., w / 2..)];
        ensure!(v.size() == (h - h / 2, w - w / 2), "size of the lower right view of a {h}x{w} matrix is {:?}", v.size());
        for i in 0..v.size().0 { for j in 0..v.size().1 { ensure!(v[(i, j)] == at(i + h / 2, j + w / 2), "entry ({i},{j}) of the lower right view of a {h}x{w} matrix"); } }
        let y = x.as_matrix();
        ensure!(y == x, "a copy of a {h}x{w} matrix differs from it");
        st.steps(2 * h * w);
        Ok(())
    }));
    out
}

// ================================================================ C10
/// A ring element that owns a registered identity: dropping anything that is not a live element is noticed.
mod own {
    use alg::commutative::{Field, One, Symbol, Zero, PID};
    use std::cell::RefCell;
    use std::collections::HashSet;
    const MAGIC: u64 = 0x6f77_6e65_6421_0001;
    #[derive(Default)]
    pub struct Reg { next: u64, pub live: HashSet<u64>, pub bad: Option<String> }
    thread_local! { pub static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
    // the number of element operations left before one of them panics (0: none does), and those counted so far
    thread_local! { static FAULT: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) }; }
    pub fn arm(k: u64) { FAULT.with(|f| f.set((k, 0))); }
    pub fn counted() -> u64 { FAULT.with(|f| f.get().1) }
    fn tick() {
        let (k, n) = FAULT.with(|f| f.get());
        FAULT.with(|f| f.set((k.saturating_sub(1), n + 1)));
        if k == 1 { panic!("an operation on an element failed"); }
    }
    pub struct Own { magic: u64, id: u64, v: i64 }
    impl Own {
        pub fn new(v: i64) -> Own { tick(); REG.with(|r| { let mut r = r.borrow_mut(); r.next += 1; let id = r.next; r.live.insert(id); Own { magic: MAGIC, id, v } }) }
        fn get(&self) -> i64 { self.check("used"); self.v }
        fn check(&self, what: &str) {
            REG.with(|r| { let mut r = r.borrow_mut();
                if self.magic != MAGIC { r.bad.get_or_insert(format!("memory that was never an element was {what}")); }
                else if !r.live.contains(&self.id) { r.bad.get_or_insert(format!("an element that had been dropped was {what}")); } })
        }
        pub fn value(&self) -> i64 { self.get() }
    }
    impl Drop for Own { fn drop(&mut self) { self.check("dropped"); REG.with(|r| { r.borrow_mut().live.remove(&self.id); }); self.v = -999; } }
    impl Clone for Own { fn clone(&self) -> Own { Own::new(self.get()) } }
    impl PartialEq for Own { fn eq(&self, o: &Own) -> bool { tick(); self.get() == o.get() } }
    impl std::fmt::Debug for Own { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.get()) } }
    impl std::fmt::Display for Own { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.get()) } }
    macro_rules! op { ($($t:ident $f:ident $ta:ident $fa:ident $e:expr;)*) => { $(
        impl std::ops::$t for Own { type Output = Own; fn $f(self, o: Own) -> Own { let e: fn(i64, i64) -> i64 = $e; Own::new(e(self.get(), o.get())) } }
        impl std::ops::$ta for Own { fn $fa(&mut self, o: Own) { tick(); let e: fn(i64, i64) -> i64 = $e; self.v = e(self.get(), o.get()); } }
    )* } }
    op! { Add add AddAssign add_assign |a, b| a.wrapping_add(b); Sub sub SubAssign sub_assign |a, b| a.wrapping_sub(b); Mul mul MulAssign mul_assign |a, b| a.wrapping_mul(b);
        Div div DivAssign div_assign |a, b| if b == 0 { panic!("division by zero") } else { a / b }; }
    impl std::ops::Neg for Own { type Output = Own; fn neg(self) -> Own { Own::new(-self.get()) } }
    impl Zero for Own { fn zero() -> Own { Own::new(0) } }
    impl One for Own { fn one() -> Own { Own::new(1) } }
    impl Symbol for Own { fn symbol() -> String { "Own".into() } }
    impl std::iter::Sum for Own { fn sum<I: Iterator<Item = Own>>(i: I) -> Own { i.fold(Own::new(0), |a, b| a + b) } }
    impl std::iter::Product for Own { fn product<I: Iterator<Item = Own>>(i: I) -> Own { i.fold(Own::new(1), |a, b| a * b) } }
    impl PID for Own {
        fn is_prime(self) -> bool { false }
        fn n_prime_factors(self) -> usize { 0 }
        fn euclid_div(self, d: Own) -> (Own, Own) { (Own::new(self.get() / d.get()), Own::new(self.get() % d.get())) }
        fn simplify(self) -> (Own, Own) { (Own::new(1), self) }
    }
    impl Field for Own {}
    pub fn live() -> usize { REG.with(|r| r.borrow().live.len()) }
    pub fn bad() -> Option<String> { REG.with(|r| r.borrow_mut().bad.take()) }
}
use own::Own;
fn owns(n: usize, m: usize, k: i64) -> Vec<Vec<Own>> { gen(n, m, |i, j| Own::new(k + (i * m + j) as i64)) }
fn vals(m: &SubMatrix<Own>) -> D<i64> { map(&read(m), |x| x.value()) }

#[derive(Clone, Copy, Debug)]
enum Life {
    Make(usize, usize), MakeT(usize, usize), Zero(usize, usize), Id(usize), Ragged, EmptyRows,
    Clone(usize), AsMatrix(usize), ViewCopy(usize), EmptyViewCopy(usize), Transpose(usize), Drop(usize),
    Add(usize, usize, u8), Sub(usize, usize, u8), Mul(usize, usize, u8), AddAssign(usize, usize, u8), SubAssign(usize, usize, u8),
    Scale(usize, u8), Div(usize, u8), DivZero(usize, u8), Dot(usize, usize), Set(usize), SwapR(usize), SwapC(usize), RowOp(usize), ColOp(usize), Write(usize, usize), WriteMove(usize, usize), Eq(usize, usize), Print(usize), BadIndex(usize),
    WriteSub(usize, usize, u8), WriteMoveSub(usize, usize, u8), RowOpView(usize, u8), SetView(usize),
}
struct Lives { depth: usize, max: usize }
type Pool = Vec<(D<i64>, bool)>; // content, stored transposed
fn build_pool(p: &Pool) -> Vec<Matrix<Own>> {
    p.iter().map(|(d, t)| { let v = map(d, Own::new); if *t { let m = Matrix::from_array(tr(&v)); m.transpose() } else { Matrix::from_array(v) } }).collect()
}
impl Lives {
    fn run(&self, pool: &mut Vec<Matrix<Own>>, flags: &mut Vec<bool>, op: Life) -> bool {
        use Life::*;
        let has = |i: usize, p: &Vec<Matrix<Own>>| i < p.len();
        let room = |p: &Vec<Matrix<Own>>| p.len() < self.max;
        macro_rules! push { ($m:expr, $t:expr) => {{ let m = $m; pool.push(m); flags.push($t); }} }
        match op {
            Make(n, m) => { if !room(pool) { return false; } push!(Matrix::from_array(owns(n, m, 1)), false) }
            MakeT(n, m) => { if !room(pool) { return false; } push!(Matrix::from_array(owns(m, n, 2)).transpose(), true) }
            Zero(n, m) => { if !room(pool) { return false; } push!(Matrix::<Own>::zero(n, m), false) }
            Id(n) => { if !room(pool) { return false; } push!(Matrix::<Own>::identity(n), false) }
            Ragged => { let _ = guard(|| Matrix::from_array(vec![vec![Own::new(1), Own::new(2)], vec![Own::new(3)]])); }
            EmptyRows => { let _ = guard(|| Matrix::<Own>::from_array(vec![vec![]])); }
            Clone(i) => { if !has(i, pool) || !room(pool) { return false; } let m = pool[i].clone(); push!(m, false) }
            AsMatrix(i) => { if !has(i, pool) || !room(pool) { return false; } let m = pool[i][(.., ..)].transpose().as_matrix(); push!(m, false) }
            ViewCopy(i) => { if !has(i, pool) || !room(pool) { return false; } let m = pool[i][(0..1, ..)].as_matrix(); push!(m, false) }
            EmptyViewCopy(i) => { if !has(i, pool) { return false; } let m = pool[i][(0..0, ..)].as_matrix(); drop(m); let m = pool[i][(.., 1..1)].as_matrix(); drop(m); }
            Transpose(i) => { if !has(i, pool) { return false; } let m = pool.remove(i); pool.insert(i, m.transpose()); flags[i] = !flags[i]; }
            Drop(i) => { if !has(i, pool) { return false; } drop(pool.remove(i)); flags.remove(i); }
            Add(i, j, k) | Sub(i, j, k) | Mul(i, j, k) => {
                if !has(i, pool) || !has(j, pool) { return false; }
                // k: which operands are consumed (bit 0 left, bit 1 right)
                if k & 1 == 1 && k & 2 == 2 && i == j { return false; }
                if k == 0 && !room(pool) { return false; }
                let mut idx: Vec<usize> = Vec::new();
                if k & 1 == 1 { idx.push(i); }
                if k & 2 == 2 { idx.push(j); }
                if k != 0 && i == j { return false; }
                let mut taken = [None, None];
                idx.sort_by(|a, b| b.cmp(a));
                for x in idx { let m = pool.remove(x); flags.remove(x); if x == i { taken[0] = Some(m); } else { taken[1] = Some(m); } }
                let at = |x: usize, other: bool| if other { if x < (if k & 1 == 1 { i } else { j }) { x } else { x - 1 } } else { x };
                let r = match (taken[0].take(), taken[1].take()) {
                    (None, None) => guard(|| { let (a, b) = (&*pool[i], &*pool[j]); match op { Add(..) => a + b, Sub(..) => a - b, _ => a * b } }),
                    (Some(a), None) => { let b = &*pool[at(j, true)]; guard(|| match op { Add(..) => a + b, Sub(..) => a - b, _ => a * b }) }
                    (None, Some(b)) => { let a = &*pool[at(i, true)]; guard(|| match op { Add(..) => a + b, Sub(..) => a - b, _ => a * b }) }
                    (Some(a), Some(b)) => guard(|| match op { Add(..) => a + b, Sub(..) => a - b, _ => a * b }),
                };
                if let Ok(m) = r { push!(m, false) }
            }
            AddAssign(i, j, k) | SubAssign(i, j, k) => {
                if !has(i, pool) || !has(j, pool) || i == j { return false; }
                let add = matches!(op, AddAssign(..));
                if k == 1 {
                    let b = pool.remove(j); flags.remove(j);
                    let i = if i > j { i - 1 } else { i };
                    let a = &mut pool[i];
                    let _ = guard(|| if add { *a += b } else { *a -= b });
                } else {
                    let mut a = pool.remove(i);
                    let j2 = if j > i { j - 1 } else { j };
                    { let b = &*pool[j2]; let a = &mut a; let _ = guard(|| if add { *a += b } else { *a -= b }); }
                    pool.insert(i, a);
                }
            }
            Scale(i, k) => { if !has(i, pool) { return false; } match k {
                0 => { pool[i] *= Own::new(2); }
                1 => { pool[i][(.., 0)] *= Own::new(-1); }
                2 => { if !room(pool) { return false; } let m = &*pool[i] * Own::new(3); push!(m, false) }
                _ => { let m = pool.remove(i); pool.insert(i, m * Own::new(2)); }
            } }
            Div(i, k) => { if !has(i, pool) { return false; } match k {
                0 => { pool[i] /= Own::new(2); }
                1 => { if !room(pool) { return false; } let m = &*pool[i] / Own::new(2); push!(m, false) }
                _ => { let m = pool.remove(i); pool.insert(i, m / Own::new(2)); }
            } }
            DivZero(i, k) => { if !has(i, pool) { return false; } match k {
                0 => { let m = &mut pool[i]; let _ = guard(|| *m /= Own::new(0)); }
                _ => { let m = &*pool[i]; let _ = guard(|| m / Own::new(0)); }
            } }
            Dot(i, j) => { if !has(i, pool) || !has(j, pool) { return false; } let (a, b) = (&pool[i], &pool[j]); let _ = guard(|| a[(0, ..)].dot(&b[(.., 0)])); }
            Set(i) => { if !has(i, pool) { return false; } pool[i][(0, 0)] = Own::new(7); let m = &mut pool[i]; let _ = guard(|| m[(0, 9)] = Own::new(8)); }
            SwapR(i) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let l = m[(.., 0)].size().0 - 1; m.swap_rows(0, l); }
            SwapC(i) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let l = m[(0, ..)].size().1 - 1; m.swap_cols(0, l); }
            RowOp(i) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let l = m[(.., 0)].size().0 - 1; m.row_operation(0, l, Own::new(2)); let _ = guard(|| m.row_operation(0, 9, Own::new(2))); }
            ColOp(i) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let l = m[(0, ..)].size().1 - 1; m.col_operation(0, l, Own::new(2)); let _ = guard(|| m.col_operation(9, 0, Own::new(2))); }
            Write(i, j) => { if !has(i, pool) || !has(j, pool) || i == j { return false; } let mut a = pool.remove(i); { let b = &*pool[if j > i { j - 1 } else { j }]; let a = &mut a; let _ = guard(|| a[(.., ..)].write(b)); } pool.insert(i, a); }
            WriteMove(i, j) => { if !has(i, pool) || !has(j, pool) || i == j { return false; } let b = pool.remove(j); flags.remove(j); let a = &mut pool[if i > j { i - 1 } else { i }]; let _ = guard(|| a[(.., ..)].write_and_move(b)); }
            // k: the view written to starts at the origin, ends at the last cell, or belongs to the transposed storage; sizes that do not fit are rejected
            WriteSub(i, j, k) | WriteMoveSub(i, j, k) => {
                if !has(i, pool) || !has(j, pool) || i == j { return false; }
                let b = pool.remove(j); let fb = flags.remove(j);
                let a = &mut pool[if i > j { i - 1 } else { i }];
                let ((n, m), (h, w)) = (a[(.., ..)].size(), b[(.., ..)].size());
                if h > n || w > m { let _ = guard(|| a[(0..1, ..)].write(&b)); let _ = guard(|| a[(.., 0..1)].write_and_move(b)); return true; }
                let (r, c) = if k == 0 { (0, 0) } else { (n - h, m - w) };
                if matches!(op, WriteSub(..)) { a[(r..r + h, c..c + w)].write(&b[(.., ..)]); pool.insert(j.min(pool.len()), b); flags.insert(j.min(flags.len()), fb); }
                else { a[(r..r + h, c..c + w)].write_and_move(b); }
            }
            RowOpView(i, k) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let (h, w) = m[(.., ..)].size(); let v = &mut m[(h / 2.., w / 2..)]; let (h, w) = v.size(); match k {
                0 => v.swap_rows(0, h - 1), 1 => v.swap_cols(0, w - 1), 2 => v.row_operation(0, 0, Own::new(2)), 3 => v.col_operation(0, w - 1, Own::new(2)), 4 => *v *= Own::new(3), 5 => *v /= Own::new(2), _ => { let _ = guard(|| v.swap_rows(0, h)); let _ = guard(|| v.swap_cols(w, 0)); } } }
            SetView(i) => { if !has(i, pool) { return false; } let m = &mut pool[i]; let (h, w) = m[(.., ..)].size(); m[(h / 2.., w / 2..)][(0, 0)] = Own::new(9); m[(h - 1, ..)][(0, w - 1)] = Own::new(5); let v = &mut m[(.., w - 1)]; let _ = guard(|| v[(h, 0)] = Own::new(8)); }
            Eq(i, j) => { if !has(i, pool) || !has(j, pool) { return false; } let _ = pool[i] == pool[j]; let _ = *pool[i] == *pool[j]; let _ = *pool[i] == pool[j]; }
            Print(i) => { if !has(i, pool) { return false; } let _ = format!("{} {:?}", pool[i], pool[i]); }
            BadIndex(i) => { if !has(i, pool) { return false; } let m = &pool[i]; let _ = guard(|| m[(9, 0)].value()); let _ = guard(|| m[(0..9, ..)].as_matrix()); }
        }
        true
    }
}
impl Model for Lives {
    type State = (Pool, u8);
    type Op = Life;
    type Key = Vec<(usize, usize, bool)>;
    fn n_init(&self) -> u64 { 1 }
    fn init(&self, _: u64) -> Result<Self::State, String> { Ok((Vec::new(), 0)) }
    fn show_init(&self, _: u64) -> String { "no matrices".into() }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &Self::State) -> Vec<Life> {
        use Life::*;
        let mut v = vec![Make(1, 1), Make(2, 2), Make(1, 2), Make(2, 3), Make(3, 2), MakeT(1, 2), MakeT(2, 2), MakeT(2, 3), Zero(2, 2), Id(2), Ragged, EmptyRows];
        for i in 0..s.0.len() {
            v.extend([Clone(i), AsMatrix(i), ViewCopy(i), EmptyViewCopy(i), Transpose(i), Drop(i), Scale(i, 0), Scale(i, 1), Scale(i, 2), Scale(i, 3), Div(i, 0), Div(i, 1), Div(i, 2), DivZero(i, 0), DivZero(i, 1), Set(i), SwapR(i), SwapC(i), RowOp(i), ColOp(i), Print(i), BadIndex(i), SetView(i)]);
            for k in 0..7 { v.push(RowOpView(i, k)); }
            for j in 0..s.0.len() {
                v.extend([Dot(i, j), Write(i, j), WriteMove(i, j), Eq(i, j)]);
                for k in 0..2 { v.extend([WriteSub(i, j, k), WriteMoveSub(i, j, k)]); }
                for k in 0..4 { v.extend([Add(i, j, k), Sub(i, j, k), Mul(i, j, k)]); }
                for k in 0..2 { v.extend([AddAssign(i, j, k), SubAssign(i, j, k)]); }
            }
        }
        v
    }
    fn apply(&self, s: &Self::State, op: &Life) -> Result<Option<Self::State>, String> {
        own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.clear(); r.bad = None; });
        let mut pool = build_pool(&s.0);
        let mut flags: Vec<bool> = s.0.iter().map(|x| x.1).collect();
        let count = |p: &Vec<Matrix<Own>>| p.iter().map(|m| { let z = m[(.., ..)].size(); z.0 * z.1 }).sum::<usize>();
        let audit = |p: &Vec<Matrix<Own>>, when: &str| -> Check {
            if let Some(b) = own::bad() { fail!("{when}: {b}"); }
            let (l, c) = (own::live(), count(p));
            ensure!(l == c, "{when}: {l} elements are alive, but the matrices hold {c}");
            Ok(())
        };
        audit(&pool, "after building the matrices")?;
        if !self.run(&mut pool, &mut flags, *op) { drop(pool); return Ok(None); }
        audit(&pool, "after the operation")?;
        let next: Pool = pool.iter().zip(&flags).map(|(m, &t)| (vals(m), t)).collect();
        audit(&pool, "after reading the matrices")?;
        drop(pool);
        audit(&Vec::new(), "after dropping the matrices")?;
        Ok(Some((next, 0)))
    }
    fn key(&self, s: &Self::State) -> Self::Key { s.0.iter().map(|(d, t)| (d.len(), d[0].len(), *t)).collect() }
}
/// Memory: after everything is dropped, as many bytes are allocated as before.
fn memory(op: Life, pool: &Pool) -> Result<bool, String> {
    let l = Lives { depth: 1, max: 3 };
    let once = || { let mut p = build_pool(pool); let mut f: Vec<bool> = pool.iter().map(|x| x.1).collect(); l.run(&mut p, &mut f, op) };
    own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.clear(); r.bad = None; });
    let ok = once(); // warm up (panic message buffers, registry capacity)
    if !ok { return Ok(false); }
    own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.shrink_to_fit(); });
    let _ = once();
    own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.shrink_to_fit(); });
    let a = live_bytes();
    let _ = once();
    own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.shrink_to_fit(); });
    let b = live_bytes();
    ensure!(a == b, "the operation left {} bytes allocated", b - a);
    Ok(true)
}
/// The operation, with the k-th operation on elements failing, for every k: what is left is in order.
fn faults(op: Life, pool: &Pool, st: &mut Stats) -> Result<bool, String> {
    let l = Lives { depth: 1, max: 3 };
    let mut k = 0;
    loop {
        own::arm(0);
        own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.clear(); r.bad = None; });
        let mut p = build_pool(pool);
        let mut f: Vec<bool> = pool.iter().map(|x| x.1).collect();
        own::arm(k);
        let ok = guard(|| l.run(&mut p, &mut f, op));
        let n = own::counted();
        own::arm(0);
        if let Ok(false) = ok { return Ok(false); }
        st.step();
        let when = if k == 0 { "after the operation".to_string() } else { format!("after operation {k} of {n} on elements failed") };
        if let Some(b) = own::bad() { fail!("{when}: {b}"); }
        let held: usize = p.iter().map(|m| { let z = m[(.., ..)].size(); z.0 * z.1 }).sum();
        let alive = own::live();
        ensure!(alive == held, "{when}: {alive} elements are alive, but the matrices hold {held}");
        for m in &p { let _ = vals(m); }
        if let Some(b) = own::bad() { fail!("{when}, reading what is left: {b}"); }
        drop(p);
        if let Some(b) = own::bad() { fail!("{when}, dropping what is left: {b}"); }
        ensure!(own::live() == 0, "{when}, and after dropping the matrices, {} elements are alive", own::live());
        if n < k || (k > 0 && n == 0) { return Ok(true); }
        if k > 0 {
            let once = || {
                own::REG.with(|r| { let mut r = r.borrow_mut(); r.live.clear(); r.live.shrink_to_fit(); r.bad = None; });
                let before = live_bytes();
                let mut p = build_pool(pool);
                let mut f: Vec<bool> = pool.iter().map(|x| x.1).collect();
                own::arm(k);
                let r = guard(|| l.run(&mut p, &mut f, op));
                own::arm(0);
                drop((p, f, r));
                own::REG.with(|r| r.borrow_mut().live.shrink_to_fit());
                live_bytes() - before
            };
            let _ = once();
            let left = once();
            ensure!(left == 0, "{when}, and after dropping the matrices, {left} bytes are left allocated");
        }
        k += 1;
    }
}
pub fn c10(t: Tier) -> Spaces {
    let depth = t.pick(6, 8);
    let max = t.pick(3, 3);
    let mut shapes: Vec<(usize, usize, bool)> = vec![(1, 1, false), (2, 2, false), (1, 2, true), (2, 3, false), (3, 2, true), (2, 2, true), (3, 3, false), (2, 3, true), (3, 1, false), (1, 4, true)];
    if t == Tier::Thorough { shapes.extend([(1, 1, true), (4, 3, false), (3, 4, true), (1, 8, false), (9, 1, true), (4, 4, true), (2, 1, false), (5, 2, false)]); }
    let l = Lives { depth: 1, max: 3 };
    let large: Vec<(usize, usize, bool)> = vec![(4, 4, false), (5, 3, true), (8, 8, false), (1, 17, false), (17, 1, true), (9, 16, true), (16, 9, false), (33, 2, false), (2, 65, true), (40, 33, false), (129, 1, false)];
    let mut wide = Vec::new();
    let mut cases: Vec<(Pool, Life)> = Vec::new();
    let mk = |s: &(usize, usize, bool)| (gen(s.0, s.1, |i, j| (i * 5 + j) as i64 + 1), s.2);
    for a in &shapes { for b in &shapes {
        let pool: Pool = vec![mk(a), mk(b)];
        for op in l.ops(&(pool.clone(), 0)) { cases.push((pool.clone(), op)); }
    } }
    for a in &large { for b in &large { let pool: Pool = vec![mk(a), mk(b)]; for op in l.ops(&(pool.clone(), 0)) { wide.push((*a, *b, op)); } } }
    vec![
        list("larger matrices", "every operation on every pair of matrices of eleven larger shapes, up to 40x33 and 129x1: elements alive and bytes allocated before and after", wide, move |&(a, b, op), st| {
            let pool: Pool = vec![mk(&a), mk(&b)];
            let l = Lives { depth: 1, max: 3 };
            if l.apply(&(pool.clone(), 0), &op)?.is_none() { return Ok(()); }
            memory(op, &pool)?;
            st.steps(2);
            Ok(())
        }),
        bfs("lifetimes", &format!("all histories of up to {depth} operations (including rejected ones) on up to {max} matrices of owned elements; states merged by shapes and storage"), Lives { depth, max }),
        list("failing elements", "every operation on every pair of matrices of ten shapes (eighteen in the thorough tier), with every single operation on elements in it failing in turn", cases.clone(), |(pool, op), st| {
            faults(*op, pool, st)?;
            Ok(())
        }),
        list("memory", "every operation on every pair of matrices of ten shapes (eighteen in the thorough tier): bytes allocated before and after", cases, |(pool, op), st| {
            if memory(*op, pool)? { st.step(); }
            Ok(())
        }),
    ]
}
