//! C11: Smith normal form.  C12: rank and homology with field coefficients.
use super::mat::*;
use super::numbers::{igcd, Fr};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{Rational, PID};
use alg::lin_alg::Matrix;
use std::fmt::{Debug, Display};
use topo_spaces::HomologyWithFieldCoefficients;

/// Everything the Smith normal form promises, over any of the coefficient rings.
/// `wide` embeds the ring into one in which the products of the results do not overflow.
fn smith<T: PID + Copy + Debug + Display, W: PID + Debug>(a: &D<T>, form: usize, wide: impl Fn(T) -> W, nonneg: impl Fn(T) -> bool, st: &mut Stats) -> Result<D<T>, String> {
    let (n, m) = (rows(a), cols(a));
    let (ri, r, d, c, ci) = owned(a, form).smith_normal_form();
    for (x, s, w) in [(&ri, (n, n), "first"), (&r, (n, n), "second"), (&d, (n, m), "third"), (&c, (m, m), "fourth"), (&ci, (m, m), "fifth")] {
        ensure!(x.size_as_range() == (0..s.0, 0..s.1), "the {w} matrix has size {:?}, expected {s:?}", x.size_as_range());
    }
    let d = read(&d);
    let w = |m: &D<T>| map(m, &wide);
    let (ri, r, c, ci, a, wd) = (w(&read(&ri)), w(&read(&r)), w(&read(&c)), w(&read(&ci)), &w(a), w(&d));
    ensure!(mul(&r, &ri) == id(n) && mul(&ri, &r) == id(n), "the row operation {r:?} and its inverse {ri:?} do not multiply to the identity");
    ensure!(mul(&c, &ci) == id(m) && mul(&ci, &c) == id(m), "the column operation {c:?} and its inverse {ci:?} do not multiply to the identity");
    ensure!(mul(&mul(&r, a), &c) == wd, "r_op * A * c_op = {:?}, but the normal form is {d:?}", mul(&mul(&r, a), &c));
    ensure!(mul(&mul(&ri, &wd), &ci) == *a, "r_op_inv * D * c_op_inv is not A");
    for i in 0..n { for j in 0..m { ensure!(i == j || d[i][j] == T::zero(), "the normal form {d:?} is not diagonal"); } }
    for i in 0..n.min(m) { ensure!(nonneg(d[i][i]), "diagonal entry {} of the normal form is {}", i, d[i][i]); }
    for i in 1..n.min(m) { ensure!(d[i - 1][i - 1].divides(d[i][i]), "diagonal entry {} = {} does not divide entry {} = {}", i - 1, d[i - 1][i - 1], i, d[i][i]); }
    st.steps(8);
    Ok(d)
}
fn ints(a: &D<i64>, form: usize, st: &mut Stats) -> Check {
    let d = smith(a, form, |x| x as i128, |x| x >= 0, st)?;
    // first invariant: gcd of the entries; product of a square one: |determinant|
    let g = a.iter().flatten().fold(0i128, |g, &x| igcd(g, x as i128));
    ensure!(d[0][0] as i128 == g, "the first invariant is {}, the gcd of the entries is {g}", d[0][0]);
    let r = (0..d.len().min(d[0].len())).filter(|&i| d[i][i] != 0).count();
    ensure!(r == rank(&map(a, |x| x as i128)), "{r} nonzero invariants, but the rank is {}", rank(&map(a, |x| x as i128)));
    st.outcome((0..r).map(|i| d[i][i]).collect::<Vec<_>>());
    Ok(())
}
/// Rank by fraction-free elimination.
pub fn rank(a: &D<i128>) -> usize {
    let mut a = a.clone();
    let (n, m) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for c in 0..m {
        let Some(p) = (r..n).find(|&i| a[i][c] != 0) else { continue };
        a.swap(r, p);
        for i in r + 1..n {
            let (x, y) = (a[r][c], a[i][c]);
            if y == 0 { continue; }
            let g = igcd(x, y);
            let (x, y) = (x / g, y / g);
            for j in 0..m { a[i][j] = a[i][j] * x - a[r][j] * y; }
            let g = a[i].iter().fold(0, |g, &v| igcd(g, v));
            if g > 1 { for v in a[i].iter_mut() { *v /= g; } }
        }
        r += 1;
    }
    r
}
fn grid(n: usize, m: usize, w: &[i64]) -> D<i64> { gen(n, m, |i, j| w[i * m + j]) }
fn shapes(name: &str, n: usize, m: usize, alpha: Vec<i64>, check: impl Fn(&D<i64>, &mut Stats) -> Check + Sync + Send + 'static) -> Box<dyn Space> {
    let k = alpha.len() as u64;
    space(&format!("{name} {n}x{m}"), &format!("all {n}x{m} matrices over {alpha:?}"), pw(k, n * m), move |i| Some(grid(n, m, &word(i, n * m, &alpha))), move |a, st| check(a, st))
}

pub fn c11(t: Tier) -> Spaces {
    let r = |a: i64| -> Vec<i64> { (-a..=a).collect() };
    let mut out: Spaces = Vec::new();
    let mut sizes: Vec<(usize, usize, Vec<i64>)> = vec![
        (1, 1, r(30)), (1, 2, r(12)), (2, 1, r(12)), (1, 3, r(6)), (3, 1, r(6)), (1, 4, r(4)), (4, 1, r(4)),
        (2, 2, t.pick(r(9), r(16))), (2, 3, t.pick(r(4), r(6))), (3, 2, t.pick(r(4), r(6))),
        (3, 3, t.pick(vec![-3, -1, 0, 2, 4], vec![-3, -2, -1, 0, 1, 2, 4])), (2, 4, r(2)), (4, 2, r(2)), (3, 4, vec![-2, 0, 1]), (4, 3, vec![-2, 0, 3]),
    ];
    if t == Tier::Thorough { sizes.push((3, 4, vec![-2, 0, 3])); sizes.push((5, 3, vec![0, 1, -2])); sizes.push((3, 5, vec![0, 2, -3])); }
    else { sizes.push((4, 4, vec![0, 1])); }
    for (n, m, al) in sizes { out.push(shapes("integer", n, m, al, |a, st| ints(a, (a[0][0] & 1) as usize, st))); }
    // divisibility repair: diagonals whose entries do not divide each other, rows and columns scrambled
    let al: Vec<i64> = t.pick(vec![0, 1, -2, 3, 4, 6, 10], vec![0, 1, -2, 3, 4, 6, 9, 10, -15]);
    let k = al.len() as u64;
    for n in 2..=4usize {
        let al = al.clone();
        let f = factorial(n).min(24);
        out.push(space(&format!("scrambled diagonal {n}x{n}"), "all diagonals over a set of non-dividing entries, all row permutations (first 24), three unimodular scramblings, extra zero row or column", pw(k, n) * f * 5,
            move |i| { let d = digits(i, &[5, f, pw(k, n)])?; Some((word(d[2], n, &al), nth_perm(d[1], n), d[0])) },
            move |(d, p, s), st| {
                let n = d.len();
                let mut a = gen(n, n, |i, j| if p[i] == j { d[j] } else { 0 });
                match s {
                    1 => for i in 1..n { for j in 0..n { let x = a[i - 1][j]; a[i][j] += x; } },
                    2 => { for j in 1..n { for r in a.iter_mut() { let x = r[j - 1]; r[j] -= 2 * x; } } for i in (1..n).rev() { for j in 0..n { let x = a[i][j]; a[i - 1][j] += x; } } }
                    3 => a.push(vec![0; n]),
                    4 => for r in a.iter_mut() { r.insert(0, 0); },
                    _ => {}
                }
                // the largest of these overflow 64 bits inside the elimination, which the property excludes
                if n >= 4 && d.iter().any(|x| x.abs() > 6) && guard(|| { owned(&a, 0).smith_normal_form(); }).is_err_and(|e| e.contains("overflow")) { return Ok(()); }
                ints(&a, 0, st)
            }));
    }
    let m = t.pick(14, 24);
    let pat = patterned(m);
    let np = pat.len() as u64;
    out.push(space("patterned matrices", &format!("diagonal, triangular, banded, incidence, rank-one and block patterns with 1 to {m} rows, and transposes, in two forms"), np * 2,
        move |i| Some((pat[(i / 2) as usize].clone(), (i % 2) as usize)), |((_, a), f), st| ints(a, *f, st)));
    out.push(list("boundary matrices", &format!("the boundary matrices of simplices and spheres on up to {} vertices, the torus, the projective plane, the Klein bottle and the dunce hat", t.pick(6, 7)),
        known_complexes(t.pick(6, 7)).into_iter().flat_map(|(s, b)| b.into_iter().enumerate().filter(|(_, d)| !d.is_empty() && !d[0].is_empty()).map(move |(k, d)| (format!("{s}, degree {k}"), d))).collect(),
        |(_, a), st| { ints(a, 0, st)?; ints(&tr(a), 1, st) }));
    let big: Vec<i64> = vec![0, 1, 999983, -(1 << 31), 1 << 30, 701408733, -1134903170, 30030 * 30030];
    for (n, m, al) in [(1usize, 1usize, big.clone()), (1, 2, big.clone()), (2, 1, big.clone()), (1, 3, big.clone()), (3, 1, big[2..].to_vec()), (1, 5, vec![0, 30030, -4096, 6765]), (5, 1, vec![0, 30030, 4096, -6765]),
        (2, 2, vec![0, 1, -1000, 987, -1024, 1023]), (2, 3, vec![0, 97, -100, 144, 233]), (3, 2, vec![0, 99, -101, 144, 233]), (3, 3, vec![0, 30, -37])] {
        out.push(shapes("large integer", n, m, al, |a, st| ints(a, (a[0][0] & 1) as usize, st)));
    }
    // other coefficient types
    out.push(shapes("128 bits", 1, 2, vec![0, 1 << 40, 3 << 60, -(1 << 61), i64::MAX >> 2, 4052739537881, 6557470319842], |a, st| smith(&map(a, |x| x as i128), 1, |x| x, |x| x >= 0, st).map(|_| ())));
    let al: Vec<i64> = vec![-4, -1, 0, 2, 3];
    out.push(space("other rings", "all 2x2 and 2x3 matrices over {-4,-1,0,2,3} as i32, i128, isize, and their halves as rationals", 2 * pw(5, 6) * 4,
        move |i| { let d = digits(i, &[4, 2, pw(5, 6)])?; let m = 2 + d[1] as usize; if d[2] >= pw(5, 2 * m) { return None; } Some((d[0], grid(2, m, &word(d[2], 2 * m, &al)))) },
        |(k, a), st| match k {
            0 => smith(&map(a, |x| x as i32), 0, |x| x as i128, |x| x >= 0, st).map(|_| ()),
            1 => smith(&map(a, |x| x as i128), 1, |x| x, |x| x >= 0, st).map(|_| ()),
            2 => smith(&map(a, |x| x as isize), 0, |x| x as i128, |x| x >= 0, st).map(|_| ()),
            _ => smith(&map(a, |x| Rational::new(x, 2)), 1, |x| x, |_| true, st).map(|_| ()),
        }));
    for (n, m, al) in mixed(t) {
        let k = al.len() as u64;
        out.push(space(&format!("rational {n}x{m}"), &format!("all {n}x{m} matrices of rationals with numerators in {al:?} over 30"), pw(k, n * m), move |i| Some(grid(n, m, &word(i, n * m, &al))), |a, st| rationals(&map(a, |x| Rational::new(x, 30)), a, st)));
    }
    let top = t.pick(8, 12);
    out.push(list("patterned rational matrices", &format!("the patterns with up to {top} rows, rows multiplied by 1/2, 2/3, 3, -1, .. and columns by 5, 1/3, ..; all entries small"),
        patterned(top).into_iter().filter(|(_, a)| a.iter().flatten().all(|x| x.abs() < 6)).flat_map(|(s, a)| (0..3usize).map(move |k| (format!("{s}, scaling {k}"), a.clone(), k))).collect::<Vec<_>>(),
        |(_, a, k), st| rationals(&scaled(a, *k).iter().map(|r| r.iter().map(|x| x.rat()).collect()).collect(), a, st)));
    out
}
/// Shapes with numerators of fractions over 30, so that denominators are mixed.
fn mixed(t: Tier) -> Vec<(usize, usize, Vec<i64>)> {
    let al = vec![0i64, 15, -10, 18, 30, -25];
    vec![(1, 3, al.clone()), (3, 1, al.clone()), (2, 2, al.clone()), (2, 3, al[..t.pick(4, 6)].to_vec()), (3, 2, al[..t.pick(4, 6)].to_vec()), (3, 3, al[..t.pick(3, 4)].to_vec())]
}
/// The matrix with its rows and columns multiplied by fractions.
fn scaled(a: &D<i64>, k: usize) -> D<Fr> {
    const F: [(i128, i128); 5] = [(1, 2), (2, 3), (3, 1), (-1, 1), (5, 4)];
    gen(a.len(), a[0].len(), |i, j| { let ((x, y), (z, w)) = (F[(i + k) % 5], if k == 0 { (1, 1) } else { F[(2 * j + k) % 5] }); Fr::new(a[i][j] as i128 * x * z, y * w) })
}
fn rationals(q: &D<Rational>, like: &D<i64>, st: &mut Stats) -> Check {
    for form in 0..2 {
        let d = smith(q, form, |x| x, |_| true, st)?;
        let r = (0..d.len().min(d[0].len())).filter(|&i| d[i][i] != Rational::from(0)).count();
        let want = rank(&map(like, |x| x as i128));
        ensure!(r == want, "{r} nonzero diagonal entries, but the rank is {want}");
        st.outcome(want);
    }
    Ok(())
}

struct Chain(Vec<D<Fr>>);
impl HomologyWithFieldCoefficients<Rational> for Chain {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.0.iter().map(|d| Matrix::from_array(map(d, |x| x.rat()))).collect() }
}
fn check_rank(a: &D<i64>, st: &mut Stats) -> Check {
    let want = rank(&map(a, |x| x as i128));
    for form in 0..2 {
        for den in [1i64, 3, 30] {
            let q = map(a, |x| Rational::new(x, den));
            let m = owned(&q, form);
            let got = m.rank_as_linear_map();
            ensure!(got == want, "rank of {a:?}/{den} is {got}, expected {want}");
            ensure!(read(&m) == q, "computing the rank changed the matrix");
            st.step();
        }
    }
    st.outcome(want);
    Ok(())
}
fn betti(maps: &[D<i64>], st: &mut Stats) -> Check {
    for scale in [1i128, 5, 0] {
        // multiples of the maps, and (0) the maps with respect to multiples of the basis elements
        let weight = |k: usize, i: usize| -> (i128, i128) { [(1, 2), (3, 1), (-2, 3), (1, 1)][(k + i) % 4] };
        let c = Chain(maps.iter().enumerate().map(|(k, m)| gen(m.len(), m.first().map_or(0, |r| r.len()), |i, j| {
            let ((a, b), (c, d)) = if scale == 0 { (weight(k + 1, j), weight(k, i)) } else { ((scale, 2), (1, 1)) };
            Fr::new(m[i][j] as i128 * a * d, b * c)
        })).collect());
        let got = c.homology();
        let rk: Vec<usize> = maps.iter().map(|m| rank(&map(m, |x| x as i128))).chain([0]).collect();
        let want: Vec<usize> = (0..maps.len()).map(|k| maps[k][0].len() - rk[k] - rk[k + 1]).collect();
        ensure!(got == want, "Betti numbers {got:?}, expected {want:?}");
        st.outcome(want);
        st.step();
    }
    Ok(())
}
/// Boundary matrices of the complex whose maximal simplices are given, over the rationals; degree 0 maps to a point.
pub fn simplicial_boundaries(maximal: &[u32]) -> (Vec<D<i64>>, Vec<Vec<u32>>) {
    let mut faces: Vec<u32> = Vec::new();
    for &m in maximal { let mut s = m; while s > 0 { faces.push(s); s = (s - 1) & m; } }
    faces.sort(); faces.dedup();
    let top = faces.iter().map(|f| f.count_ones()).max().unwrap_or(0) as usize;
    let by: Vec<Vec<u32>> = (1..=top).map(|k| faces.iter().copied().filter(|f| f.count_ones() as usize == k).collect()).collect();
    let mut maps = vec![vec![vec![0i64; by.first().map_or(0, |v| v.len())]]];
    for k in 1..top {
        let mut m = vec![vec![0i64; by[k].len()]; by[k - 1].len()];
        for (j, &f) in by[k].iter().enumerate() {
            let mut sign = 1;
            for b in 0..32 { if f >> b & 1 == 1 { let i = by[k - 1].binary_search(&(f & !(1 << b))).unwrap(); m[i][j] = sign; sign = -sign; } }
        }
        maps.push(m);
    }
    (maps, by)
}
pub fn c12(t: Tier) -> Spaces {
    let mut out: Spaces = Vec::new();
    let r = |a: i64| -> Vec<i64> { (-a..=a).collect() };
    let mut sizes: Vec<(usize, usize, Vec<i64>)> = vec![(1, 1, r(3)), (1, 2, r(2)), (2, 1, r(2)), (1, 4, r(2)), (4, 1, r(2)), (2, 2, r(6)), (2, 3, r(3)), (3, 2, r(3)), (3, 3, t.pick(vec![-1, 0, 1, 2], vec![-2, -1, 0, 1, 2])), (2, 5, vec![0, 1, -2]), (5, 2, vec![0, 1, -2]),
        (4, 4, vec![0, 1]), (3, 5, vec![0, 1]), (5, 3, vec![0, 1]), (3, 4, vec![-1, 0, 2]), (4, 3, vec![-1, 0, 2])];
    sizes.extend([(4, 5, vec![0, 1]), (5, 4, vec![0, 1])]);
    if t == Tier::Thorough { sizes.extend([(4, 4, vec![-1, 0, 1]), (5, 5, vec![0, 1]), (3, 3, r(3)), (2, 3, r(6)), (3, 2, r(6)), (2, 6, vec![0, 1, -2]), (6, 2, vec![0, 1, -2])]); }
    for (n, m, al) in sizes { out.push(shapes("rank", n, m, al, check_rank)); }
    // determinants that are small differences of large products
    for (n, m, al) in [(2usize, 2usize, vec![0i64, 1, 1000000, 1000001, -999999, 9227465, 14930352, 24157817, 39088169, 1 << 24]), (2, 3, vec![0, 1 << 11, 1597, 2584, 4181]), (3, 2, vec![0, 1 << 11, 1597, 2584, -4181]), (3, 3, vec![0, 233, -377, 610])] {
        out.push(shapes("rank, large entries", n, m, al, check_rank));
    }
    for (n, m, al) in mixed(t) { out.push(shapes("rank over 30,", n, m, al, check_rank)); }
    out.push(list("rank of scaled patterns", &format!("the patterns with up to {} rows, rows multiplied by 1/2, 2/3, 3, -1, .. and columns by 5, 1/3, ..", t.pick(10, 14)),
        patterned(t.pick(10, 14)).into_iter().filter(|(_, a)| a.iter().flatten().all(|x| x.abs() < 6)).flat_map(|(s, a)| (0..3usize).map(move |k| (format!("{s}, scaling {k}"), a.clone(), k))).collect::<Vec<_>>(),
        |(_, a, k), st| {
            let m = owned(&scaled(a, *k).iter().map(|r| r.iter().map(|x| x.rat()).collect()).collect(), *k % 2);
            let (got, want) = (m.rank_as_linear_map(), rank(&map(a, |x| x as i128)));
            st.step();
            st.outcome(want);
            ensure!(got == want, "the rank is {got}, should be {want}");
            Ok(())
        }));
    let pat = patterned(t.pick(20, 40));
    out.push(list("rank of patterned matrices", &format!("diagonal, triangular, banded, incidence, rank-one and block patterns with 1 to {} rows, and transposes", t.pick(20, 40)), pat, |(_, a), st| check_rank(a, st)));
    out.push(list("Betti numbers of known complexes", &format!("simplices and spheres on up to {} vertices, the torus, the projective plane, the Klein bottle and the dunce hat", t.pick(6, 7)), known_complexes(t.pick(6, 7)), |(_, b), st| betti(b, st)));
    let (e5, t5): (Vec<u32>, Vec<u32>) = ((0..32u32).filter(|x| x.count_ones() == 2).collect(), (0..32u32).filter(|x| x.count_ones() == 3).collect());
    out.push(space("Betti numbers of graphs and triangle sets on 5 vertices", "every set of edges, and every set of triangles, on 5 vertices, isolated vertices kept", 2048,
        move |i| { let src = if i < 1024 { &e5 } else { &t5 }; let mut g: Vec<u32> = (0..5).map(|v| 1 << v).collect(); g.extend((0..10).filter(|b| i >> b & 1 == 1).map(|b| src[b])); Some(g) },
        |g, st| betti(&simplicial_boundaries(g).0, st)));
    // chain complexes of all simplicial complexes on few vertices, and of arbitrary two-step complexes
    for nv in 1..=4usize {
        let subsets: Vec<u32> = (1..1u32 << nv).collect();
        let k = subsets.len();
        out.push(space(&format!("Betti numbers of complexes on {nv} vertices"), "every set of generating simplices", 1u64 << k, move |i| {
            if i == 0 { return None; }
            let g: Vec<u32> = subsets.iter().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, &s)| s).collect();
            // generating sets that are antichains: every complex once
            if g.iter().any(|&a| g.iter().any(|&b| a != b && a & b == a)) { return None; }
            Some(g)
        }, |g, st| {
            betti(&simplicial_boundaries(g).0, st)
        }));
    }
    out.push(list("the empty complex", "no boundary maps", vec![0u8], |_, st| { st.step(); let h = Chain(vec![]).homology(); ensure!(h.is_empty(), "homology of no maps is {h:?}"); Ok(()) }));
    out
}
