//! C25: circumcircles and Delaunay triangulations.
use crate::engine::{digits, list, pw, space, word, Check, Spaces, Stats};
use crate::{ensure, Tier};
use alg::lin_alg::ConstVector;
use geom::{delaunay_triangulation, Triangle};
use std::collections::BTreeSet;

type P = [i64; 2];
fn vec(p: P, scale: f64, shift: [f64; 2]) -> ConstVector<f64, 2> { ConstVector::from([p[0] as f64 * scale + shift[0], p[1] as f64 * scale + shift[1]]) }
/// Twice the signed area.
fn area(a: P, b: P, c: P) -> i64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
/// Positive if d is inside the circle through a, b and c, zero if it is on it.
fn in_circle(a: P, b: P, c: P, d: P) -> i64 {
    let r = |p: P| { let (x, y) = (p[0] - d[0], p[1] - d[1]); [x, y, x * x + y * y] };
    let (a1, b1, c1) = (r(a), r(b), r(c));
    let det = a1[0] * (b1[1] * c1[2] - b1[2] * c1[1]) - a1[1] * (b1[0] * c1[2] - b1[2] * c1[0]) + a1[2] * (b1[0] * c1[1] - b1[1] * c1[0]);
    det.signum() * area(a, b, c).signum()
}
fn triples(n: usize) -> Vec<[usize; 3]> { (0..n).flat_map(|i| (i + 1..n).flat_map(move |j| (j + 1..n).map(move |k| [i, j, k]))).collect() }
fn general(p: &[P]) -> bool { triples(p.len()).iter().all(|&[i, j, k]| area(p[i], p[j], p[k]) != 0 && (0..p.len()).all(|l| [i, j, k].contains(&l) || in_circle(p[i], p[j], p[k], p[l]) != 0)) }
/// Twice the area of the convex hull.
fn hull_area(p: &[P]) -> i64 {
    let mut q = p.to_vec();
    q.sort();
    let mut total = 0;
    for pass in 0..2 {
        let mut h: Vec<P> = vec![];
        for &x in q.iter() { while h.len() > 1 && area(h[h.len() - 2], h[h.len() - 1], x) <= 0 { h.pop(); } h.push(x); }
        for w in h.windows(2) { total += w[0][0] * w[1][1] - w[0][1] * w[1][0]; }
        if pass == 0 { q.reverse(); }
    }
    total
}
fn delaunay(p: &[P], scale: f64, shift: [f64; 2], st: &mut Stats) -> Check {
    let pts: Vec<_> = p.iter().map(|x| vec(*x, scale, shift)).collect();
    let (tr, idx) = delaunay_triangulation(&pts);
    ensure!(tr.len() == idx.len(), "{} triangles but {} triples of indices", tr.len(), idx.len());
    for (t, i) in tr.iter().zip(&idx) {
        ensure!(i[0] < i[1] && i[1] < i[2] && i[2] < p.len(), "the triple {i:?} is not increasing");
        ensure!(*t == Triangle::new([pts[i[0]], pts[i[1]], pts[i[2]]]), "the triangle does not have the corners {i:?}");
    }
    let got: BTreeSet<[usize; 3]> = idx.iter().cloned().collect();
    ensure!(got.len() == idx.len(), "a triangle is listed twice: {idx:?}");
    if general(p) {
        let want: BTreeSet<[usize; 3]> = triples(p.len()).into_iter().filter(|&[i, j, k]| (0..p.len()).all(|l| [i, j, k].contains(&l) || in_circle(p[i], p[j], p[k], p[l]) < 0)).collect();
        ensure!(got == want, "the triangles are {got:?}, should be {want:?}");
    } else {
        for t in &got {
            let [a, b, c] = t.map(|i| p[i]);
            ensure!(area(a, b, c) != 0, "the triangle {t:?} has area 0");
            for (l, x) in p.iter().enumerate() { ensure!(in_circle(a, b, c, *x) <= 0, "point {l} is inside the circumcircle of {t:?}"); }
        }
        let total: i64 = got.iter().map(|t| area(p[t[0]], p[t[1]], p[t[2]]).abs()).sum();
        ensure!(total == hull_area(p), "the triangles {got:?} cover twice the area {total}, the convex hull has {}", hull_area(p));
    }
    st.step();
    st.outcome(got);
    Ok(())
}
fn circle(w: &[P], scale: f64, shift: [f64; 2], side: i64, st: &mut Stats) -> Check {
    let t = Triangle::new([0, 1, 2].map(|i| vec(w[i], scale, shift)));
    for k in 0..side * side {
        let d = [k % side - 1, k / side - 1];
        let x = in_circle(w[0], w[1], w[2], d);
        // on the circle: not strictly inside, unless the coordinates are rounded
        if x == 0 && !(shift == [0.0, 0.0] && scale.log2().fract() == 0.0) { continue; }
        ensure!(t.circum_circle_contains(vec(d, scale, shift)) == (x > 0), "the circumcircle {} {d:?}", if x > 0 { "does not contain" } else { "contains" });
        st.step();
        st.outcome((d, x));
    }
    Ok(())
}
/// Distinct points, not all on a line, in general position or not.
fn points(i: u64, n: usize, grid: &[P], gen: Option<bool>) -> Option<Vec<P>> {
    let p = word(i, n, grid);
    if p.iter().collect::<BTreeSet<_>>().len() < n || triples(n).iter().all(|&[i, j, k]| area(p[i], p[j], p[k]) == 0) || gen.is_some_and(|g| general(&p) != g) { return None; }
    Some(p)
}
pub fn c25(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let grid = |w: i64, h: i64| -> Vec<P> { (0..w * h).map(|k| [k % w, k / w]).collect() };
    for (k, (scale, shift)) in [(1.0, [0.0, 0.0]), (0.1, [0.3, -0.7]), (1000.0, [1e6, 0.0])].into_iter().enumerate() {
        let (w, h, n, gen) = (t.pick([4, 4, 3], [5, 4, 4])[k], t.pick([4, 4, 3], [5, 4, 4])[k], 5usize, true);
        for n in 3..=n {
            let g = grid(w, h);
            v.push(space(&format!("general-{w}x{h}-{n}-scale-{scale}"), &format!("all sequences of {n} points in general position in the {w}x{h} grid, scaled by {scale} and shifted by {shift:?}"), pw(g.len() as u64, n), move |i| points(i, n, &g, Some(gen)), move |p: &Vec<P>, st| delaunay(p, scale, shift, st)));
        }
        let (g, side) = (grid(t.pick(4, 6), t.pick(4, 5)), t.pick(6, 8));
        v.push(space(&format!("circles-scale-{scale}"), &format!("all triangles in the {0}x{1} grid and all points in a larger one that are not on the circumcircle, scaled by {scale} and shifted by {shift:?}", t.pick(4, 6), t.pick(4, 5)), pw(g.len() as u64, 3),
            move |i| points(i, 3, &g, None), move |p: &Vec<P>, st| circle(p, scale, shift, side, st)));
    }
    // sets of more points
    for (w, h, n) in t.pick(vec![(4i64, 4i64, 6usize), (4, 4, 5), (5, 5, 5), (7, 4, 4)], vec![(5, 5, 6), (6, 6, 5), (4, 4, 7), (9, 5, 4), (5, 4, 7)]) {
        let g = grid(w, h);
        let (k, m) = (g.len(), block(g.len(), n));
        v.push(space(&format!("subsets-{w}x{h}-{n}"), &format!("all sets of {n} points in the {w}x{h} grid, not all on a line, in 4 orders"), m * 4, move |i| {
            let mut s = pick(k, n, i / 4);
            match i % 4 { 1 => s.reverse(), 2 => s.rotate_left(n / 2), 3 => { let (a, b): (Vec<usize>, Vec<usize>) = s.iter().enumerate().fold((vec![], vec![]), |(mut a, mut b), (j, x)| { if j % 2 == 0 { a.push(*x) } else { b.push(*x) } (a, b) }); s = a.into_iter().chain(b).collect(); } _ => {} }
            let p: Vec<P> = s.into_iter().map(|x| g[x]).collect();
            (!triples(n).iter().all(|&[i, j, k]| area(p[i], p[j], p[k]) == 0)).then_some(p)
        }, |p: &Vec<P>, st| delaunay(p, 1.0, [0.0, 0.0], st)));
    }
    // points on common circles or lines: which diagonal is taken is open
    for (w, h, n) in t.pick(vec![(4i64, 4i64, 3usize), (4, 4, 4), (3, 3, 5), (3, 3, 6)], vec![(5, 5, 4), (4, 4, 5), (3, 3, 7), (5, 4, 5)]) {
        let g = grid(w, h);
        v.push(space(&format!("degenerate-{w}x{h}-{n}"), &format!("all sequences of {n} distinct points in the {w}x{h} grid of which some lie on a common circle or line, but not all on a line"), pw(g.len() as u64, n), move |i| points(i, n, &g, Some(false)), |p: &Vec<P>, st| delaunay(p, 1.0, [0.0, 0.0], st)));
    }
    for (w, h) in t.pick(vec![(3, 3), (4, 3)], vec![(4, 4), (6, 3), (5, 3)]) {
        let g = grid(w, h);
        v.push(space(&format!("subgrids-{w}x{h}"), &format!("all sets of points in the {w}x{h} grid"), 1 << g.len(), move |i| { let p: Vec<P> = (0..g.len()).filter(|k| i >> k & 1 == 1).map(|k| g[k]).collect(); if p.len() < 3 { None } else { Some(p) } }, |p: &Vec<P>, st| {
            // all points on a line (or fewer than three): no triangles
            if triples(p.len()).iter().all(|&[i, j, k]| area(p[i], p[j], p[k]) == 0) {
                let (a, b) = delaunay_triangulation(&p.iter().map(|x| vec(*x, 1.0, [0.0, 0.0])).collect::<Vec<_>>());
                ensure!(a.is_empty() && b.is_empty(), "triangles {b:?} on a line");
                st.step();
                return Ok(());
            }
            delaunay(p, 1.0, [0.0, 0.0], st)
        }));
    }
    // larger sets: lattices modulo a prime, parabolas, spirals, grids with holes, all in several orders
    let top = t.pick(34u64, 44);
    v.push(space("larger sets", &format!("4 to {top} points: eight families (parabola, two lattices modulo a prime, spiral, zigzag, star, grid, two clusters), four orders, three scales"), (top - 3) * 8 * 4 * 3,
        move |i| {
            let d = digits(i, &[3, 4, 8, top - 3])?;
            let n = d[3] as i64 + 4;
            let q = (n..).find(|q| *q > 4 && (2..*q).all(|k| q % k != 0)).unwrap();
            let mut p: Vec<P> = (0..n).map(|k| match d[2] {
                0 => [k, k * k], 1 => [k, k * k % q], 2 => [k * 3 % q, k * k * k % q],
                3 => { let r = k + 1; match k % 4 { 0 => [r, k / 4], 1 => [-(k / 3), r], 2 => [-r, -(k / 2)], _ => [k / 5, -r] } }
                4 => [k * 2, (k % 2) * 3 + k % 3], 5 => match k % 3 { 0 => [k, 0], 1 => [-k, k + 1], _ => [1 - k / 2, -k] },
                6 => [k % 4, k / 4], _ => if k % 2 == 0 { [k % 5, k / 5 + k % 3] } else { [40 + k % 7, 17 + k / 3] } }).collect();
            match d[1] { 1 => p.reverse(), 2 => p.rotate_left(n as usize / 3), 3 => p.sort_by_key(|x| (x[0] * 7 + x[1] * 11) % 13), _ => {} }
            if p.iter().collect::<BTreeSet<_>>().len() < p.len() || triples(p.len()).iter().all(|&[i, j, k]| area(p[i], p[j], p[k]) == 0) { return None; }
            if d[0] == 2 && !general(&p) { return None; } // rounding would decide what is on a circle
            Some((p, d[0]))
        },
        |(p, k), st| match k { 0 => delaunay(p, 1.0, [0.0, 0.0], st), 1 => delaunay(p, 0.25, [-3.0, 7.5], st), _ => delaunay(p, 0.3, [0.1, -0.7], st) }));
    // tiny and huge units, and coordinates of very different size
    for n in t.pick(vec![3usize, 4], vec![3, 4, 5]) {
        let g = grid(t.pick(4, 5), 4);
        let units: Vec<f64> = [-150, -100, -60, -30, -12, 12, 30, 60, 100, 150].map(|e| 2f64.powi(e)).to_vec();
        v.push(space(&format!("units-{n}"), &format!("all sequences of {n} distinct points of a grid of {}, not all on a line, in units of 2^-150 to 2^150", g.len()), pw(g.len() as u64, n) * 10,
            move |i| { let p = points(i / 10, n, &g, None)?; Some((p, units[(i % 10) as usize])) },
            |(p, u), st| { delaunay(p, *u, [0.0, 0.0], st)?; if p.len() == 3 { circle(p, *u, [0.0, 0.0], 6, st)?; } Ok(()) }));
        let c = [0i64, 1, -7, 100, -1999];
        let g: Vec<P> = c.iter().flat_map(|&x| c.map(|y| [x, y])).collect();
        v.push(space(&format!("spread-{n}"), &format!("all sequences of {n} distinct points with coordinates in {c:?}, not all on a line"), pw(25, n), move |i| points(i, n, &g, None), |p: &Vec<P>, st| delaunay(p, 1.0, [0.0, 0.0], st)));
    }
    v.push(list("few", "fewer than three points", vec![0usize, 1, 2], |n, st| {
        let p: Vec<_> = (0..*n).map(|k| vec([k as i64, 2], 1.0, [0.0, 0.0])).collect();
        let (a, b) = delaunay_triangulation(&p);
        ensure!(a.is_empty() && b.is_empty(), "triangles {b:?} with {n} corners");
        st.step();
        Ok(())
    }));
    v
}
/// Binomial coefficient, and the subset of the given rank.
fn block(n: usize, k: usize) -> u64 { if k > n { 0 } else { (0..k as u64).fold(1, |r, i| r * (n as u64 - i) / (i + 1)) } }
fn pick(n: usize, k: usize, mut i: u64) -> Vec<usize> {
    let (mut out, mut k) = (vec![], k);
    for x in 0..n {
        if k == 0 { break; }
        let with = block(n - x - 1, k - 1);
        if i < with { out.push(x); k -= 1; } else { i -= with; }
    }
    out
}
