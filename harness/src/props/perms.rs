//! C06: permutations in cycle notation.  C07: permutations stored as arrays.
use crate::engine::*;
use crate::{ensure, Tier};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::{Group, Gset};
use std::collections::BTreeMap;

/// A permutation as a finite map without fixed points.
type Pm = BTreeMap<usize, usize>;
fn ev(p: &Pm, i: usize) -> usize { *p.get(&i).unwrap_or(&i) }
fn norm(p: Pm) -> Pm { p.into_iter().filter(|(a, b)| a != b).collect() }
/// q after p
fn then(p: &Pm, q: &Pm) -> Pm { let mut o = Pm::new(); for k in p.keys().chain(q.keys()) { o.insert(*k, ev(q, ev(p, *k))); } norm(o) }
fn inv(p: &Pm) -> Pm { p.iter().map(|(a, b)| (*b, *a)).collect() }
fn from_images(v: &[usize], f: impl Fn(usize) -> usize) -> Pm { norm(v.iter().enumerate().map(|(i, &j)| (f(i), f(j))).collect()) }
/// Cycles, each starting at its smallest element, ordered by smallest element.
fn cycles(p: &Pm) -> Vec<Vec<usize>> {
    let mut done = std::collections::BTreeSet::new();
    let mut out = Vec::new();
    for &s in p.keys() {
        if done.contains(&s) { continue; }
        let mut c = vec![]; let mut x = s;
        loop { c.push(x); done.insert(x); x = ev(p, x); if x == s { break; } }
        out.push(c);
    }
    out
}
fn build(p: &Pm) -> Permutation { Permutation::from_disjoint_cycles(cycles(p).into_iter().map(Cycle::from).collect()) }
fn notation(p: &Pm) -> String {
    let c = cycles(p);
    if c.is_empty() { return "(1)".into(); }
    c.iter().map(|c| format!("({})", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))).collect()
}
fn same(r: &Permutation, p: &Pm, what: &str) -> Check {
    let top = p.keys().max().map(|m| m + 3).unwrap_or(4).max(8);
    for i in 0..top { ensure!(r.map(i) == ev(p, i), "{what} maps {i} to {}, expected {}", r.map(i), ev(p, i)); }
    let b = build(p);
    ensure!(*r == b && b == *r, "{what} = {r} is not equal to {b}, which maps everything alike");
    ensure!(r.to_string() == notation(p), "{what} prints as {r}, expected {}", notation(p));
    let mut u: Vec<usize> = r.unfixed_indeces_iter().collect();
    u.sort();
    ensure!(u == p.keys().cloned().collect::<Vec<_>>(), "{what}: moved points listed as {u:?}");
    Ok(())
}
fn act<T: Clone>(v: &[T], p: &Pm) -> Vec<T> { let q = inv(p); (0..v.len()).map(|i| v[ev(&q, i)].clone()).collect() }

fn unary(p: &Pm, st: &mut Stats) -> Check {
    let r = build(p);
    same(&r, p, "p")?;
    // the same permutation given by cycles in another order and rotation
    let mut cs = cycles(p);
    cs.reverse();
    for k in 0..3 {
        let rot: Vec<Cycle> = cs.iter().map(|c| { let mut c = c.clone(); let n = c.len(); c.rotate_left((k + 1) % n); Cycle::from(c) }).collect();
        let mut with_trivial = vec![Cycle::from(vec![99])];
        with_trivial.extend(rot);
        same(&Permutation::from_disjoint_cycles(with_trivial), p, "p from rotated cycles")?;
    }
    if cs.len() == 1 { same(&Permutation::from_cycle(Cycle::from(cs[0].clone())), p, "from_cycle")?; }
    let i = r.clone().inverse();
    same(&i, &inv(p), "inverse")?;
    same(&(r.clone() * i.clone()), &Pm::new(), "p * inverse")?;
    same(&(i * r.clone()), &Pm::new(), "inverse * p")?;
    same(&(r.clone() * Permutation::identity()), p, "p * 1")?;
    same(&(Permutation::identity() * r.clone()), p, "1 * p")?;
    ensure!((r == Permutation::identity()) == p.is_empty(), "equality with the identity");
    let gens = r.clone().in_terms_of_gens();
    if !p.is_empty() { for g in &gens { ensure!(g.unfixed_indeces_iter().count() == 2 && g.clone().inverse_of_gen() == *g, "generator {g} is not a transposition"); } }
    same(&gens.into_iter().product(), p, "product of generators")?;
    let mut pw = Pm::new();
    let mut nw = Pm::new();
    for e in 0..=6i64 {
        same(&(r.clone() ^ e), &pw, &format!("p^{e}"))?;
        same(&(r.clone() ^ (-e)), &nw, &format!("p^-{e}"))?;
        pw = then(&pw, p); nw = then(&nw, &inv(p));
    }
    // action on a vector moves the element at i to p(i)
    let n = p.keys().max().map(|m| m + 2).unwrap_or(2);
    let v: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let w = v.clone() << r.clone();
    ensure!(w == act(&v, p), "action on {v:?} gives {w:?}, expected {:?}", act(&v, p));
    let mut w2 = v.clone(); w2 <<= r.clone();
    ensure!(w2 == w, "<<= gives {w2:?} but << gives {w:?}");
    let mut w3 = v.clone(); w3.action_by(r.clone());
    ensure!(w3 == w, "action_by gives {w3:?} but << gives {w:?}");
    st.steps(30);
    st.outcome(p);
    Ok(())
}
fn binary(p: &Pm, q: &Pm, st: &mut Stats) -> Check {
    let (a, b) = (build(p), build(q));
    same(&(a.clone() * b.clone()), &then(q, p), "p*q")?;
    ensure!((a == b) == (p == q), "p == q is {}", a == b);
    same(&[a.clone(), b.clone(), a.clone()].into_iter().product(), &then(&then(p, q), p), "product of p,q,p")?;
    let n = p.keys().chain(q.keys()).max().map(|m| m + 2).unwrap_or(2);
    let v: Vec<usize> = (0..n).map(|i| i * i + 1).collect();
    let one = (v.clone() << a.clone()) << b.clone();
    let two = v.clone() << (b * a);
    ensure!(one == two, "acting by p then q gives {one:?} but by q*p gives {two:?}");
    st.steps(4);
    st.outcome(then(q, p));
    Ok(())
}
fn spread(i: usize) -> usize { 3 * i + 1 }
/// Permutations of n points by formula.
fn family(n: usize) -> Vec<Vec<usize>> {
    let gcd = |mut a: usize, mut b: usize| { while b > 0 { (a, b) = (b, a % b); } a };
    let mut out: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    for r in [1, 2, n / 2, n - 1] { out.push((0..n).map(|i| (i + r) % n).collect()); }
    for u in 2..n { if gcd(u, n) == 1 && out.len() < 10 { out.push((0..n).map(|i| (u * i) % n).collect()); } }
    out.push((0..n).map(|i| if i + 1 < n || n % 2 == 0 { i ^ 1 } else { i }).collect());
    out.push((0..n).map(|i| if i < n / 2 { 2 * i } else { 2 * (i - n / 2) + 1 }).map(|i| if n % 2 == 0 { i } else { i.min(n - 1) }).collect());
    let last = out.len() - 1;
    if { let mut x = out[last].clone(); x.sort(); x != (0..n).collect::<Vec<_>>() } { out.pop(); }
    for (a, b) in [(0, n - 1), (n - 2, n - 1), (0, n / 2)] { let mut v: Vec<usize> = (0..n).collect(); v.swap(a, b); out.push(v); }
    // cycles of lengths 2, 3, 4, ... next to each other
    let mut v: Vec<usize> = (0..n).collect();
    let (mut s, mut l) = (0, 2);
    while s + l <= n { v[s..s + l].rotate_left(1); s += l; l += 1; }
    out.push(v);
    // one long cycle through the odd points upwards and the even ones downwards
    let mut c: Vec<usize> = (1..n).step_by(2).collect();
    c.extend((0..n).step_by(2).collect::<Vec<_>>().into_iter().rev());
    let mut v = vec![0; n];
    for k in 0..n { v[c[k]] = c[(k + 1) % n]; }
    out.push(v);
    out
}
const LONG: [usize; 13] = [7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 64, 65, 129];
fn longer(mut v: Vec<(usize, usize, usize)>) -> Vec<(usize, usize, usize)> { for n in [130usize, 300] { let f = family(n).len(); v.extend((0..f * f).filter(|k| k % 5 == 0 || k / f == k % f).map(move |k| (n, k / f, k % f))); } v }
fn long_cases() -> Vec<(usize, usize)> { LONG.iter().flat_map(|&n| (0..family(n).len()).map(move |k| (n, k))).collect() }
fn long_pairs() -> Vec<(usize, usize, usize)> { LONG.iter().flat_map(|&n| { let f = family(n).len(); (0..f * f).map(move |k| (n, k / f, k % f)) }).collect() }

pub fn c06(t: Tier) -> Spaces {
    let nu = t.pick(7, 8);
    let nb = t.pick(6, 6);
    let nu_sizes: Vec<u64> = (0..=nu).map(factorial).collect();
    let s2 = nu_sizes.clone();
    let fb = factorial(nb);
    let m = t.pick(11usize, 15);
    let mut ranges = Vec::new();
    for a in 0..=m { for b in a..=m { for c in 0..=m { for d in c..=m { ranges.push((a, b, c, d)); } } } }
    ranges.sort_by_key(|r| (r.1.max(r.3), *r));
    let wl = t.pick(5usize, 6);
    vec![
        space("one permutation", &format!("every permutation of up to {nu} points; map, equality, cycle notation, inverse, generators, powers -6..=6, action on a vector"), nu_sizes.iter().sum(),
            move |i| { let (n, j) = block(i, &nu_sizes); Some(nth_perm(j, n)) }, |v: &Vec<usize>, st| unary(&from_images(v, |i| i), st)),
        space("one permutation with scattered support", &format!("every permutation of up to {nu} points placed at 1,4,7,..."), s2.iter().sum(),
            move |i| { let (n, j) = block(i, &s2); Some(nth_perm(j, n)) }, |v: &Vec<usize>, st| unary(&from_images(v, spread), st)),
        space("pairs of permutations", &format!("every ordered pair of permutations of {nb} points"), fb * fb,
            move |i| Some((nth_perm(i / fb, nb), nth_perm(i % fb, nb))), |(a, b): &(Vec<usize>, Vec<usize>), st| binary(&from_images(a, |i| i), &from_images(b, |i| i), st)),
        space("pairs with partly overlapping support", "every ordered pair of permutations of 4 points, the second moved up by 0,2,3,4,7", 24 * 24 * 5,
            |i| Some((nth_perm(i % 24, 4), nth_perm(i / 24 % 24, 4), [0, 2, 3, 4, 7][(i / 576) as usize])),
            |(a, b, s): &(Vec<usize>, Vec<usize>, usize), st| { let s = *s; binary(&from_images(a, |i| i), &from_images(b, move |i| i + s), st) }),
        list("long permutations", "rotations, reversal, multiplications, shuffles, transpositions and other permutations by formula of 7 to 129, 130 and 300 points, also moved up by 1 and spread out: as above, and powers of +-7, +-30 and +-1000", long_cases().into_iter().chain([130usize, 300].into_iter().flat_map(|n| (0..family(n).len()).map(move |k| (n, k)))).collect(),
            |&(n, k), st| {
                let v = &family(n)[k];
                unary(&from_images(v, |i| i), st)?; unary(&from_images(v, |i| i + 1), st)?; unary(&from_images(v, spread), st)?;
                let p = from_images(v, |i| i);
                for e in [7usize, 30, 1000] {
                    let mut w = Pm::new();
                    for (c, x) in cycles(&p).iter().flat_map(|c| c.iter().enumerate().map(move |(i, _)| (c, i))) { w.insert(c[x], c[(x + e) % c.len()]); }
                    let w = norm(w);
                    same(&(build(&p) ^ (e as i64)), &w, &format!("p^{e}"))?;
                    same(&(build(&p) ^ (-(e as i64))), &inv(&w), &format!("p^-{e}"))?;
                    st.steps(2);
                }
                Ok(())
            }),
        list("pairs of long permutations", "all pairs of these, the second in place and moved up by 1 and by n/2", longer(long_pairs()),
            |&(n, a, b), st| { let f = family(n); for s in [0, 1, n / 2] { binary(&from_images(&f[a], |i| i), &from_images(&f[b], move |i| i + s), st)?; } Ok(()) }),
        list("products of many", "products of 0 to 12 of these, in four orders each", LONG.iter().flat_map(|&n| (0..13usize).flat_map(move |k| (1..5usize).map(move |s| (n, k, s)))).collect::<Vec<_>>(),
            |&(n, k, s), st| {
                let f = family(n);
                let ps: Vec<Pm> = (0..k).map(|j| from_images(&f[(s * j + 1) % f.len()], |i| i + j % 2)).collect();
                let want = ps.iter().fold(Pm::new(), |a, p| then(&a, p));
                st.step();
                same(&ps.iter().map(build).product(), &want, "product, first factor first")
            }),
        list("long block swaps and cycles", "ranges with ends in 0..80 at and around multiples of 16, cycles of up to 70 points", {
                let e = [0usize, 1, 7, 15, 16, 17, 31, 33, 63, 64, 65, 80];
                let mut v = Vec::new();
                for &a in &e { for &b in &e { for &c in &e { for &d in &e { if a < b && b <= c && c < d { v.push((a, b, c, d)); v.push((c, d, a, b)); } } } } }
                v },
            |&(a, b, c, d), st| {
                st.step();
                let (lo, hi) = if b <= c { (a..b, c..d) } else { (c..d, a..b) };
                let mut order: Vec<usize> = (0..lo.start).collect();
                order.extend(hi.clone()); order.extend(lo.end..hi.start); order.extend(lo.clone());
                let pm = norm(order.iter().enumerate().map(|(k, &o)| (o, k)).collect());
                st.outcome(&pm);
                same(&Permutation::swap(a..b, c..d), &pm, "swap")?;
                let pm = if b - a < 2 { Pm::new() } else { (a..b).map(|k| (k, if k + 1 == b { a } else { k + 1 })).collect() };
                same(&Permutation::cyclic_from(a..b), &pm, &format!("cyclic_from({a}..{b})"))
            }),
        list("block swaps", &format!("every pair of ranges inside 0..{m}, including empty, adjacent, reversed and overlapping ones"), ranges,
            |&(a, b, c, d), st| {
                st.step();
                let (r1, r2) = (a..b, c..d);
                let empty = r1.is_empty() || r2.is_empty();
                let overlap = !empty && !(b <= c || d <= a);
                if overlap { ensure!(guard(|| Permutation::swap(r1, r2)).is_err(), "overlapping ranges accepted"); return Ok(()); }
                if empty && !(b <= c || d <= a) { return Ok(()); } // nothing is promised for an empty range inside the other
                let p = Permutation::swap(r1.clone(), r2.clone());
                let n = b.max(d) + 2;
                let (lo, hi) = if empty { (0..0, 0..0) } else if b <= c { (r1, r2) } else { (r2, r1) };
                let mut order: Vec<usize> = (0..lo.start).collect();
                order.extend(hi.clone()); order.extend(lo.end..hi.start); order.extend(lo.clone()); order.extend(hi.end..n);
                // order[k] = the old position now at k
                let pm = norm(order.iter().enumerate().map(|(k, &o)| (o, k)).collect());
                st.outcome(&pm);
                same(&p, &pm, "swap")
            }),
        space("cycles and cyclic permutations", &format!("every word of length <= {wl} over 5 points as a cycle (words with a repetition are rejected)"), (0..=wl).map(|n| pw(5, n)).sum(),
            move |i| { let (n, j) = block(i, &(0..=wl).map(|n| pw(5, n)).collect::<Vec<_>>()); Some(word(j, n, &[0usize, 1, 2, 3, 4])) },
            |w: &Vec<usize>, st| {
                st.step();
                let mut s = w.clone(); s.sort(); s.dedup();
                if s.len() != w.len() { ensure!(guard(|| Cycle::from(w.clone())).is_err(), "a cycle with a repeated point was accepted"); return Ok(()); }
                let pm = if w.len() < 2 { Pm::new() } else { (0..w.len()).map(|i| (w[i], w[(i + 1) % w.len()])).collect() };
                same(&Permutation::from_cycle(Cycle::from(w.clone())), &pm, "from_cycle")?;
                same(&Permutation::from_disjoint_cycles(vec![Cycle::from(w.clone())]), &pm, "from_disjoint_cycles")?;
                st.outcome(&pm);
                Ok(())
            }),
        space("cyclic permutations of ranges, sets of cycles", "cyclic_from(a..b) for 0<=a<=b<=12; pairs of cycles of length 2 and 3 over 6 points (overlapping ones are rejected)", 13 * 13 + 36 * 216,
            |i| Some(i),
            |&i, st| {
                st.step();
                if i < 169 {
                    let (a, b) = ((i / 13) as usize, (i % 13) as usize);
                    if a > b { return Ok(()); }
                    let pm = if b - a < 2 { Pm::new() } else { (a..b).map(|k| (k, if k + 1 == b { a } else { k + 1 })).collect() };
                    st.outcome(&pm);
                    return same(&Permutation::cyclic_from(a..b), &pm, &format!("cyclic_from({a}..{b})"));
                }
                let w = word(i - 169, 5, &[0usize, 1, 2, 3, 4, 5]);
                let (c, d) = (w[..2].to_vec(), w[2..].to_vec());
                let distinct = |v: &[usize]| { let mut s = v.to_vec(); s.sort(); s.dedup(); s.len() == v.len() };
                if !distinct(&c) || !distinct(&d) { return Ok(()); }
                let cs = vec![Cycle::from(d.clone()), Cycle::from(c.clone())];
                if !distinct(&w) { ensure!(guard(|| Permutation::from_disjoint_cycles(cs)).is_err(), "overlapping cycles {c:?} {d:?} accepted"); return Ok(()); }
                let mut pm: Pm = (0..2).map(|k| (c[k], c[(k + 1) % 2])).collect();
                pm.extend((0..3).map(|k| (d[k], d[(k + 1) % 3])));
                same(&alg::permutation! { (c[0], c[1])(d[0], d[1], d[2]) }, &pm, "permutation!")?;
                same(&Permutation::from_disjoint_cycles(cs), &pm, "disjoint cycles")
            }),
    ]
}

fn order_ref(v: &[usize]) -> usize {
    let mut l = 1u128;
    for c in cycles(&from_images(v, |i| i)) { let n = c.len() as u128; let g = super::numbers::igcd(l as i128, n as i128) as u128; l = l / g * n; }
    l as usize
}
fn comp(p: &[usize], q: &[usize]) -> Vec<usize> { (0..p.len().max(q.len())).map(|i| { let j = q.get(i).cloned().unwrap_or(i); p.get(j).cloned().unwrap_or(j) }).collect() }
fn inv_v(p: &[usize]) -> Vec<usize> { let mut o = vec![0; p.len()]; for (i, &j) in p.iter().enumerate() { o[j] = i; } o }
fn arr<const N: usize>(v: &[usize]) -> [usize; N] { let mut a = [0; N]; a.copy_from_slice(v); a }
fn vec_perm(v: &[usize]) -> VecPermutation {
    match v.len() {
        0 => VecPermutation::identity(),
        1 => VecPermutation::from([v[0]]),
        2 => VecPermutation::from([v[0], v[1]]),
        3 => VecPermutation::from([v[0], v[1], v[2]]),
        4 => VecPermutation::from([v[0], v[1], v[2], v[3]]),
        5 => VecPermutation::from([v[0], v[1], v[2], v[3], v[4]]),
        6 => VecPermutation::from([v[0], v[1], v[2], v[3], v[4], v[5]]),
        7 => VecPermutation::from([v[0], v[1], v[2], v[3], v[4], v[5], v[6]]),
        8 => VecPermutation::from(arr::<8>(v)), 9 => VecPermutation::from(arr::<9>(v)), 10 => VecPermutation::from(arr::<10>(v)),
        12 => VecPermutation::from(arr::<12>(v)), 15 => VecPermutation::from(arr::<15>(v)), 16 => VecPermutation::from(arr::<16>(v)),
        17 => VecPermutation::from(arr::<17>(v)), 31 => VecPermutation::from(arr::<31>(v)), 33 => VecPermutation::from(arr::<33>(v)),
        64 => VecPermutation::from(arr::<64>(v)), 65 => VecPermutation::from(arr::<65>(v)), 129 => VecPermutation::from(arr::<129>(v)),
        _ => unreachable!(),
    }
}
fn vsame(p: &VecPermutation, v: &[usize], what: &str) -> Check {
    for i in 0..v.len() + 3 { let e = v.get(i).cloned().unwrap_or(i); ensure!(p.eval(i) == e, "{what} sends {i} to {}, expected {e}", p.eval(i)); }
    Ok(())
}
fn cp<const N: usize>(v: &[usize]) -> ConstPermutation<N> { let mut a = [0; N]; a.copy_from_slice(v); ConstPermutation::from(a) }
fn const_unary<const N: usize>(v: &[usize], st: &mut Stats) -> Check {
    let p = cp::<N>(v);
    let id = ConstPermutation::<N>::identity();
    ensure!(id == cp::<N>(&(0..N).collect::<Vec<_>>()), "identity");
    ensure!(p.inverse() == cp::<N>(&inv_v(v)), "inverse = {:?}, expected {:?}", p.inverse(), inv_v(v));
    ensure!(p.inverse_of_gen() == p.inverse(), "inverse_of_gen differs from inverse");
    ensure!(p * p.inverse() == id && p.inverse() * p == id, "p * inverse is not the identity");
    ensure!(p * id == p && id * p == p, "p * 1");
    ensure!(p.order() == order_ref(v), "order = {}, expected {}", p.order(), order_ref(v));
    vsame(&VecPermutation::from(p), v, "conversion")?;
    st.steps(6);
    st.outcome((N, p.order()));
    Ok(())
}
fn const_binary<const N: usize>(a: &[usize], b: &[usize], st: &mut Stats) -> Check {
    let (p, q) = (cp::<N>(a), cp::<N>(b));
    let want = cp::<N>(&comp(a, b));
    ensure!(p * q == want, "p*q = {:?}, expected {want:?}", p * q);
    let mut r = p; r *= q;
    ensure!(r == want, "p*=q gives {r:?}, expected {want:?}");
    let pr: ConstPermutation<N> = [p, q, p].into_iter().product();
    ensure!(pr == p * q * p, "product of (p,q,p) = {pr:?}");
    let pr: ConstPermutation<N> = [p, q].into_iter().product();
    ensure!(pr == q * p, "product of (p,q) applies p last: {pr:?}");
    ensure!((p == q) == (a == b), "p == q is {}", p == q);
    st.steps(4);
    st.outcome(comp(a, b));
    Ok(())
}
macro_rules! sized { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n { 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 12 => $f::<12>($($a),*), 15 => $f::<15>($($a),*), 16 => $f::<16>($($a),*), 17 => $f::<17>($($a),*), 31 => $f::<31>($($a),*), 33 => $f::<33>($($a),*), 64 => $f::<64>($($a),*), 65 => $f::<65>($($a),*), 129 => $f::<129>($($a),*), _ => unreachable!() } } }
fn vec_unary(v: &[usize], st: &mut Stats) -> Check {
    let p = vec_perm(v);
    vsame(&p, v, "p")?;
    vsame(&p.clone().inverse(), &inv_v(v), "inverse")?;
    vsame(&p.clone().inverse_of_gen(), &inv_v(v), "inverse_of_gen")?;
    vsame(&(p.clone() * p.clone().inverse()), &[], "p * inverse")?;
    ensure!(p.clone() * p.clone().inverse() == VecPermutation::identity(), "p * inverse = {:?} is not equal to the identity", p.clone() * p.clone().inverse());
    let o = p.clone().order();
    ensure!(o == order_ref(v), "order of the growable permutation = {o}, expected {}", order_ref(v));
    st.steps(5);
    Ok(())
}
fn vec_binary(a: &[usize], b: &[usize], st: &mut Stats) -> Check {
    let (p, q) = (vec_perm(a), vec_perm(b));
    let want = comp(a, b);
    vsame(&(p.clone() * q.clone()), &want, "p*q")?;
    let mut r = p.clone(); r *= q.clone();
    vsame(&r, &want, "p*=q")?;
    vsame(&[p.clone(), q.clone()].into_iter().product(), &comp(b, a), "product of (p,q)")?;
    let alike = comp(a, &inv_v(b)).iter().enumerate().all(|(i, &j)| i == j);
    ensure!((p == q) == alike && (q == p) == alike, "p == q is {}, but as functions they are {}", p == q, if alike { "equal" } else { "different" });
    ensure!((p.clone() * q == p) == (comp(b, &[]).iter().enumerate().all(|(i, &j)| i == j)), "p*q == p");
    st.steps(4);
    st.outcome(want);
    Ok(())
}
pub fn c07(t: Tier) -> Spaces {
    let nu = t.pick(7, 8);
    let sizes: Vec<u64> = (1..=nu).map(factorial).collect();
    let nb = t.pick(6, 6);
    let fb = factorial(nb);
    let s4: Vec<u64> = (0..=t.pick(5, 6)).map(factorial).collect();
    let tot: u64 = s4.iter().sum();
    let s4b = s4.clone();
    vec![
        space("one array permutation", &format!("every permutation of 1..={nu} points: inverse, order, identity, conversion"), sizes.iter().sum(),
            move |i| { let (n, j) = block(i, &sizes); Some(nth_perm(j, n + 1)) },
            |v: &Vec<usize>, st| {
                match v.len() { 1 => const_unary::<1>(v, st), 2 => const_unary::<2>(v, st), 3 => const_unary::<3>(v, st), 4 => const_unary::<4>(v, st), 5 => const_unary::<5>(v, st), 6 => const_unary::<6>(v, st), 7 => const_unary::<7>(v, st), _ => const_unary::<8>(v, st) }?;
                vec_unary(v, st)
            }),
        space("pairs of array permutations", &format!("every ordered pair of permutations of {nb} points"), fb * fb,
            move |i| Some((nth_perm(i / fb, nb), nth_perm(i % fb, nb))),
            move |(a, b): &(Vec<usize>, Vec<usize>), st| if nb == 5 { const_binary::<5>(a, b, st) } else { const_binary::<6>(a, b, st) }),
        space("pairs of growable permutations of any lengths", &format!("every ordered pair of permutations of 0..={} points (lengths mixed)", s4.len() - 1), tot * tot,
            move |i| { let f = |i| { let (n, j) = block(i, &s4); nth_perm(j, n) }; Some((f(i / tot), f(i % tot))) },
            |(a, b): &(Vec<usize>, Vec<usize>), st| vec_binary(a, b, st)),
        list("long array permutations", "permutations by formula of 7 to 129 points", long_cases(),
            |&(n, k), st| { let v = &family(n)[k]; sized!(n, const_unary(v, st))?; vec_unary(v, st) }),
        list("pairs of long array permutations", "all pairs of these of equal length, and with lengths that follow each other", long_pairs(),
            |&(n, a, b), st| {
                let f = family(n);
                sized!(n, const_binary(&f[a], &f[b], st))?;
                vec_binary(&f[a], &f[b], st)?;
                let m = LONG[(LONG.iter().position(|&x| x == n).unwrap() + 1) % LONG.len()];
                let g = family(m);
                vec_binary(&f[a], &g[b % g.len()], st)?;
                vec_binary(&g[b % g.len()], &f[a], st)
            }),
        list("growable permutations that differ in their fixed ends only", "a permutation of up to 6 points, padded with up to 59 fixed points, is equal to itself", (2..=6usize).flat_map(|n| (0..factorial(n)).map(move |i| (n, i))).collect::<Vec<_>>(),
            |&(n, i), st| {
                let v = nth_perm(i, n);
                for m in LONG { if m > n { let mut w = v.clone(); w.extend(n..m); vec_binary(&v, &w, st)?; vec_binary(&w, &v, st)?; } }
                Ok(())
            }),
        space("triples of growable permutations", "products of every three permutations of 0..=3 points (lengths mixed): associativity", (1u64 + 1 + 2 + 6).pow(3),
            move |i| { let s = &s4b[..4]; let f = |i| { let (n, j) = block(i, s); nth_perm(j, n) }; Some((f(i % 10), f(i / 10 % 10), f(i / 100))) },
            |(a, b, c): &(Vec<usize>, Vec<usize>, Vec<usize>), st| {
                let want = comp(a, &comp(b, c));
                let (p, q, r) = (vec_perm(a), vec_perm(b), vec_perm(c));
                vsame(&((p.clone() * q.clone()) * r.clone()), &want, "(pq)r")?;
                vsame(&(p.clone() * (q.clone() * r.clone())), &want, "p(qr)")?;
                ensure!((p.clone() * q.clone()) * r.clone() == p * (q * r), "(pq)r is not equal to p(qr)");
                st.steps(3); st.outcome(want);
                Ok(())
            }),
    ]
}
