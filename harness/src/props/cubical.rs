//! C22: unordered discretised configuration spaces.  C23: their discrete Morse complexes.  C24: paths.
use super::graphs::{closure, graphs, named_graphs, order, read_tree, to_graph, Edges, Tree};
use super::mat::{mul, D};
use super::simplicial::{check_descriptions, show_homology, wide_d};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::lin_alg::Vector;
use alg::non_commutative::permutation::ConstPermutation;
use std::collections::{BTreeMap, BTreeSet};
use topo_spaces::cubical::{Cube, CubicalCplx, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, SimpleGraph};
use topo_spaces::{Complex, IntegralHomology, H};

// ---------------------------------------------------------------- references
/// Boundary maps of the (reduced) Swiatkowski complex of a graph, in the weight of n points: an independent, much
/// smaller chain complex with the homology of the unordered configuration space (no subdivision, no cubes).
pub fn swiatkowski(e: &Edges, n: usize) -> Vec<D<i128>> {
    let o = order(e);
    let half: Vec<Vec<usize>> = o.iter().map(|&x| e.iter().enumerate().flat_map(|(k, &(a, b))| { let mut h = vec![]; if a == x { h.push(k); } if b == x { h.push(k); } h }).collect()).collect();
    // generators: for some vertices a half-edge other than the first (standing for the difference to the first), and a monomial in the edges
    type Gen = (Vec<(usize, usize)>, Vec<usize>);
    let mut gens: Vec<Vec<Gen>> = vec![vec![]; n + 1];
    fn monomials(k: usize, d: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&Vec<usize>)) {
        if cur.len() + 1 == k { cur.push(d); f(cur); cur.pop(); return; }
        for i in 0..=d { cur.push(i); monomials(k, d - i, cur, f); cur.pop(); }
    }
    fn choose(v: usize, left: usize, half: &Vec<Vec<usize>>, cur: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&Vec<(usize, usize)>)) {
        if v == half.len() { f(cur); return; }
        choose(v + 1, left, half, cur, f);
        if left > 0 { for h in 1..half[v].len() { cur.push((v, h)); choose(v + 1, left - 1, half, cur, f); cur.pop(); } }
    }
    choose(0, n, &half, &mut vec![], &mut |s| monomials(e.len(), n - s.len(), &mut vec![], &mut |m| gens[s.len()].push((s.clone(), m.clone()))));
    while gens.last().is_some_and(|g| g.is_empty()) { gens.pop(); }
    let mut out = vec![vec![vec![0; gens[0].len()]]];
    for k in 1..gens.len() {
        let idx: BTreeMap<&Gen, usize> = gens[k - 1].iter().enumerate().map(|(i, g)| (g, i)).collect();
        let mut m = vec![vec![0i128; gens[k].len()]; gens[k - 1].len()];
        for (j, (s, mono)) in gens[k].iter().enumerate() {
            for (p, &(v, h)) in s.iter().enumerate() {
                let sign = if p % 2 == 0 { 1 } else { -1 };
                let mut r = s.clone();
                r.remove(p);
                for (edge, c) in [(half[v][h], sign), (half[v][0], -sign)] {
                    let mut mm = mono.clone();
                    mm[edge] += 1;
                    m[idx[&(r.clone(), mm)]][j] += c;
                }
            }
        }
        out.push(m);
    }
    out
}
/// Number of generators of the reduced Swiatkowski complex.
fn size(e: &Edges, n: usize) -> usize {
    let o = order(e);
    let mut p = vec![1usize]; // coefficients of the product of (1 + (d-1) x) over the vertices
    for x in o {
        let d: usize = e.iter().map(|&(a, b)| (a == x) as usize + (b == x) as usize).sum();
        p.push(0);
        for i in (1..p.len()).rev() { p[i] += (d - 1) * p[i - 1]; }
    }
    let binom = |a: usize, b: usize| (0..b).fold(1usize, |r, i| r * (a - i) / (i + 1));
    (0..=n.min(p.len() - 1)).map(|k| p[k] * binom(n - k + e.len() - 1, e.len() - 1)).sum()
}
type Cell = Vec<CubeFactor>;
/// All sets of n pairwise disjoint closed vertices and edges, sorted by their smaller ends; by dimension.
fn cells(t: &Tree, n: usize, max: usize) -> Vec<Vec<Cell>> {
    let mut f: Vec<CubeFactor> = (0..t.n).map(CubeFactor::Vertex).chain(t.edges().into_iter().map(|(i, j)| CubeFactor::Edge([i, j]))).collect();
    f.sort_by_key(|x| (closure(*x)[0], closure(*x).len(), closure(*x).last().cloned()));
    let mut out: Vec<Vec<Cell>> = vec![vec![]; n + 1];
    fn go(max: usize, f: &[CubeFactor], s: usize, n: usize, used: &mut Vec<bool>, cur: &mut Cell, out: &mut Vec<Vec<Cell>>) {
        if cur.len() == n { out[cur.iter().filter(|x| closure(**x).len() == 2).count()].push(cur.clone()); return; }
        if out.iter().map(|x| x.len()).sum::<usize>() > max { return; } // too many for the check
        for k in s..f.len() {
            let c = closure(f[k]);
            if c.iter().any(|&x| used[x]) { continue; }
            for &x in &c { used[x] = true; }
            cur.push(f[k]);
            go(max, f, k + 1, n, used, cur, out);
            cur.pop();
            for &x in &c { used[x] = false; }
        }
    }
    go(max, &f, 0, n, &mut vec![false; t.n], &mut vec![], &mut out);
    while out.last().is_some_and(|x| x.is_empty()) { out.pop(); }
    out
}
/// The critical ones among them, pruned on the way: what blocks a vertex comes before it.
fn critical_cells(t: &Tree, n: usize) -> Vec<Vec<Cell>> {
    let mut f: Vec<CubeFactor> = (0..t.n).map(CubeFactor::Vertex).chain(t.edges().into_iter().filter(|&(i, j)| !t.in_tree(i, j) || (i + 1..j).any(|v| t.parent[v] == i)).map(|(i, j)| CubeFactor::Edge([i, j]))).collect();
    f.sort_by_key(|x| (closure(*x)[0], closure(*x).len(), closure(*x).last().cloned()));
    let mut out: Vec<Vec<Cell>> = vec![vec![]; n + 1];
    fn go(t: &Tree, f: &[CubeFactor], s: usize, n: usize, used: &mut Vec<bool>, cur: &mut Cell, out: &mut Vec<Vec<Cell>>) {
        if cur.len() == n { if critical(cur, t) { out[cur.iter().filter(|x| closure(**x).len() == 2).count()].push(cur.clone()); } return; }
        for k in s..f.len() {
            let c = closure(f[k]);
            if c.iter().any(|&x| used[x]) || (c.len() == 1 && c[0] > 0 && !used[t.parent[c[0]]]) { continue; }
            for &x in &c { used[x] = true; }
            cur.push(f[k]);
            go(t, f, k + 1, n, used, cur, out);
            cur.pop();
            for &x in &c { used[x] = false; }
        }
    }
    go(t, &f, 0, n, &mut vec![false; t.n], &mut vec![], &mut out);
    while out.last().is_some_and(|x| x.is_empty()) { out.pop(); }
    out
}
fn sorted(mut c: Cell) -> Cell { c.sort_by_key(|x| closure(*x)[0]); c }
/// The 2k faces of a k-cell, in the order of its edges: (index of the edge among the edges, upper end?, face).
fn faces(c: &Cell) -> Vec<(usize, bool, Cell)> {
    let mut out = vec![];
    let mut k = 0;
    for (i, x) in c.iter().enumerate() {
        if let CubeFactor::Edge([a, b]) = *x {
            for (up, v) in [(false, a), (true, b)] { let mut d = c.clone(); d[i] = CubeFactor::Vertex(v); out.push((k, up, sorted(d))); }
            k += 1;
        }
    }
    out
}
fn show_cell(c: &[CubeFactor]) -> String { format!("{{{}}}", c.iter().map(|x| match x { CubeFactor::Vertex(v) => v.to_string(), CubeFactor::Edge([a, b]) => format!("[{a} {b}]") }).collect::<Vec<_>>().join(", ")) }
/// Cells listed in the printed form of a complex, by dimension.
fn printed(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut out: Vec<Vec<String>> = vec![];
    for l in text.lines() {
        if let Some(c) = l.strip_prefix('\t') {
            let c = c.split_once('}').map(|x| x.0).and_then(|x| x.strip_prefix('{')).ok_or(format!("cannot read {l:?}"))?;
            out.last_mut().ok_or("a cell before the first heading")?.push(format!("{{{}}}", c.trim_end_matches(", ")));
        } else if l.starts_with(&format!("{}-cells:", out.len())) { out.push(vec![]); }
        else { return Err(format!("cannot read {l:?}")); }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C22
fn udc_check(e: &Edges, n: usize, homology: usize, st: &mut Stats) -> Check {
    let g = to_graph(e);
    let t = read_tree(&SimpleGraph::subdivided_graph_from(&g, n))?;
    let want = cells(&t, n, 3500);
    let total: usize = want.iter().map(|x| x.len()).sum();
    if total > 3500 { return Ok(()); } // the boundary matrices are dense
    let c = CubicalCplx::udc(&g, n);
    ensure!(c.n_cells() == total, "{} cells, should be {total}", c.n_cells());
    let p = printed(&c.to_string())?;
    ensure!(p.len() == want.len(), "cells printed up to dimension {}, should be {}", p.len(), want.len());
    for (k, w) in want.iter().enumerate() {
        let w: BTreeSet<String> = w.iter().map(|c| show_cell(c)).collect();
        ensure!(p[k].len() == w.len() && p[k].iter().cloned().collect::<BTreeSet<_>>() == w, "the {k}-cells are printed as {:?}, should be {w:?}", p[k]);
    }
    let bm = c.boundary_map();
    ensure!(bm.len() == want.len(), "{} boundary maps, should be {}", bm.len(), want.len());
    let mut maps: Vec<D<i128>> = vec![];
    for (k, (m, basis)) in bm.iter().enumerate() {
        let names: Vec<String> = basis.iter().map(|x| x.to_string()).collect();
        let w: BTreeSet<String> = want[k].iter().map(|c| show_cell(c)).collect();
        ensure!(names.len() == w.len() && names.iter().cloned().collect::<BTreeSet<_>>() == w, "the basis in dimension {k} is {names:?}, should be {w:?}");
        let d = wide_d(m);
        let rows = if k == 0 { 1 } else { want[k - 1].len() };
        ensure!(d.len() == rows && d[0].len() == basis.len(), "boundary map {k} has size {:?}", m.size());
        if k == 0 { ensure!(d[0].iter().all(|x| *x == 0), "boundary map 0 is not zero"); }
        else {
            let low: BTreeMap<String, usize> = bm[k - 1].1.iter().enumerate().map(|(i, x)| (x.to_string(), i)).collect();
            for (j, cell) in basis.iter().enumerate() {
                let f = faces(&cell.to_vec());
                ensure!(d.iter().filter(|r| r[j] != 0).count() == 2 * k, "the boundary of {cell} does not have {} faces", 2 * k);
                for pair in f.chunks(2) {
                    let (a, b) = (d[low[&show_cell(&pair[0].2)]][j], d[low[&show_cell(&pair[1].2)]][j]);
                    ensure!(a.abs() == 1 && b == -a, "the boundary of {cell} has coefficients {a} and {b} at its opposite faces {} and {}", show_cell(&pair[0].2), show_cell(&pair[1].2));
                }
            }
            if k > 1 { zero_product(&maps[k - 1], &d, k)?; }
        }
        maps.push(d);
    }
    st.steps(total);
    st.outcome(want.iter().map(|x| x.len()).collect::<Vec<_>>());
    if total > homology { return Ok(()); }
    let want_h = show_homology(&swiatkowski(e, n), None);
    ensure!(show_homology(&maps, None) == want_h, "the boundary maps have the homology\n{}should be\n{want_h}", show_homology(&maps, None));
    let h = H!(c);
    ensure!(h.to_string() == want_h, "homology is\n{h}should be\n{want_h}");
    let names: Vec<Vec<String>> = bm.iter().map(|(_, b)| b.iter().map(|x| x.to_string()).collect()).collect();
    check_descriptions(&maps, &names, &h.get_description_of_cycles(), &h.get_description_of_boundaries(), want_h.lines().count())?;
    st.steps(2);
    st.outcome(want_h);
    Ok(())
}
fn zero_product(a: &D<i128>, b: &D<i128>, k: usize) -> Check {
    // column by column, sparsely
    for j in 0..b.first().map_or(0, |r| r.len()) {
        let mut s = vec![0i128; a.len()];
        for (i, r) in b.iter().enumerate() { if r[j] != 0 { for (x, row) in s.iter_mut().zip(a) { *x += row[i] * r[j]; } } }
        ensure!(s.iter().all(|x| *x == 0), "boundary map {} times boundary map {k} is not zero", k - 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
/// Farley and Sabalka's classification of a cell with respect to the numbered maximal tree.
fn critical(c: &Cell, t: &Tree) -> bool {
    let mut used = vec![false; t.n];
    for x in c { for v in closure(*x) { used[v] = true; } }
    c.iter().all(|x| match *x {
        CubeFactor::Vertex(v) => v == 0 || used[t.parent[v]],
        CubeFactor::Edge([a, b]) => !t.in_tree(a, b) || c.iter().any(|y| matches!(*y, CubeFactor::Vertex(v) if a < v && v < b && t.parent[v] == a)),
    })
}
/// Is the first thing that moves in a cell that is not critical an edge?
fn collapsible(c: &Cell, t: &Tree) -> bool {
    let mut used = vec![false; t.n];
    for x in c { for v in closure(*x) { used[v] = true; } }
    c.iter().filter_map(|x| match *x {
        CubeFactor::Vertex(v) => (v > 0 && !used[t.parent[v]]).then_some((v, false)),
        CubeFactor::Edge([a, b]) => (t.in_tree(a, b) && !c.iter().any(|y| matches!(*y, CubeFactor::Vertex(v) if a < v && v < b && t.parent[v] == a))).then_some((b, true)),
    }).min().is_some_and(|x| x.1)
}
type Ch = BTreeMap<String, i64>;
fn chain(v: Vector<i64, Cube>) -> Ch {
    let mut out = Ch::new();
    for (c, x) in v.into_iter() { *out.entry(show_cell(&sorted(x.to_vec()))).or_default() += c; }
    out.retain(|_, c| *c != 0);
    out
}
fn extend(f: &BTreeMap<String, Ch>, x: &Ch) -> Result<Ch, String> {
    let mut out = Ch::new();
    for (k, c) in x { for (l, d) in f.get(k).ok_or(format!("{k} is not a cell"))? { *out.entry(l.clone()).or_default() += c * d; } }
    out.retain(|_, c| *c != 0);
    Ok(out)
}
/// Boundaries, ends and the flow of every cell of the full complex.
fn flow_check(e: &Edges, n: usize, limit: usize, st: &mut Stats) -> Check {
    let g = SimpleGraph::subdivided_graph_from(&to_graph(e), n);
    let t = read_tree(&g)?;
    let all = cells(&t, n, limit);
    if all.iter().map(|x| x.len()).sum::<usize>() > limit { return Ok(()); }
    let crit: Vec<BTreeSet<String>> = all.iter().map(|d| d.iter().filter(|c| critical(c, &t)).map(|c| show_cell(c)).collect()).collect();
    ensure!(crit[0].len() == 1, "{} critical vertices", crit[0].len());
    let (mut bd, mut fl): (BTreeMap<String, Ch>, BTreeMap<String, Ch>) = Default::default();
    for (k, cs) in all.iter().enumerate() { for c in cs {
        let name = show_cell(c);
        let b = chain(Cube::from(c.clone()).get_boundary());
        let f = faces(c);
        ensure!(b.len() == f.len(), "the boundary of {name} is {b:?}");
        for p in f.chunks(2) {
            let (x, y) = (b.get(&show_cell(&p[0].2)), b.get(&show_cell(&p[1].2)));
            ensure!(x.is_some_and(|x| x.abs() == 1) && y == x.map(|x| -x).as_ref(), "the boundary of {name} is {b:?}, with {x:?} and {y:?} at opposite faces");
        }
        ensure!(k < 2 || extend(&bd, &b)?.is_empty(), "the boundary of the boundary of {name} is not zero");
        if k == 1 {
            let got: BTreeSet<String> = Cube::from(c.clone()).get_ends().iter().map(|x| show_cell(&sorted(x.to_vec()))).collect();
            ensure!(got == f.iter().map(|x| show_cell(&x.2)).collect(), "the ends of {name} are {got:?}");
        }
        bd.insert(name.clone(), b);
        let f = chain(Cube::from(c.clone()).flow(&g));
        ensure!(f.keys().all(|x| crit[k].contains(x)), "{name} flows to {f:?}, which is not a combination of critical {k}-cells");
        if crit[k].contains(&name) { ensure!(f == Ch::from([(name.clone(), 1)]), "the critical cell {name} flows to {f:?}"); }
        else if collapsible(c, &t) { ensure!(f.is_empty(), "the collapsible cell {name} flows to {f:?}"); }
        fl.insert(name, f);
    } }
    for (name, f) in &fl {
        let (l, r) = (extend(&fl, &bd[name])?, extend(&fl, &extend(&bd, f)?)?);
        ensure!(l == r, "the boundary of {name} flows to {l:?}, but the boundary of {f:?}, to which it flows, flows to {r:?}");
    }
    st.steps(3 * fl.len());
    st.outcome((fl.len(), crit.iter().map(|x| x.len()).collect::<Vec<_>>()));
    Ok(())
}
/// Critical cells do not flow anywhere, for numbers of points that have too many cells to follow all of them.
fn critical_flow_check(e: &Edges, n: usize, st: &mut Stats) -> Check {
    let g = SimpleGraph::subdivided_graph_from(&to_graph(e), n);
    let crit = critical_cells(&read_tree(&g)?, n);
    for c in crit.iter().flatten() {
        let name = show_cell(c);
        let f = chain(Cube::from(c.clone()).flow(&g));
        ensure!(f == Ch::from([(name.clone(), 1)]), "the critical cell {name} flows to {f:?}");
        st.step();
    }
    st.outcome(crit.iter().map(|x| x.len()).collect::<Vec<_>>());
    Ok(())
}
fn morse_check(e: &Edges, n: usize, big: usize, st: &mut Stats) -> Check {
    let g = to_graph(e);
    let sub = SimpleGraph::subdivided_graph_from(&g, n);
    let t = read_tree(&sub)?;
    let want: Vec<Vec<String>> = critical_cells(&t, n).iter().map(|d| d.iter().map(|c| show_cell(c)).collect()).collect();
    ensure!(want[0].len() == 1, "the critical vertices are {:?}", want[0]);
    let sw = swiatkowski(e, n);
    for upper in std::iter::once(None).chain((0..=want.len()).map(Some)) {
        morse_check_up_to(&g, &sub, n, upper, &want, &sw, if upper.is_none() { big } else { big / 2 }, st).map_err(|x| format!("{x} (dimension {upper:?})"))?;
    }
    Ok(())
}
fn morse_check_up_to(g: &topo_spaces::graph::Graph<i64>, sub: &SimpleGraph, n: usize, upper: Option<usize>, want: &[Vec<String>], sw: &Vec<D<i128>>, big: usize, st: &mut Stats) -> Check {
    let c = UdnMorseCplx::new(g, n, upper);
    let want = &want[..upper.map_or(want.len(), |u| want.len().min(u + 1))];
    let pr = printed(&c.to_string())?;
    ensure!(pr.len() == want.len(), "cells printed up to dimension {}, should be {}", pr.len(), want.len());
    for k in 0..=n + 1 {
        let got: Vec<String> = c.get_cells_of_dim(k).iter().map(|x| x.to_string()).collect();
        let w: BTreeSet<String> = want.get(k).cloned().unwrap_or_default().into_iter().collect();
        ensure!(got.len() == w.len() && got.iter().cloned().collect::<BTreeSet<_>>() == w, "the critical {k}-cells are {got:?}, should be {w:?}");
        if k < want.len() {
            ensure!(pr[k].iter().cloned().collect::<BTreeSet<_>>() == w && pr[k].len() == w.len(), "the {k}-cells are printed as {:?}", pr[k]);
            ensure!(c.to_string().lines().any(|l| l == format!("{k}-cells: {} cells in total", w.len())), "the number of {k}-cells is not printed as {}: {}", w.len(), clip(c.to_string()));
        }
    }
    st.step();
    let bm = c.boundary_map();
    ensure!(bm.len() == want.len(), "{} boundary maps, should be {}", bm.len(), want.len());
    let maps: Vec<D<i128>> = bm.iter().map(|x| wide_d(&x.0)).collect();
    let names: Vec<Vec<String>> = bm.iter().map(|(_, b)| b.iter().map(|x| x.to_string()).collect()).collect();
    for (k, w) in want.iter().enumerate() {
        ensure!(names[k].len() == w.len() && names[k].iter().collect::<BTreeSet<_>>() == w.iter().collect(), "the basis in dimension {k} is {:?}, should be {w:?}", names[k]);
        ensure!(bm[k].0.size() == (if k == 0 { 1 } else { want[k - 1].len() }, w.len()), "boundary map {k} has size {:?}", bm[k].0.size());
        if k > 1 { zero_product(&maps[k - 1], &maps[k], k)?; }
        if k == 0 || names[k].len() > big { continue; }
        // the boundary of a critical cell is what its boundary among all cells flows to
        for (j, cell) in bm[k].1.iter().enumerate() {
            let mut want = Ch::new();
            for (x, face) in Cube::from(sorted(cell.to_vec())).get_boundary().into_iter() { for (y, d) in chain(face.flow(sub)) { *want.entry(y).or_default() += x as i64 * d; } }
            want.retain(|_, x| *x != 0);
            let got: Ch = names[k - 1].iter().zip(&maps[k]).filter(|(_, r)| r[j] != 0).map(|(n, r)| (n.clone(), r[j] as i64)).collect();
            ensure!(got == want, "the boundary of {cell} is {got:?}, but its faces flow to {want:?}");
        }
    }
    ensure!(maps[0][0].iter().all(|x| *x == 0), "boundary map 0 is not zero");
    st.step();
    // the homology of the boundary maps, up to the dimension where the truncation does not matter
    let full = upper.is_none_or(|u| u >= n);
    let md = if full { None } else { upper.and_then(|u| u.checked_sub(1)) };
    if full || md.is_some() {
        let (a, b) = (show_homology(&maps, md), show_homology(sw, md));
        ensure!(a == b, "the boundary maps have the homology\n{a}should be\n{b}");
        st.step();
        st.outcome(b);
    }
    if want.iter().map(|x| x.len()).sum::<usize>() > big { return Ok(()); }
    let w = show_homology(&maps, None);
    let h = H!(c);
    ensure!(h.to_string() == w, "homology is\n{h}should be\n{w}");
    check_descriptions(&maps, &names, &h.get_description_of_cycles(), &h.get_description_of_boundaries(), w.lines().count())?;
    st.steps(2);
    Ok(())
}
pub fn c22(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    for (vn, len, ord, n) in t.pick(vec![(4usize, 4usize, true, 3usize), (3, 3, true, 4), (4, 4, true, 2), (5, 5, false, 3), (3, 4, false, 4), (3, 3, false, 5)], vec![(4, 4, true, 3), (5, 5, false, 3), (3, 3, false, 5), (3, 4, false, 4), (5, 5, true, 2)]) {
        let cases: Vec<(Edges, usize)> = graphs(vn, len, ord).into_iter().flat_map(|e| (1..=n).map(move |n| (e.clone(), n))).collect();
        v.push(list(&format!("graphs-{vn}-{len}-{n}"), &format!("all connected multigraphs with loops, up to {len} edges on up to {vn} vertices{}, 1 to {n} points, up to 3500 cells", if ord { ", in every order and orientation of the edges" } else { "" }), cases,
            move |(e, n), st| udc_check(e, *n, t.pick(150, 300), st)));
    }
    let named: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (1..=4usize).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= t.pick(100, 250)).collect();
    let more: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (5..=21usize).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= 200).collect();
    v.push(list("more points", "named graphs, 5 to 21 points, as long as the complex has at most 3500 cells", more, move |(e, n), st| udc_check(e, *n, t.pick(150, 300), st)));
    v.push(list("named", "named graphs (complete, bipartite, trees, polyhedra), 1 to 4 points, as long as the Swiatkowski complex has at most 100 (thorough: 250) generators and the complex at most 3500 cells", named, move |(e, n), st| udc_check(e, *n, t.pick(300, 600), st)));
    v
}
fn many_branches(k: usize) -> Vec<Edges> {
    vec![(1..=k).map(|i| (0, i)).collect(), vec![(0, 0); k], (0..k).map(|i| if i % 3 == 0 { (1, 0) } else { (0, 1) }).collect(),
        (0..k).map(|i| if i % 2 == 0 { (0, 0) } else { (0, 1 + i / 2) }).collect(), (0..k).map(|i| match i % 3 { 0 => (0, 1), 1 => (1, 1), _ => (0, 2 + i / 3) }).collect()]
}
pub fn c23(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    for (vn, len, ord, n, lim) in t.pick(vec![(4usize, 4usize, true, 4usize, 250usize), (5, 5, false, 5, 250), (6, 6, false, 4, 300)], vec![(4, 5, true, 5, 400), (6, 6, false, 6, 600)]) {
        let cases: Vec<(Edges, usize)> = graphs(vn, len, ord).into_iter().flat_map(|e| (1..=n).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= lim).collect();
        v.push(list(&format!("graphs-{vn}-{len}"), &format!("all connected multigraphs with loops, up to {len} edges on up to {vn} vertices{}, 1 to {n} points, as long as the Swiatkowski complex has at most {lim} generators", if ord { ", in every order and orientation of the edges" } else { "" }), cases,
            |(e, n), st| morse_check(e, *n, 150, st)));
    }
    let named: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (1..=t.pick(24usize, 30)).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= t.pick(400, 2000)).collect();
    v.push(list("named", "named graphs (complete, bipartite, trees, polyhedra), 1 to 24 (thorough: 30) points, as long as the Swiatkowski complex has at most 400 (thorough: 2000) generators", named, |(e, n), st| morse_check(e, *n, 150, st)));
    let branches: Vec<(Edges, usize)> = [19usize, 20, 21, 22, 25, 33].into_iter().flat_map(many_branches).flat_map(|e| (1..=2usize).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= t.pick(1200, 3000)).collect();
    v.push(list("many branches", &format!("stars, bouquets of loops, parallel edges, and combinations of them with 19 to 33 edges, 1 or 2 points, as long as the Swiatkowski complex has at most {} generators", t.pick(1200, 3000)), branches, |(e, n), st| morse_check(e, *n, 60, st)));
    let many: Vec<(Edges, usize)> = [vec![(0, 1), (0, 2), (0, 3)], vec![(0, 1), (1, 1)], vec![(0, 1), (1, 2), (1, 3)]].into_iter().flat_map(|e: Edges| t.pick(vec![22usize], vec![21, 22, 23, 26]).into_iter().map(move |n| (e.clone(), n))).collect();
    v.push(list("many points", "the star with three edges from two roots, and the lollipop, 22 points (thorough: 21 to 26)", many, |(e, n), st| morse_check(e, *n, 40, st)));
    let many: Vec<(Edges, usize)> = [vec![(0, 1), (0, 2), (0, 3)], vec![(0, 1), (1, 1)], vec![(0, 1), (1, 2), (1, 3)], vec![(0, 1), (1, 2), (2, 0), (2, 3)], vec![(0, 1), (0, 1), (1, 0)], vec![(0, 0), (0, 1), (1, 1)], vec![(0, 1), (0, 2), (0, 3), (0, 4)], vec![(0, 0), (0, 0)]].into_iter().flat_map(|e: Edges| t.pick(vec![10usize, 22], vec![10, 15, 21, 22, 23, 26]).into_iter().map(move |n| (e.clone(), n))).collect();
    v.push(list("flow-many", "the critical cells of eight small graphs flow to themselves, 10 and 22 points (thorough: up to 26)", many, |(e, n), st| critical_flow_check(e, *n, st)));
    for (vn, len, ord, n) in t.pick(vec![(4usize, 4usize, true, 3usize), (5, 5, false, 3), (3, 2, true, 4), (3, 3, false, 5)], vec![(4, 4, true, 3), (5, 5, false, 3), (3, 3, false, 5)]) {
        let cases: Vec<(Edges, usize)> = graphs(vn, len, ord).into_iter().flat_map(|e| (1..=n).map(move |n| (e.clone(), n))).collect();
        v.push(list(&format!("flow-{vn}-{len}-{n}"), &format!("boundary and flow of every cell of the full complex, for all connected multigraphs with loops, up to {len} edges on up to {vn} vertices{}, 1 to {n} points, up to {} cells", if ord { ", in every order and orientation of the edges" } else { "" }, t.pick(2500, 8000)), cases,
            move |(e, n), st| flow_check(e, *n, t.pick(2500, 8000), st)));
    }
    let named: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (1..=4usize).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= t.pick(200, 600)).collect();
    v.push(list("flow-named", "boundary and flow of every cell of the full complex of named graphs, 1 to 4 points, up to 2500 (thorough: 20000) cells", named, move |(e, n), st| flow_check(e, *n, t.pick(2500, 20000), st)));
    v
}

// ---------------------------------------------------------------- C24
type Move = [usize; 2];
fn apart(a: Move, b: Move) -> bool { a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1] }
fn back(a: Move) -> Move { [a[1], a[0]] }
/// The least representative of a word of moves up to exchanging disjoint neighbours and cancelling inverse neighbours.
fn normal_form(w: &[Move]) -> Vec<Move> {
    let mut w = w.to_vec();
    'again: loop {
        for i in 0..w.len() { for j in i + 1..w.len() {
            if w[j] == back(w[i]) { w.remove(j); w.remove(i); continue 'again; }
            if !apart(w[i], w[j]) { break; }
        } }
        break;
    }
    let mut out = vec![];
    while !w.is_empty() {
        let k = (0..w.len()).filter(|&k| w[..k].iter().all(|x| apart(*x, w[k]))).min_by_key(|&k| w[k]).unwrap();
        out.push(w.remove(k));
    }
    out
}
/// Least number of rounds in which disjoint moves are made at the same time.
fn rounds(w: &[Move]) -> Vec<BTreeSet<Move>> {
    let mut out: Vec<BTreeSet<Move>> = vec![];
    for m in w {
        let k = (0..out.len()).rev().find(|&k| out[k].iter().any(|x| !apart(*x, *m))).map_or(0, |k| k + 1);
        if k == out.len() { out.push(BTreeSet::new()); }
        out[k].insert(*m);
    }
    out
}
fn check_reduced(p: &EdgePath, nf: &[Move]) -> Check {
    for s in p.iter() {
        ensure!(!s.is_empty(), "{p:?} has an empty step");
        for (i, a) in s.iter().enumerate() { for b in &s[i + 1..] { ensure!(apart(*a, *b), "{p:?} makes the moves {a:?} and {b:?} at the same time"); } }
    }
    let flat: Vec<Move> = p.iter().flatten().cloned().collect();
    ensure!(flat.len() == nf.len(), "{p:?} has {} moves, could have {}", flat.len(), nf.len());
    ensure!(normal_form(&flat) == nf, "{p:?} is not equivalent, should be {nf:?} up to commuting moves");
    let got: Vec<BTreeSet<Move>> = p.iter().map(|s| s.iter().cloned().collect()).collect();
    ensure!(got == rounds(nf), "{p:?} does not make each move as early as possible: {:?}", rounds(nf));
    Ok(())
}
/// Moves labelled tokens along a path; every move of a step goes to a free end along an edge.
fn run(p: &EdgePath, start: &[usize], edge: &dyn Fn(usize, usize) -> bool) -> Result<Vec<usize>, String> {
    let mut pos = start.to_vec();
    for s in p.iter() {
        let mut next = pos.clone();
        for m in s {
            ensure!(edge(m[0].min(m[1]), m[0].max(m[1])), "{p:?} moves along {m:?}, which is not an edge");
            let i = pos.iter().position(|x| *x == m[0]).ok_or(format!("{p:?} moves along {m:?} when the points are at {pos:?}"))?;
            ensure!(!pos.contains(&m[1]), "{p:?} moves along {m:?} when the points are at {pos:?}");
            next[i] = m[1];
        }
        for (i, a) in s.iter().enumerate() { for b in &s[i + 1..] { ensure!(apart(*a, *b), "{p:?} makes the moves {a:?} and {b:?} at the same time"); } }
        pos = next;
    }
    Ok(pos)
}
fn check_permutation(p: &EdgePath, want: &[usize]) -> Check {
    macro_rules! go { ($($k: literal)*) => { match want.len() { $($k => {
        let q = p.evaluate_permutation::<$k>();
        let mut a = [0; $k];
        a.copy_from_slice(want);
        ensure!(q == ConstPermutation::from(a), "the permutation of {p:?} is {q:?}, should be {want:?}");
    })* _ => panic!("no such n") } } }
    go!(1 2 3 4 5 6 7 8 9 10 11 12 13 16 17 20 22 25 33 40);
    Ok(())
}
fn word_check(w: &Vec<Move>, groups: bool, st: &mut Stats) -> Check {
    let nf = normal_form(w);
    for mask in 0..if groups { 1u32 << w.len().saturating_sub(1) } else { 1 } {
        // neighbouring disjoint moves may be given as one step
        let mut steps: Vec<Vec<Move>> = vec![];
        let mut ok = true;
        for (i, m) in w.iter().enumerate() {
            if i > 0 && i < 33 && mask >> (i - 1) & 1 == 1 { let l = steps.last_mut().unwrap(); ok &= l.iter().all(|x| apart(*x, *m)); l.push(*m); } else { steps.push(vec![*m]); }
        }
        if !ok { continue; }
        let p = EdgePath::from(steps);
        check_reduced(&p.clone().reduce_to_geodesic(), &nf)?;
        let r: Vec<Move> = w.iter().rev().map(|x| back(*x)).collect();
        check_reduced(&p.clone().inverse(), &normal_form(&r)).map_err(|e| format!("inverse: {e}"))?;
        ensure!(*p.clone().composed_with(p.clone().inverse()).reduce_to_geodesic() == vec![] as Vec<Vec<Move>>, "{p:?} composed with its inverse is not trivial");
        ensure!(p.clone().inverse().composed_with(p.clone()).reduce_to_geodesic() == EdgePath::trivial_path(), "the inverse of {p:?} composed with it is not trivial");
        let twice: Vec<Move> = w.iter().chain(w).cloned().collect();
        let two = p.clone().composed_with(p.clone());
        ensure!(two.iter().flatten().cloned().collect::<Vec<_>>() == twice, "{p:?} composed with itself is {two:?}");
        ensure!(p.clone().composed_with(EdgePath::trivial_path()) == p && EdgePath::trivial_path().composed_with(p.clone()) == p, "composing {p:?} with the trivial path changes it");
        st.steps(6);
    }
    st.outcome(nf);
    Ok(())
}
/// All motions of n labelled tokens from 0, …, n-1 with the given number of moves that end on the same vertices.
struct Motions { edges: Edges, n: usize, len: usize }
fn motions(m: &Motions, w: &mut Vec<Move>, pos: &mut Vec<usize>, st: &mut Stats) -> Check {
    if pos.iter().all(|x| *x < m.n) {
        let p = EdgePath::from(w.iter().map(|x| vec![*x]).collect::<Vec<_>>());
        let edge = |a: usize, b: usize| m.edges.contains(&(a, b));
        let start: Vec<usize> = (0..m.n).collect();
        check_permutation(&p, pos)?;
        let r = p.clone().reduce_to_geodesic();
        let end = run(&r, &start, &edge)?;
        ensure!(end == *pos, "{p:?} moves the points to {pos:?}, reduced to {r:?} it moves them to {end:?}");
        check_permutation(&r, pos).map_err(|x| format!("{p:?} moves the points to {pos:?}; reduced, {x}"))?;
        let i = p.clone().inverse();
        let mut inv = vec![0; m.n];
        for (k, x) in pos.iter().enumerate() { inv[*x] = k; }
        check_permutation(&i, &inv)?;
        ensure!(run(&i, &start, &edge)? == inv, "the inverse {i:?} of {p:?} moves the points to {:?}, should be {inv:?}", run(&i, &start, &edge));
        let two = p.clone().composed_with(p.clone());
        let sq: Vec<usize> = pos.iter().map(|x| pos[*x]).collect();
        check_permutation(&two, &sq)?;
        st.steps(5);
        st.outcome(normal_form(w));
    }
    if w.len() == m.len { return Ok(()); }
    for i in 0..m.n { for &(a, b) in &m.edges { for (x, y) in [(a, b), (b, a)] {
        if pos[i] != x || pos.contains(&y) { continue; }
        // cannot come back in time
        let away: usize = pos.iter().enumerate().filter(|(k, p)| (if *k == i { y } else { **p }) >= m.n).count();
        if w.len() + 1 + away > m.len { continue; }
        w.push([x, y]); pos[i] = y;
        motions(m, w, pos, st)?;
        w.pop(); pos[i] = x;
    } } }
    Ok(())
}
/// Every vertex and edge of the complex: the paths between them and the base point.
fn path_check(e: &Edges, n: usize, limit: usize, st: &mut Stats) -> Check {
    let g = SimpleGraph::subdivided_graph_from(&to_graph(e), n);
    let t = read_tree(&g)?;
    let all = cells(&t, n, usize::MAX);
    if all.iter().take(2).map(|x| x.len()).sum::<usize>() > limit { return Ok(()); }
    let edges: BTreeSet<(usize, usize)> = t.edges().into_iter().collect();
    let edge = |a: usize, b: usize| edges.contains(&(a, b));
    let base: Vec<usize> = (0..n).collect();
    let set = |v: &[usize]| -> BTreeSet<usize> { v.iter().cloned().collect() };
    for c in &all[0] {
        let from: Vec<usize> = c.iter().map(|x| closure(*x)[0]).collect();
        let p = g.get_edge_path_to_from_base_pt(Cube::from(c.clone()), true);
        let end = run(&p, &from, &edge)?;
        ensure!(set(&end) == set(&base), "the path {p:?} from {from:?} to the base point ends at {end:?}");
        let moves: Vec<Move> = p.iter().flatten().cloned().collect();
        check_reduced(&p, &normal_form(&moves))?;
        ensure!(moves.iter().all(|m| m[1] < m[0] && t.parent[m[0]] == m[1]), "the path {p:?} from {from:?} to the base point does not go down the tree");
        let q = g.get_edge_path_to_from_base_pt(Cube::from(c.clone()), false);
        let end = run(&q, &base, &edge)?;
        ensure!(set(&end) == set(&from), "the path {q:?} from the base point to {from:?} ends at {end:?}");
        ensure!(p.clone().composed_with(q.clone()).reduce_to_geodesic() == EdgePath::trivial_path(), "the paths {p:?} and {q:?} between the base point and {from:?} are not inverse");
        st.steps(3);
    }
    for c in all.get(1).unwrap_or(&vec![]) {
        let name = show_cell(c);
        let p = g.get_edge_path(Cube::from(c.clone()));
        let end = run(&p, &base, &edge)?;
        ensure!(set(&end) == set(&base), "the path {p:?} of {name} ends at {end:?}");
        check_permutation(&p, &end).map_err(|x| format!("path of {name}: {x}"))?;
        let moves: Vec<Move> = p.iter().flatten().cloned().collect();
        check_reduced(&p, &normal_form(&moves))?;
        // as a chain it flows to what the edge flows to, in the direction that leads down
        let mut total = Ch::new();
        let mut pos = set(&base);
        for m in &moves {
            pos.remove(&m[0]);
            let cell: Cell = sorted(pos.iter().map(|v| CubeFactor::Vertex(*v)).chain([CubeFactor::Edge([m[0].min(m[1]), m[0].max(m[1])])]).collect());
            pos.insert(m[1]);
            let to = show_cell(&pos.iter().map(|v| CubeFactor::Vertex(*v)).collect::<Vec<_>>());
            let sign = chain(Cube::from(cell.clone()).get_boundary())[&to];
            for (k, x) in chain(Cube::from(cell).flow(&g)) { *total.entry(k).or_default() += sign * x; }
        }
        total.retain(|_, x| *x != 0);
        let down = show_cell(&faces(c)[0].2);
        let sign = chain(Cube::from(c.clone()).get_boundary())[&down];
        let mut want = chain(Cube::from(c.clone()).flow(&g));
        for x in want.values_mut() { *x *= sign; }
        ensure!(total == want, "the path {p:?} of {name} flows to {total:?}, should be {want:?}");
        if critical(c, &t) { ensure!(want == Ch::from([(name.clone(), sign)]), "the critical cell {name} flows to {want:?}"); }
        st.steps(3);
        st.outcome(moves.len());
    }
    Ok(())
}
pub fn c24(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let line = |k: usize| -> Vec<Move> { (0..k).flat_map(|i| [[i, i + 1], [i + 1, i]]).collect() };
    let alphabets: Vec<(&str, Vec<Move>, usize, usize, bool)> = vec![
        ("line-3", line(3), 7, 8, false), ("line-2", line(2), 8, 10, false), ("line-4", line(4), 5, 6, true), ("star-3", vec![[0, 1], [1, 0], [1, 2], [2, 1], [1, 3], [3, 1]], 5, 7, false),
        ("matching-3", vec![[0, 1], [1, 0], [2, 3], [3, 2], [4, 5], [5, 4]], 6, 7, true), ("triangle-and-edge", vec![[0, 1], [1, 0], [1, 2], [2, 1], [0, 2], [2, 0], [3, 4], [4, 3]], 5, 7, false),
        ("line-5", line(5), 5, 6, true), ("matching-2", vec![[0, 1], [1, 0], [2, 3], [3, 2]], 8, 10, true)];
    for (name, a, q, th, groups) in alphabets {
        let l = t.pick(q, th);
        let k = a.len() as u64;
        let total: u64 = (0..=l).map(|i| pw(k, i)).sum();
        v.push(space(&format!("words-{name}"), &format!("all words of up to {l} of the {k} moves along {name}{}", if groups { ", with every grouping of disjoint neighbours into steps" } else { "" }), total,
            move |mut i| { for m in 0..=l { let c = pw(k, m); if i < c { return Some(word(i, m, &a)); } i -= c; } None },
            move |w: &Vec<Move>, st| word_check(w, groups, st)));
    }
    // longer words: two short words repeated, undone in part, and one inside the other
    let wide: Vec<Move> = [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (7, 8), (9, 10), (11, 12)].iter().flat_map(|&(a, b)| [[a, b], [b, a]]).collect();
    let nw = wide.len() as u64;
    let reps = t.pick(4u64, 7);
    v.push(space("long words", &format!("words u^p v^q u^-r over {nw} moves for all u of two moves and v of one or two moves in steps, p, q, r up to {} times 3", reps - 1), pw(nw, 3) * 2 * pw(reps, 3),
        move |i| {
            let d = digits(i, &[reps, reps, reps, 2, pw(nw, 3)])?;
            let x = word(d[4], 3, &wide);
            let (u, v): (Vec<Move>, Vec<Move>) = (x[..2].to_vec(), if d[3] == 0 { vec![x[2]] } else { vec![x[2], x[0]] });
            let inv: Vec<Move> = u.iter().rev().map(|m| back(*m)).collect();
            Some([(u, d[0]), (v, d[1]), (inv, d[2])].iter().flat_map(|(w, k)| (0..3 * *k).flat_map(|_| w.clone()).collect::<Vec<_>>()).collect())
        },
        |w: &Vec<Move>, st| word_check(w, false, st)));
    v.push(space("wide steps", "up to eight moves at the same time along disjoint edges, forth and back in every order of three steps, each any of sixteen subsets", 16 * 16 * 16 * 2,
        |i| { let d = digits(i, &[16, 16, 16, 2])?; Some((d[0], d[1], d[2], d[3] == 1)) },
        |&(a, b, c, back_first), st| {
            let set = |k: u64, dir: bool| -> Vec<Move> { (0..8usize).filter(|i| [255u64, 0b10101010, 0b1111, 0b11110000, 0b11001100, 1, 128, 0b10000001, 0b1110, 0b1100011, 0b111, 0b100, 0b11111, 0b1011011, 0b11111110, 0][k as usize] >> i & 1 == 1).map(|i| if dir { [2 * i, 2 * i + 1] } else { [2 * i + 1, 2 * i] }).collect() };
            let steps: Vec<Vec<Move>> = [set(a, true), set(b, back_first), set(c, !back_first)].into_iter().filter(|s| !s.is_empty()).collect();
            let flat: Vec<Move> = steps.iter().flatten().cloned().collect();
            check_reduced(&EdgePath::from(steps.clone()).reduce_to_geodesic(), &normal_form(&flat))?;
            let r: Vec<Move> = flat.iter().rev().map(|x| back(*x)).collect();
            check_reduced(&EdgePath::from(steps).inverse(), &normal_form(&r)).map_err(|e| format!("inverse: {e}"))?;
            st.steps(2);
            st.outcome(flat);
            Ok(())
        }));
    v.push(space("wider steps", "19 to 33 moves at the same time along disjoint edges, forth and back in every order of three steps, each any of six subsets", 6 * 6 * 6 * 2 * 5,
        |i| { let d = digits(i, &[6, 6, 6, 2, 5])?; Some((d[0], d[1], d[2], d[3] == 1, [19usize, 21, 22, 24, 33][d[4] as usize])) },
        |&(a, b, c, back_first, n), st| {
            let set = |k: u64, dir: bool| -> Vec<Move> { (0..n).filter(|&i| match k { 0 => true, 1 => i % 2 == 0, 2 => i > 0, 3 => i + 1 < n, 4 => i + 1 == n, _ => i == 0 || i > n / 2 }).map(|i| if dir { [2 * i, 2 * i + 1] } else { [2 * i + 1, 2 * i] }).collect() };
            let steps: Vec<Vec<Move>> = [set(a, true), set(b, back_first), set(c, !back_first)].into_iter().collect();
            let flat: Vec<Move> = steps.iter().flatten().cloned().collect();
            check_reduced(&EdgePath::from(steps.clone()).reduce_to_geodesic(), &normal_form(&flat))?;
            let r: Vec<Move> = flat.iter().rev().map(|x| back(*x)).collect();
            check_reduced(&EdgePath::from(steps).inverse(), &normal_form(&r)).map_err(|e| format!("inverse: {e}"))?;
            st.steps(2);
            st.outcome(flat);
            Ok(())
        }));
    v.push(space("turning all at once", "2 to 13, 16, 17, 20, 22, 25, 33 and 40 points that all move at the same moment along a cycle without a free vertex, one to six times, moves listed upwards, downwards or from the middle", 19 * 6 * 3,
        |i| { let d = digits(i, &[3, 6, 19])?; Some(([2usize, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 22, 25, 33, 40][d[2] as usize], d[1] as usize + 1, d[0])) },
        |&(n, k, how), st| {
            let mut s: Vec<Move> = (0..n).map(|i| [i, (i + 1) % n]).collect();
            match how { 0 => {} 1 => s.reverse(), _ => s.rotate_left(n / 2) }
            let want: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
            check_permutation(&EdgePath::from(vec![s; k]), &want)?;
            st.step();
            st.outcome((n, k));
            Ok(())
        }));
    // vertices far apart: nothing may depend on their numbers but which are equal
    fn far(v: usize, k: u64) -> usize { match k { 0 => 64 * v, 1 => 256 * v, 2 => 1 + 65536 * v, 3 => v << 32, 4 => usize::MAX - v, _ => [0, 63, 64, 255, 256, 65535, 65536, usize::MAX][v] } }
    v.push(space("far vertices", "all words of up to 4 moves along three disjoint edges, a path of three and a triangle, on vertices with numbers that differ by multiples of 64, 256, 65536, 2^32 or are next to the largest", 3 * 6 * 2401,
        |i| {
            let d = digits(i, &[7, 7, 7, 7, 6, 3])?;
            let edges = [[[0, 1], [2, 3], [4, 5]], [[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 2], [0, 2]]][d[5] as usize];
            if (0..3).any(|k| d[k] == 6 && d[k + 1] != 6) { return None; }
            Some(d[..4].iter().filter(|x| **x < 6).map(|&x| { let [a, b] = edges[(x / 2) as usize]; let (a, b) = (far(a, d[4]), far(b, d[4])); if x % 2 == 0 { [a, b] } else { [b, a] } }).collect::<Vec<Move>>())
        },
        |w: &Vec<Move>, st| word_check(w, true, st)));
    v.push(space("far vertices, permutations", "up to 13 points, any two of which change places one to three times through two vertices with large numbers", 12 * 12 * 12 * 3 * 6,
        |i| { let d = digits(i, &[6, 3, 12, 12, 12])?; let n = d[4] as usize + 2; if d[2] == d[3] || d[2] as usize >= n || d[3] as usize >= n { return None; } Some((n, d[2] as usize, d[3] as usize, d[1] + 1, d[0])) },
        |&(n, a, b, times, k), st| {
            let (x, y) = (far(5, k), far(7, k).max(far(5, k) - 1));
            if x == y || x < n || y < n { return Ok(()); }
            let mut w: Vec<Move> = vec![];
            let mut want: Vec<usize> = (0..n).collect();
            for _ in 0..times { w.extend([[a, x], [b, y], [x, b], [y, a]]); want.swap(a, b); }
            let p = EdgePath::from(w.iter().map(|m| vec![*m]).collect::<Vec<_>>());
            check_permutation(&p, &want)?;
            check_permutation(&p.reduce_to_geodesic(), &want)?;
            st.steps(2);
            st.outcome((n, k, want));
            Ok(())
        }));
    // several points changing places at the same moment: what the permutation follows are the points, not the vertices
    let nv = 5usize;
    v.push(space("simultaneous", "1 to 5 points on five vertices: all pairs of steps that are injections of the occupied vertices and end where they start, moves listed upwards or downwards", 120 * 120 * 5 * 4,
        move |i| {
            let d = digits(i, &[2, 2, 5, 120, 120])?;
            let n = d[2] as usize + 1;
            let (a, b) = (nth_perm(d[3], nv), nth_perm(d[4], nv));
            if (0..n).any(|x| b[a[x]] >= n) { return None; }
            let occupied: BTreeSet<usize> = (0..n).map(|x| a[x]).collect();
            // vertices without a point do not matter: keep one representative
            if !(n..nv).map(|x| a[x]).collect::<Vec<_>>().is_sorted() || !(0..nv).filter(|x| !occupied.contains(x)).map(|x| b[x]).collect::<Vec<_>>().is_sorted() { return None; }
            let mut s: Vec<Vec<Move>> = vec![(0..n).map(|x| [x, a[x]]).collect(), occupied.iter().map(|&x| [x, b[x]]).collect()];
            for (k, t) in s.iter_mut().enumerate() { t.retain(|m| m[0] != m[1]); if d[k] == 1 { t.reverse(); } }
            Some((s, (0..n).map(|x| b[a[x]]).collect::<Vec<_>>()))
        },
        |(s, want), st| {
            let p = EdgePath::from(s.clone());
            check_permutation(&p, want)?;
            let twice: Vec<usize> = want.iter().map(|x| want[*x]).collect();
            check_permutation(&p.clone().composed_with(p), &twice)?;
            st.steps(2);
            st.outcome(want.clone());
            Ok(())
        }));
    // many points: rotations of a cycle with one free vertex, and exchanges at a vertex with a free branch
    v.push(space("many points", "1 to 13, 16, 17, 20 and 33 points on a cycle with one free vertex turned up to that many times, and any two neighbours exchanged one to three times at a free vertex next to both", 17 * 3 * 40,
        |i| { let d = digits(i, &[40, 3, 17])?; let n = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 33][d[2] as usize]; if d[0] as usize > n { return None; } Some((n, d[1], d[0] as usize)) },
        |&(n, kind, k), st| {
            let mut w: Vec<Move> = vec![];
            let mut want: Vec<usize> = (0..n).collect();
            if kind < 2 {
                for _ in 0..k { let round: Vec<Move> = (0..=n).rev().map(|i| [i, (i + 1) % (n + 1)]).collect(); w.extend(round[1..].iter().cloned()); w.push([n, 0]); }
                for x in want.iter_mut() { *x = (*x + k) % n; }
                if kind == 1 { w = w.iter().rev().map(|m| back(*m)).collect(); for (i, x) in want.iter_mut().enumerate() { *x = (i + n * k - k) % n; } }
            } else {
                // i and i+1 change places through the free vertices n and n+1
                if k + 1 >= n { return Ok(()); }
                for r in 0..1 + k % 3 { for i in [k, (k + 1 + r) % (n - 1)] {
                    w.extend([[i, n], [i + 1, n + 1], [n, i + 1], [n + 1, i]]);
                    for x in want.iter_mut() { *x = if *x == i { i + 1 } else if *x == i + 1 { i } else { *x }; }
                } }
            }
            check_permutation(&EdgePath::from(w.iter().map(|m| vec![*m]).collect::<Vec<_>>()), &want)?;
            let p = EdgePath::from(w.iter().map(|m| vec![*m]).collect::<Vec<_>>()).reduce_to_geodesic();
            check_permutation(&p, &want)?;
            if w.len() < 150 { check_reduced(&p, &normal_form(&w))?; }
            st.steps(2);
            st.outcome(want);
            Ok(())
        }));
    let m: Vec<(Edges, usize, usize)> = vec![
        (vec![(0, 1), (1, 2), (2, 3), (3, 4)], 2, t.pick(9, 12)), (vec![(0, 1), (1, 2), (1, 3)], 2, t.pick(10, 13)), (vec![(0, 1), (1, 2), (0, 2)], 2, t.pick(10, 14)),
        (vec![(0, 1), (1, 2), (2, 3), (2, 4), (4, 5)], 3, t.pick(9, 11)), (vec![(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], 3, t.pick(10, 14)), (vec![(0, 1), (1, 2), (2, 3), (1, 4), (4, 5)], 3, t.pick(9, 11)),
        (vec![(0, 1), (1, 2), (2, 3), (0, 3), (1, 3)], 2, t.pick(8, 11)), (vec![(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5), (1, 4)], 4, t.pick(8, 10)), (vec![(0, 1), (0, 2)], 1, 12), (vec![(0, 1), (1, 2), (0, 2)], 1, t.pick(12, 16))];
    v.push(list("motions", "all motions of 1 to 4 labelled points on ten small graphs, of up to 8 to 12 moves (thorough: 10 to 16), that end on the vertices they start from", m.into_iter().map(|(e, n, l)| (e, n, l)).collect(), |(e, n, l), st| {
        motions(&Motions { edges: e.clone(), n: *n, len: *l }, &mut vec![], &mut (0..*n).collect(), st)
    }));
    for (vn, len, ord, n) in t.pick(vec![(4usize, 4usize, false, 4usize), (4, 3, true, 3)], vec![(4, 4, true, 4), (5, 5, false, 4), (4, 3, false, 6)]) {
        let cases: Vec<(Edges, usize)> = graphs(vn, len, ord).into_iter().flat_map(|e| (1..=n).map(move |n| (e.clone(), n))).collect();
        v.push(list(&format!("paths-{vn}-{len}-{n}"), &format!("the paths of all vertices and edges of the configuration spaces of all connected multigraphs with loops, up to {len} edges on up to {vn} vertices{}, 1 to {n} points, as long as there are at most {} of them", if ord { ", in every order and orientation of the edges" } else { "" }, t.pick(3000, 10000)), cases,
            move |(e, n), st| path_check(e, *n, t.pick(3000, 10000), st)));
    }
    let named: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (1..=5usize).map(move |n| (e.clone(), n))).filter(|(e, n)| size(e, *n) <= t.pick(300, 1500)).collect();
    v.push(list("paths-named", "the paths of all vertices and edges of the configuration spaces of named graphs, 1 to 5 points, as long as there are at most 5000 (thorough: 60000) of them", named, move |(e, n), st| path_check(e, *n, t.pick(5000, 60000), st)));
    v
}
