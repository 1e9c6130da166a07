//! C17: simplicial complexes.  C18: integral homology.
use super::mat::{id, mul, D};
use super::mat::{known_complexes, patterned};
use crate::engine::*;
use crate::{ensure, Tier};
use alg::formal_sum_impl;
use alg::lin_alg::{Matrix, Module, Vector};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use topo_spaces::simplicial::{Simplex, SimplicialCplx, VertexLabel};
use topo_spaces::{simplex, simplicial_cplx, Complex, IntegralHomology, H};

// ---------------------------------------------------------------- reference
/// Labels in order of first appearance and every face as a sorted list of positions.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Ref { labels: Vec<usize>, faces: BTreeSet<Vec<usize>> }
impl Ref {
    fn new() -> Self { Ref { labels: vec![], faces: BTreeSet::new() } }
    fn attach(&mut self, s: &[usize]) {
        for x in s { if !self.labels.contains(x) { self.labels.push(*x); } }
        let mut p: Vec<usize> = s.iter().map(|x| self.labels.iter().position(|y| x == y).unwrap()).collect();
        p.sort();
        for m in 1u32..1 << p.len() { self.faces.insert((0..p.len()).filter(|i| m >> i & 1 == 1).map(|i| p[i]).collect()); }
    }
    fn dim(&self) -> usize { self.faces.iter().map(|f| f.len()).max().unwrap() - 1 }
    fn connected(&self) -> bool {
        let n = self.labels.len();
        let mut c: Vec<usize> = (0..n).collect();
        for f in self.faces.iter().filter(|f| f.len() == 2) { let (a, b) = (c[f[0]], c[f[1]]); for x in c.iter_mut() { if *x == a { *x = b; } } }
        c.iter().all(|x| *x == c[0])
    }
}
fn compare<T: VertexLabel + Debug>(c: &SimplicialCplx<T>, r: &Ref, lab: &dyn Fn(usize) -> T, counts: bool) -> Check {
    let labels: Vec<T> = r.labels.iter().map(|&x| lab(x)).collect();
    ensure!(c.n_vertices() == labels.len(), "n_vertices is {}, should be {}", c.n_vertices(), labels.len());
    ensure!(*c.get_labeled_zero_skeleton() == labels, "the zero skeleton is {:?}, should be {labels:?}", c.get_labeled_zero_skeleton());
    ensure!(c.is_connected() == r.connected(), "is_connected is {}", c.is_connected());
    if r.faces.is_empty() { return Ok(()); }
    let d = r.dim();
    ensure!(c.dim() == d, "dim is {}, should be {d}", c.dim());
    if counts {
        for k in 0..=d + 2 {
            let want = r.faces.iter().filter(|f| f.len() == k + 1).count();
            ensure!(c.n_cells_of_dim(k) == want, "n_cells_of_dim({k}) is {}, should be {want}", c.n_cells_of_dim(k));
        }
    }
    let bm = c.boundary_map();
    ensure!(bm.len() == d + 1, "{} boundary maps, should be {}", bm.len(), d + 1);
    let mut lower: Vec<Vec<usize>> = vec![];
    let mut lower_m: Option<D<i64>> = None;
    for (k, (m, basis)) in bm.iter().enumerate() {
        let mut cells = vec![];
        for s in basis {
            ensure!(s.dim == k && s.vertices_labels.len() == k + 1, "basis element {s:?} among the {k}-cells");
            let p: Vec<Option<usize>> = s.vertices_labels.iter().map(|l| labels.iter().position(|x| x == l)).collect();
            ensure!(p.iter().all(|x| x.is_some()), "basis element {s:?} has an unknown vertex");
            let p: Vec<usize> = p.into_iter().flatten().collect();
            ensure!(p.windows(2).all(|w| w[0] < w[1]), "basis element {s:?} does not list its vertices in order");
            cells.push(p);
        }
        let want: BTreeSet<_> = r.faces.iter().filter(|f| f.len() == k + 1).cloned().collect();
        ensure!(cells.len() == want.len() && cells.iter().cloned().collect::<BTreeSet<_>>() == want, "the {k}-cells are {basis:?}, should be each of {want:?} once");
        let (n, w) = (if k == 0 { 1 } else { lower.len() }, cells.len());
        ensure!(m.size_as_range() == (0..n, 0..w), "boundary map {k} has size {:?}, should be {:?}", m.size_as_range(), (n, w));
        let got: D<i64> = (0..n).map(|i| (0..w).map(|j| m[(i, j)]).collect()).collect();
        if k == 0 { ensure!(got[0].iter().all(|x| *x == 0), "boundary map 0 is {got:?}"); }
        else {
            let mut eps = 0;
            for (j, cell) in cells.iter().enumerate() { for (i, f) in lower.iter().enumerate() {
                let miss: Vec<usize> = (0..=k).filter(|&t| !f.contains(&cell[t])).collect();
                if miss.len() == 1 {
                    ensure!(got[i][j].abs() == 1, "boundary of {:?} has coefficient {} at its face {:?}", basis[j], got[i][j], bm[k - 1].1[i]);
                    let e = if miss[0] % 2 == 0 { got[i][j] } else { -got[i][j] };
                    if eps == 0 { eps = e; }
                    ensure!(eps == e, "signs of the boundary of {:?} do not alternate as those of the other {k}-cells do: {got:?}", basis[j]);
                } else { ensure!(got[i][j] == 0, "boundary of {:?} has coefficient {} at {:?}, which is not a face", basis[j], got[i][j], bm[k - 1].1[i]); }
            } }
            if k > 1 { if let Some(l) = &lower_m { ensure!(mul(l, &got).iter().flatten().all(|x| *x == 0), "boundary map {} times boundary map {k} is not zero", k - 1); } }
        }
        lower = cells;
        lower_m = Some(got);
    }
    Ok(())
}
fn make(h: &[Vec<usize>]) -> SimplicialCplx<usize> {
    let mut c = SimplicialCplx::new();
    for s in h { c.attach(Simplex::from(s.clone())); }
    c
}

struct Attach { n: usize, ordered: bool, depth: usize }
impl Model for Attach {
    type State = (Vec<Vec<usize>>, Ref);
    type Op = Vec<usize>;
    type Key = Ref;
    fn n_init(&self) -> u64 { 1 }
    fn init(&self, _: u64) -> Result<Self::State, String> {
        let c: SimplicialCplx<usize> = SimplicialCplx::new();
        ensure!(c.n_vertices() == 0 && c.is_connected() && c.n_cells_of_dim(0) == 0, "the empty complex is not empty");
        Ok((vec![], Ref::new()))
    }
    fn show_init(&self, _: u64) -> String { "the empty complex".into() }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &Self::State) -> Vec<Vec<usize>> {
        if self.ordered { return subsequences(self.n); }
        // labels are only compared, so a new label may as well be the next one
        let k = s.1.labels.len();
        (1u32..1 << self.n).map(|m| (0..self.n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>())
            .filter(|v: &Vec<usize>| { let new: Vec<_> = v.iter().filter(|&&x| x >= k).collect(); new.iter().enumerate().all(|(i, &&x)| x == k + i) }).collect()
    }
    fn apply(&self, s: &Self::State, op: &Vec<usize>) -> Result<Option<Self::State>, String> {
        let (mut h, mut r) = s.clone();
        h.push(op.clone());
        r.attach(op);
        compare(&make(&h), &r, &|x| x, true)?;
        Ok(Some((h, r)))
    }
    fn key(&self, s: &Self::State) -> Ref { s.1.clone() }
}
/// All nonempty sequences of distinct labels below n.
fn subsequences(n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut todo: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    while let Some(v) = todo.pop() { for i in 0..n { if !v.contains(&i) { let mut w = v.clone(); w.push(i); todo.push(w); } } out.push(v); }
    out.sort();
    out
}

pub fn c17(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    v.push(bfs("attach-4", "all histories of attaching simplices, each an ordered choice of 4 labels", Attach { n: 4, ordered: true, depth: t.pick(8, 10) }));
    v.push(bfs("attach-5", "all histories of attaching simplices on 5 labels (new labels in increasing order)", Attach { n: 5, ordered: false, depth: t.pick(6, 8) }));
    v.push(bfs("attach-6", "all histories of attaching simplices on 6 labels (new labels in increasing order)", Attach { n: 6, ordered: false, depth: t.pick(3, 5) }));
    // sequences without merging equal states
    for (lb, len) in t.pick([(3, 4), (4, 3)], [(3, 5), (4, 4)]) {
    let sq = subsequences(lb);
    let n = sq.len() as u64;
    v.push(space(&format!("sequences-{lb}-{len}"), &format!("all sequences of {len} simplices, each an ordered choice of {lb} labels, without merging"), pw(n, len),
        move |i| Some(word(i, len, &sq)),
        |h: &Vec<Vec<usize>>, st| {
            let mut r = Ref::new();
            for s in h { r.attach(s); }
            st.steps(h.len());
            st.outcome((&r.labels, r.faces.len()));
            compare(&make(h), &r, &|x| x, true)?;
            // built from strings and from the first simplex
            let lab = |x: usize| format!("{}", ["b", "aa", "a", "B"][x]);
            let mut c = SimplicialCplx::new_from(Simplex::from(h[0].iter().map(|&x| lab(x)).collect()));
            for s in &h[1..] { c.attach(Simplex::from(s.iter().map(|&x| lab(x)).collect())); }
            compare(&c, &r, &lab, true)
        }));
    }
    // starting from a zero skeleton
    let sq = subsequences(4);
    let n = sq.len() as u64;
    v.push(space("zero-skeleton", "complexes on 1 to 4 given vertices, and attaching any two ordered simplices on 4 labels to them", 4 * n * n,
        move |i| Some(((i / (n * n)) as usize + 1, sq[(i / n % n) as usize].clone(), sq[(i % n) as usize].clone())),
        |(k, a, b), st| {
            let mut c = SimplicialCplx::new_from_zero_skeleton((0..*k).collect::<Vec<usize>>());
            let mut r = Ref::new();
            for x in 0..*k { r.attach(&[x]); }
            compare(&c, &r, &|x| x, true)?;
            for s in [a, b] { c.attach(Simplex::from(s.clone())); r.attach(s); compare(&c, &r, &|x| x, true)?; }
            st.steps(3);
            st.outcome(r.faces.len());
            Ok(())
        }));
    // many vertices: simplices on both sides of the 64-bit words
    let bases: Vec<usize> = t.pick(vec![62, 63, 64, 65, 127, 128, 129], (56..=72).chain(120..=136).chain(190..=194).collect());
    let nb = bases.len() as u64;
    let pool = |n: usize| -> Vec<usize> { let mut p: Vec<usize> = [0, 1, 62, 63, 64, 65, 127, 128, 129, n - 1].into_iter().filter(|&x| x < n).collect(); p.sort(); p.dedup(); p };
    let kinds = t.pick(9u64, 10);
    v.push(space("wide", "62 to 194 vertices, and two simplices on any vertices next to word boundaries, before or after the other vertices", nb * (1 << kinds) * 3,
        move |i| {
            let d = digits(i, &[nb, 1 << kinds, 3])?;
            let n = bases[d[0] as usize];
            let p = pool(n);
            if d[1] >> p.len() > 0 { return None; }
            let s: Vec<usize> = (0..p.len()).filter(|k| d[1] >> k & 1 == 1).map(|k| p[k]).collect();
            if s.len() < 2 || s.len() > 6 { return None; }
            Some((n, s, d[2]))
        },
        |(n, s, how), st| {
            let (c, r) = wide(*n, s, *how);
            st.steps(3);
            st.outcome((n, s.len(), how));
            compare(&c, &r, &|x| x, false)
        }));
    // counting the faces of big simplices
    let top = t.pick(60u64, 64);
    v.push(space("counts", &format!("the number of k-cells of a simplex with 1 to {top} vertices, alone and with a second simplex of the same size sharing any number of vertices"), top * (top + 1) * top,
        move |i| { let d = digits(i, &[top, top + 1, top])?; if d[1] > d[0] + 1 { return None; } Some((d[0] as usize + 1, d[1] as usize, d[2] as usize)) },
        |&(n, share, k), st| {
            let mut c = SimplicialCplx::new();
            c.attach(Simplex::from((0..n).collect::<Vec<_>>()));
            if share > 0 { c.attach(Simplex::from((n - share..2 * n - share).collect::<Vec<_>>())); }
            let b = |n: usize| -> i128 { if k + 1 > n { 0 } else { (0..=k).fold(1i128, |x, i| x * (n - i) as i128 / (i + 1) as i128) } };
            let want = if share == 0 || share == n { b(n) } else { 2 * b(n) - b(share) };
            st.step();
            st.outcome(want);
            // intermediate products of the count have to fit the machine word
            if want * 64 > i64::MAX as i128 { return Ok(()); }
            ensure!(c.n_cells_of_dim(k) as i128 == want, "n_cells_of_dim({k}) is {}, should be {want}", c.n_cells_of_dim(k));
            ensure!(c.is_connected() && c.dim() == n - 1, "connected {}, dim {}", c.is_connected(), c.dim());
            Ok(())
        }));
    v.push(list("rejected", "simplices without vertices or with a repeated vertex", vec![vec![], vec![0usize, 0], vec![0, 1, 0], vec![1, 1, 2], vec![2, 0, 1, 2], vec![0, 1, 2, 3, 3]],
        |s, st| {
            st.step();
            for pre in [vec![], vec![0usize, 1, 2]] {
                ensure!(guard(|| { let mut c = if pre.is_empty() { SimplicialCplx::new() } else { SimplicialCplx::new_from(Simplex::from(pre.clone())) }; c.attach(Simplex::from(s.clone())); }).is_err(), "attaching {s:?} to {pre:?} was accepted");
            }
            Ok(())
        }));
    v.push(list("macros", "simplex! and simplicial_cplx!", vec![()],
        |_, st| {
            st.steps(3);
            ensure!(simplex!("x") == Simplex { dim: 0, vertices_labels: vec!["x".to_string()] }, "simplex!(\"x\")");
            ensure!(simplex!("b", "a", 3) == Simplex { dim: 2, vertices_labels: vec!["b".to_string(), "a".to_string(), "3".to_string()] }, "simplex! of three labels");
            let c = simplicial_cplx!({"0", "1", "2"}, {"2", "3"}, {"4"});
            let mut r = Ref::new();
            for s in [vec![0, 1, 2], vec![2, 3], vec![4]] { r.attach(&s); }
            compare(&c, &r, &|x| x.to_string(), true)?;
            // a long list, and a large simplex in it
            let c = simplicial_cplx!({0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 6}, {6, 7}, {7, 8}, {8, 9}, {9, 10}, {10, 11}, {11, 12}, {12, 13}, {13, 14}, {14, 15}, {15, 16}, {16, 17}, {17, 18}, {18, 19}, {19, 20}, {20, 21}, {21, 22}, {22, 23}, {23, 24}, {30, 31}, {24, 25}, {25, 26}, {26, 27},
                {40, 41, 42}, {43}, {44}, {45}, {46}, {47}, {48});
            let mut r = Ref::new();
            for i in 0..24 { r.attach(&[i, i + 1]); }
            r.attach(&[30, 31]);
            for i in 24..27 { r.attach(&[i, i + 1]); }
            r.attach(&[40, 41, 42]);
            for i in 43..49 { r.attach(&[i]); }
            compare(&c, &r, &|x| x.to_string(), true)?;
            let s = simplex!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32);
            ensure!(s.dim == 32 && s.vertices_labels == (0..33).map(|x: usize| x.to_string()).collect::<Vec<_>>(), "simplex! of 33 labels is {s:?}");
            Ok(())
        }));
    let sides: Vec<(usize, usize)> = t.pick(vec![(150, 2), (300, 2), (700, 100), (1300, 50), (1300, 100)], vec![(150, 2), (257, 2), (300, 2), (513, 2), (700, 30), (700, 100), (1300, 50), (1300, 100), (2100, 70), (2100, 150)]);
    v.push(list("many vertices", "150 to 1300 (thorough 2100) vertices in a row, with simplices of equal size joining every vertex to the next, or none, or all but one, in any of three orders, or all at one vertex: sizes and connectivity", sides.into_iter().flat_map(|(n, b)| (0..8usize).map(move |k| (n, b, k))).collect(), |&(n, b, k), st| {
        let mut c = SimplicialCplx::new_from_zero_skeleton((0..n).collect::<Vec<usize>>());
        // blocks of b vertices, the next one starting at the last vertex of the one before
        let mut blocks: Vec<Vec<usize>> = (0..n - 1).step_by(b - 1).map(|i| (i..n.min(i + b)).collect()).collect();
        let m = blocks.len();
        match k {
            0 => blocks.clear(),
            1 => {}
            2 => blocks.swap(0, m - 1),
            3 => { blocks.remove(m - 2); }
            4 => { blocks.remove(m / 2); blocks.reverse(); }
            5 => for x in blocks.iter_mut().skip(1) { x[0] = 0; },
            6 => { blocks.reverse(); for x in blocks.iter_mut().skip(1) { x[0] = n - 1; } }
            _ => { blocks.remove(0); }
        }
        for x in &blocks { c.attach(Simplex::from(x.clone())); }
        st.steps(blocks.len());
        st.outcome((n, b, k));
        let dim = blocks.iter().map(|x| x.len() - 1).max().unwrap_or(0);
        ensure!(c.n_vertices() == n && c.dim() == dim, "{} vertices, dimension {}", c.n_vertices(), c.dim());
        // (many simplices at one vertex are too slow to count)
        if !matches!(k, 5 | 6) {
            let edges: usize = blocks.iter().map(|x| x.len() * (x.len() - 1) / 2).sum();
            ensure!(c.n_cells_of_dim(0) == n && c.n_cells_of_dim(1) == edges, "{} vertices and {} edges, should be {n} and {edges}", c.n_cells_of_dim(0), c.n_cells_of_dim(1));
        }
        // reference: one component for all that is joined, unless a vertex is left out
        let mut comp: Vec<usize> = (0..n).collect();
        fn top(c: &[usize], mut x: usize) -> usize { while c[x] != x { x = c[x]; } x }
        for x in &blocks { for y in x { let (a, b) = (top(&comp, x[0]), top(&comp, *y)); comp[a.max(b)] = a.min(b); } }
        let want = (0..n).all(|x| top(&comp, x) == 0);
        ensure!(c.is_connected() == want, "is_connected is {}", !want);
        Ok(())
    }));
    v
}
fn wide(n: usize, s: &[usize], how: u64) -> (SimplicialCplx<usize>, Ref) {
    let mut c = SimplicialCplx::new();
    let mut r = Ref::new();
    let mut at = |s: Vec<usize>| { c.attach(Simplex::from(s.clone())); r.attach(&s); };
    let h = s.len() / 2 + 1;
    match how {
        0 => { for x in 0..n { at(vec![x]); } at(s.to_vec()); at(s[s.len() - h..].to_vec()); }
        1 => { for x in 0..n - 1 { at(vec![x, x + 1]); } at(s[..h].to_vec()); at(s.to_vec()); }
        _ => { at(s[..h].to_vec()); for x in 0..n { at(vec![x]); } at(s.iter().map(|x| n - 1 - x).collect()); at(s.to_vec()); }
    }
    (c, r)
}

// ---------------------------------------------------------------- C18
/// Invariant factors (positive, without ones removed) of an integer matrix, by naive elimination.
pub fn divisors(a: &D<i128>) -> Vec<i128> {
    let mut a = a.clone();
    let (n, m) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut out = vec![];
    let mut t = 0;
    while t < n && t < m {
        // the smallest entry of the rest
        let Some((i, j)) = (t..n).flat_map(|i| (t..m).map(move |j| (i, j))).filter(|&(i, j)| a[i][j] != 0).min_by_key(|&(i, j)| a[i][j].abs()) else { break };
        a.swap(t, i);
        for r in a.iter_mut() { r.swap(t, j); }
        let p = a[t][t];
        let mut again = false;
        for i in t + 1..n { let q = a[i][t] / p; if q != 0 { for j in t..m { let x = a[t][j]; a[i][j] -= q * x; } } if a[i][t] != 0 { again = true; } }
        for j in t + 1..m { let q = a[t][j] / p; if q != 0 { for i in t..n { let x = a[i][t]; a[i][j] -= q * x; } } if a[t][j] != 0 { again = true; } }
        if again { continue; }
        if let Some((i, _)) = (t + 1..n).flat_map(|i| (t + 1..m).map(move |j| (i, j))).find(|&(i, j)| a[i][j] % p != 0) {
            for j in t..m { let x = a[i][j]; a[t][j] += x; }
            continue;
        }
        out.push(p.abs());
        t += 1;
    }
    out
}
pub fn show_module(free: usize, div: &[i128]) -> String {
    let mut parts = vec![];
    match free { 0 => {} 1 => parts.push("Z".to_string()), f => parts.push(format!("Z^{f}")) }
    let mut i = 0;
    let div: Vec<i128> = div.iter().cloned().filter(|d| *d != 1).collect();
    while i < div.len() {
        let k = div[i..].iter().take_while(|d| **d == div[i]).count();
        parts.push(if k == 1 { format!("Z_{}", div[i]) } else { format!("(Z_{})^{k}", div[i]) });
        i += k;
    }
    if parts.is_empty() { "0".into() } else { parts.join(" + ") }
}
/// The printed homology of the chain complex whose boundary maps are given (the first is zero).
pub fn show_homology(maps: &[D<i128>], max_dim: Option<usize>) -> String {
    let div: Vec<Vec<i128>> = maps.iter().map(divisors).chain([vec![]]).collect();
    let mut mods: Vec<String> = (0..maps.len()).map(|k| show_module(maps[k].first().map_or(0, |r| r.len()) - div[k].len() - div[k + 1].len(), &div[k + 1])).collect();
    if let Some(m) = max_dim { mods.truncate(m + 1); }
    while mods.last().is_some_and(|s| s == "0") { mods.pop(); }
    mods.iter().enumerate().map(|(i, s)| format!("dim {i}: {s},\n")).collect()
}
pub fn wide_d(m: &Matrix<i64>) -> D<i128> {
    let (r, c) = m.size_as_range();
    r.map(|i| c.clone().map(|j| m[(i, j)] as i128).collect()).collect()
}
/// Row-style Hermite form of the lattice spanned by the rows.
pub fn hermite(rows: &[Vec<i128>]) -> Vec<Vec<i128>> {
    let mut a: Vec<Vec<i128>> = rows.to_vec();
    let m = a.first().map_or(0, |r| r.len());
    let mut t = 0;
    for c in 0..m {
        loop {
            let nz: Vec<usize> = (t..a.len()).filter(|&i| a[i][c] != 0).collect();
            let Some(&p) = nz.iter().min_by_key(|&&i| a[i][c].abs()) else { break };
            a.swap(t, p);
            let mut done = true;
            for i in t + 1..a.len() { let q = a[i][c] / a[t][c]; if q != 0 { for j in 0..m { let x = a[t][j]; a[i][j] -= q * x; } } if a[i][c] != 0 { done = false; } }
            if done {
                if a[t][c] < 0 { for x in a[t].iter_mut() { *x = -*x; } }
                for i in 0..t { let q = a[i][c].div_euclid(a[t][c]); for j in 0..m { let x = a[t][j]; a[i][j] -= q * x; } }
                t += 1;
                break;
            }
        }
    }
    a.truncate(t);
    a
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct E(usize, usize);
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "e{}_{}", self.0, self.1) } }
formal_sum_impl! { E }
/// A chain complex given by its boundary matrices.
pub struct Chain(Vec<D<i64>>);
impl Complex for Chain {
    type Cell = E;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<E>)> {
        self.0.iter().enumerate().map(|(k, d)| (Matrix::from_array(d.clone()), (0..d[0].len()).map(|i| E(k, i)).collect())).collect()
    }
}
/// Reads "a", "-a", "3·a + (-2)·b" into coefficients.
pub fn parse(s: &str) -> Result<BTreeMap<String, i128>, String> {
    let mut out = BTreeMap::new();
    if s == "0" { return Ok(out); }
    for (k, term) in s.split(" + ").enumerate() {
        let (c, b) = match term.split_once('·') {
            Some((c, b)) => (if k == 0 { c } else { c.strip_prefix('(').and_then(|c| c.strip_suffix(')')).ok_or(format!("cannot read {term} in {s}"))? }.parse::<i128>().map_err(|_| format!("cannot read {term} in {s}"))?, b),
            None if k == 0 => match term.strip_prefix('-') { Some(b) => (-1, b), None => (1, term) },
            None => return Err(format!("cannot read {term} in {s}")),
        };
        if c == 0 || out.insert(b.to_string(), c).is_some() { return Err(format!("{b} is listed twice or with coefficient zero in {s}")); }
    }
    Ok(out)
}
/// The vectors of a description, by dimension, as coefficients over the given names.
pub fn described(text: &str, what: &str, names: &[Vec<String>]) -> Result<Vec<Vec<Vec<i128>>>, String> {
    let mut out: Vec<Vec<Vec<i128>>> = vec![];
    for line in text.lines() {
        if let Some(v) = line.strip_prefix('\t') {
            let v = v.strip_suffix(", ").ok_or(format!("unexpected line {line:?}"))?;
            let k = out.len().checked_sub(1).ok_or(format!("unexpected line {line:?}"))?;
            let mut c = parse(v)?;
            let row = names[k].iter().map(|n| c.remove(n).unwrap_or(0)).collect();
            if !c.is_empty() { return Err(format!("{v} names unknown {k}-cells")); }
            out[k].push(row);
        } else {
            if line != format!("{}-{what}: ", out.len()) || out.len() >= names.len() { return Err(format!("unexpected line {line:?}")); }
            out.push(vec![]);
        }
    }
    Ok(out)
}
/// Cycles and boundaries of the chain complex, as described by the homology.
pub fn check_descriptions(maps: &[D<i128>], names: &[Vec<String>], cyc: &str, bnd: &str, dims: usize) -> Check {
    let z = described(cyc, "cycles", names)?;
    let b = described(bnd, "boundaries", names)?;
    ensure!(z.len() == dims && b.len() == dims, "cycles in {} and boundaries in {} dimensions, should be {dims}", z.len(), b.len());
    for k in 0..dims {
        let d = &maps[k];
        let n = names[k].len();
        for c in &z[k] { ensure!(d.iter().all(|row| row.iter().zip(c).map(|(x, y)| x * y).sum::<i128>() == 0), "the {k}-cycle {c:?} is not a cycle"); }
        let want = n - divisors(d).len();
        ensure!(z[k].len() == want, "{} {k}-cycles, should be {want}", z[k].len());
        if want > 0 { let e = divisors(&z[k]); ensure!(e.len() == want && e.iter().all(|x| *x == 1), "the {k}-cycles {:?} are not a basis of all cycles", z[k]); }
        let im: Vec<Vec<i128>> = if k + 1 < maps.len() { (0..maps[k + 1][0].len()).map(|j| maps[k + 1].iter().map(|r| r[j]).collect()).collect() } else { vec![] };
        let (h, g) = (hermite(&im), hermite(&b[k]));
        ensure!(h == g, "the {k}-boundaries {:?} do not span the boundaries {h:?}", b[k]);
        ensure!(b[k].len() == h.len(), "the {k}-boundaries {:?} are not independent", b[k]);
    }
    Ok(())
}
fn chain_check(maps: &Vec<D<i64>>, st: &mut Stats) -> Check {
    let c = Chain(maps.clone());
    let w: Vec<D<i128>> = maps.iter().map(|m| m.iter().map(|r| r.iter().map(|x| *x as i128).collect()).collect()).collect();
    let names: Vec<Vec<String>> = maps.iter().enumerate().map(|(k, d)| (0..d[0].len()).map(|i| E(k, i).to_string()).collect()).collect();
    for md in [None, Some(0), Some(1), Some(2), Some(7)] {
        let h = IntegralHomology::new(&c, md);
        let want = show_homology(&w, md);
        ensure!(h.to_string() == want, "homology up to {md:?} is\n{h}should be\n{want}");
        check_descriptions(&w, &names, &h.get_description_of_cycles(), &h.get_description_of_boundaries(), want.lines().count()).map_err(|e| format!("{e} (up to {md:?})"))?;
        st.step();
        st.outcome(want);
    }
    Ok(())
}
/// Chain complexes 0 <- Z^a <- Z^b <- Z^c with d1 d2 = 0, entries of d1 and d2 given.
fn two_maps(a: usize, b: usize, c: usize, w: &[i64]) -> Option<Vec<D<i64>>> {
    let d1: D<i64> = (0..a).map(|i| w[i * b..(i + 1) * b].to_vec()).collect();
    let d2: D<i64> = (0..b).map(|i| w[a * b + i * c..a * b + (i + 1) * c].to_vec()).collect();
    if mul(&d1, &d2).iter().flatten().any(|x| *x != 0) { return None; }
    Some(vec![vec![vec![0; a]], d1, d2])
}
fn complex_check(r: &Ref, st: &mut Stats) -> Check {
    let mut c: SimplicialCplx<String> = SimplicialCplx::new();
    // labels in order, then the maximal simplices
    for l in &r.labels { c.attach(Simplex::from(vec![l.to_string()])); }
    for f in r.faces.iter().filter(|f| !r.faces.iter().any(|g| g.len() == f.len() + 1 && f.iter().all(|x| g.contains(x)))) { c.attach(Simplex::from(f.iter().map(|&x| r.labels[x].to_string()).collect())); }
    let maps = ref_maps(r);
    let want = show_homology(&maps, None);
    let got = H!(c).to_string();
    ensure!(got == want, "homology is\n{got}should be\n{want}");
    let want1 = show_homology(&maps, Some(1));
    let got1 = H!(c, max_dim = 1).to_string();
    ensure!(got1 == want1, "homology up to dimension 1 is\n{got1}should be\n{want1}");
    st.steps(2);
    st.outcome(want);
    Ok(())
}
fn ref_maps(r: &Ref) -> Vec<D<i128>> {
    let mut out = vec![vec![vec![0; r.labels.len()]]];
    for k in 1..=r.dim() {
        let lo: Vec<&Vec<usize>> = r.faces.iter().filter(|f| f.len() == k).collect();
        let hi: Vec<&Vec<usize>> = r.faces.iter().filter(|f| f.len() == k + 1).collect();
        let mut m = vec![vec![0; hi.len()]; lo.len()];
        for (j, f) in hi.iter().enumerate() { for t in 0..=k { let mut g = (*f).clone(); g.remove(t); let i = lo.iter().position(|x| **x == g).unwrap(); m[i][j] = if t % 2 == 0 { 1 } else { -1 }; } }
        out.push(m);
    }
    out
}
fn from_facets(fs: &[Vec<usize>]) -> Ref { let mut r = Ref::new(); for f in fs { r.attach(f); } r }
fn combos(n: usize, k: usize) -> Vec<Vec<usize>> { (0u32..1 << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect() }

pub fn c18(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    let al = |k: i64| -> Vec<i64> { (-k..=k).collect() };
    let shapes: Vec<(usize, usize, usize, i64)> = t.pick(
        vec![(1, 1, 1, 6), (1, 2, 1, 4), (2, 1, 1, 4), (1, 1, 2, 4), (1, 2, 2, 2), (2, 2, 1, 2), (2, 2, 2, 1), (1, 3, 1, 2), (1, 3, 2, 1), (2, 3, 1, 1), (3, 2, 1, 1)],
        vec![(1, 1, 1, 12), (1, 2, 1, 9), (2, 1, 1, 9), (1, 1, 2, 9), (1, 2, 2, 4), (2, 2, 1, 4), (2, 2, 2, 2), (1, 3, 1, 4), (1, 3, 2, 2), (2, 3, 1, 2), (3, 2, 1, 2), (2, 3, 2, 1), (1, 3, 3, 1), (3, 3, 1, 1), (3, 2, 2, 1), (2, 2, 3, 1), (1, 2, 3, 2)]);
    for (a, b, c, k) in shapes {
        let al = al(k);
        let nal = al.len() as u64;
        v.push(space(&format!("chain-{a}-{b}-{c}-{k}"), &format!("all chain complexes 0 <- Z^{a} <- Z^{b} <- Z^{c} with entries up to {k} in absolute value, all truncations, and their cycles and boundaries"), pw(nal, a * b + b * c),
            move |i| two_maps(a, b, c, &word(i, a * b + b * c, &al)), chain_check));
    }
    // torsion: a single map into Z^b, followed by nothing
    for (b, c, k) in t.pick(vec![(2usize, 2usize, 8i64), (2, 3, 3), (3, 2, 3), (3, 3, 1), (2, 4, 1), (4, 2, 1)], vec![(2, 2, 16), (2, 3, 4), (3, 2, 4), (3, 3, 2), (2, 4, 2), (4, 2, 2)]) {
        let al = al(k);
        let nal = al.len() as u64;
        v.push(space(&format!("torsion-{b}-{c}-{k}"), &format!("all maps Z^{c} -> Z^{b} with entries up to {k}, as boundary maps of degree 1 and of degree 2"), pw(nal, b * c),
            move |i| { let w = word(i, b * c, &al); Some((0..b).map(|r| w[r * c..(r + 1) * c].to_vec()).collect::<D<i64>>()) },
            |d, st| { let b = d.len(); chain_check(&vec![vec![vec![0; b]], d.clone()], st)?; chain_check(&vec![vec![vec![0; 1]], vec![vec![0; b]], d.clone()], st) }));
    }
    v.push(space("diagonal", "diagonal boundary maps with entries 0 to 12 in any order, size 4, and the same times unimodular matrices", pw(13, 4) * 2,
        move |i| { let d = digits(i, &[13, 13, 13, 13, 2])?; if t.pick(true, false) && d[..4].iter().any(|x| ![0, 1, 2, 3, 4, 6, 12].contains(x)) { return None; } Some(([d[0] as i64, d[1] as i64, d[2] as i64, d[3] as i64], d[4] == 1)) },
        |&(d, mix), st| {
            let mut m: D<i64> = (0..4).map(|i| (0..4).map(|j| if i == j { d[i] } else { 0 }).collect()).collect();
            if mix {
                let mut l = id::<i64>(4);
                let mut u = id::<i64>(4);
                for i in 0..4 { for j in 0..i { l[i][j] = [1, -1, 0][(i + j) % 3]; u[j][i] = [0, 1, 1][(i * j) % 3]; } }
                m = mul(&mul(&l, &m), &u);
            }
            chain_check(&vec![vec![vec![0; 4]], m.clone()], st)?;
            // all chain groups nonzero and two torsion groups
            chain_check(&vec![vec![vec![0; 1]], vec![vec![0; 4]], m.clone(), vec![vec![0; 4]; 4], m], st)
        }));
    let big: Vec<i64> = vec![0, 1, 97, 100, 1024, 30030, -65537, 1 << 20, 999983];
    let nb = big.len() as u64;
    v.push(space("large torsion", "diagonal boundary maps of size 3 with large entries (up to a product of 2*10^7), and times unimodular matrices (10^5)", pw(nb, 3) * 2,
        move |i| { let d = digits(i, &[nb, nb, nb, 2])?; Some(([big[d[0] as usize], big[d[1] as usize], big[d[2] as usize]], d[3] == 1)) },
        |&(d, mix), st| {
            let mut m: D<i64> = (0..3).map(|i| (0..3).map(|j| if i == j { d[i] } else { 0 }).collect()).collect();
            if d.iter().filter(|x| **x != 0).map(|x| x.abs()).product::<i64>() > if mix { 100_000 } else { 20_000_000 } { return Ok(()); } // may overflow 64 bits on the way
            if mix {
                m = mul(&mul(&vec![vec![1, 0, 0], vec![1, 1, 0], vec![0, -1, 1]], &m), &vec![vec![1, 1, 0], vec![0, 1, 0], vec![0, 0, 1]]);
            }
            chain_check(&vec![vec![vec![0; 3]], m], st)
        }));
    // long complexes: in every other degree a map times k, and zero, or the identity, in between
    v.push(space("long", "complexes 0 <- Z^r <- Z^r <- ... of up to 14 degrees, every second map zero and the others multiplication by one of seven numbers, in turn or all the same", 14 * 2 * 7 * 4,
        |i| { let d = digits(i, &[14, 2, 7, 4])?; Some((d[0] as usize + 1, d[1] as usize, d[2] as usize, d[3] as usize)) },
        |&(len, r, k, step), st| {
            let ks = [0i64, 1, 2, 3, 4, 6, 12];
            let r = r + 1;
            let maps: Vec<D<i64>> = (0..len).map(|j| if j == 0 { vec![vec![0; r]] } else if j % 2 == 1 { vec![vec![0; r]; r] } else { (0..r).map(|a| (0..r).map(|b| if a == b { ks[(k + (j / 2 + a) * step) % 7] } else { 0 }).collect()).collect() }).collect();
            chain_check(&maps, st)
        }));
    let m = t.pick(14, 24);
    v.push(list("patterned", &format!("diagonal, triangular, banded, incidence, rank-one and block boundary maps with 1 to {m} rows, and transposes, in degrees 1 and 2"), patterned(m),
        |(_, d), st| { let b = d.len(); chain_check(&vec![vec![vec![0; b]], d.clone()], st)?; chain_check(&vec![vec![vec![0; 1]], vec![vec![0; b]], d.clone()], st) }));
    v.push(list("known complexes", &format!("the chain complexes of simplices and spheres on up to {} vertices, the torus, the projective plane, the Klein bottle and the dunce hat, with cycles and boundaries", t.pick(6, 7)), known_complexes(t.pick(6, 7)),
        |(_, maps), st| chain_check(maps, st)));
    // simplicial complexes
    for n in 1..=5usize {
        let tri = combos(n, 3);
        let ed = combos(n, 2);
        // 1-skeleton free, triangles only where their edges are there
        if n <= 4 || t.pick(false, true) {
            let (ne, nt) = (ed.len(), tri.len());
            v.push(space(&format!("cplx-{n}"), &format!("all complexes of dimension up to 2 on {n} vertices"), 1 << (ne + nt),
                move |i| {
                    let mut f: Vec<Vec<usize>> = (0..n).map(|x| vec![x]).collect();
                    f.extend((0..ne).filter(|k| i >> k & 1 == 1).map(|k| ed[k].clone()));
                    for k in 0..nt { if i >> (ne + k) & 1 == 1 { let t = &tri[k]; if !(0..3).all(|s| { let mut e = t.clone(); e.remove(s); f.contains(&e) }) { return None; } f.push(t.clone()); } }
                    Some(from_facets(&f))
                }, complex_check));
        }
    }
    let tri = combos(5, 3);
    let tet = combos(5, 4);
    v.push(space("cplx-5-full", "all complexes of dimension up to 4 on 5 vertices with all edges", 1 << 16,
        move |i| {
            let mut f: Vec<Vec<usize>> = combos(5, 2);
            f.extend((0..10).filter(|k| i >> k & 1 == 1).map(|k| tri[k].clone()));
            for k in 0..5 { if i >> (10 + k) & 1 == 1 { let t = &tet[k]; if !(0..4).all(|s| { let mut e = t.clone(); e.remove(s); f.contains(&e) }) { return None; } f.push(t.clone()); } }
            if i >> 15 == 1 { if (i >> 10) & 31 != 31 { return None; } f.push((0..5).collect()); }
            Some(from_facets(&f))
        }, complex_check));
    let tri = combos(6, 3);
    v.push(space("cplx-6", &t.pick("all complexes with all edges and exactly ten triangles on 6 vertices, where two given ones are there", "all complexes with all edges and at most ten triangles on 6 vertices").to_string(), 1 << 20,
        move |i| {
            if t.pick((i as u32).count_ones() != 10 || i & 3 != 3, (i as u32).count_ones() > 10) { return None; }
            let mut f: Vec<Vec<usize>> = combos(6, 2);
            f.extend((0..20).filter(|k| i >> k & 1 == 1).map(|k| tri[k].clone()));
            Some(from_facets(&f))
        }, complex_check));
    v.push(list("spaces", "spheres, simplices, torus, Klein bottle, projective plane, Moore spaces, wedges, many pieces, complete graphs, full skeleta, suspension, with vertices named in several orders", named(t.pick(4, 8), t.pick(6, 12), t.pick(7, 9)),
        |(facets, want), st| {
            complex_check(&from_facets(facets), st)?;
            let mut c: SimplicialCplx<String> = SimplicialCplx::new();
            for f in facets { c.attach(Simplex::from(f.iter().map(|x| x.to_string()).collect())); }
            ensure!(H!(c).to_string() == *want, "homology is\n{}should be\n{want}", H!(c));
            Ok(())
        }));
    // more than twenty different torsion coefficients
    v.push(list("many divisors", "diagonal boundary maps with 18 to 26 different entries 1, 2, 4, ..., in either order, with another column or row or none, and the modules", (18..=26usize).flat_map(|n| (0..6usize).map(move |k| (n, k))).collect(), |&(n, k), st| {
        let e: Vec<i64> = (0..n).map(|i| 1i64 << i).collect();
        let (r, c) = (n + (k / 2 == 1) as usize, n + (k / 2 == 2) as usize);
        let m: D<i64> = (0..r).map(|i| (0..c).map(|j| if i == j && i < n { if k % 2 == 0 { e[i] } else { e[n - 1 - i] } } else { 0 }).collect()).collect();
        // (the matrix of the change of basis stays small for diagonal maps in this order)
        if k % 2 == 0 { chain_check(&vec![vec![vec![0; r]], m], st)?; }
        let l: Vec<(i64, usize)> = e.iter().map(|&d| (d, 1 + (k % 3))).collect();
        let flat: Vec<i128> = l.iter().flat_map(|&(d, k)| vec![d as i128; k]).collect();
        let x = || Module::new(k, l.clone());
        ensure!(x().to_string() == show_module(k, &flat), "printed as {}, should be {}", x(), show_module(k, &flat));
        ensure!(x().is_isomorphic_to(x()) && x().is_isomorphic_to(Module::new(k, l[1..].to_vec())), "{} is not isomorphic to itself", x());
        for drop in 1..n { let mut y = l.clone(); y.remove(drop); ensure!(!x().is_isomorphic_to(Module::new(k, y)), "{} is isomorphic to the module without {}", x(), e[drop]); }
        st.steps(n);
        st.outcome((n, k));
        Ok(())
    }));
    // modules
    let fr: u64 = 4;
    v.push(space("module", "modules with free rank 0 to 3 and up to 3 divisors 1 to 8 with multiplicities 1 to 3", fr * pw(25, 3),
        move |i| {
            let d = digits(i, &[fr, 25, 25, 25])?;
            let mut l: Vec<(i64, usize)> = vec![];
            for x in &d[1..] { if *x == 0 { continue; } let e = (((x - 1) / 3) as i64 + 1, ((x - 1) % 3) as usize + 1); if l.last().is_some_and(|p| e.0 <= p.0 || e.0 % p.0 != 0) { return None; } l.push(e); }
            Some((d[0] as usize, l))
        },
        |(f, l), st| {
            let m = || Module::new(*f, l.clone());
            let flat: Vec<i128> = l.iter().flat_map(|&(d, k)| vec![d as i128; k]).collect();
            let want = show_module(*f, &flat);
            ensure!(m().to_string() == want, "printed as {}, should be {want}", m());
            ensure!(m().is_zero() == (want == "0"), "is_zero is {}", m().is_zero());
            ensure!(m().is_isomorphic_to(m()), "not isomorphic to itself");
            let plain: Vec<(i64, usize)> = l.iter().cloned().filter(|(d, _)| *d != 1).collect();
            ensure!(m().is_isomorphic_to(Module::new(*f, plain.clone())), "not isomorphic to the same module without trivial divisors");
            ensure!(!m().is_isomorphic_to(Module::new(f + 1, l.clone())), "isomorphic to a module of another rank");
            let mut more = plain.clone();
            match more.last_mut() { Some(x) => x.1 += 1, None => more.push((2, 1)) }
            ensure!(!m().is_isomorphic_to(Module::new(*f, more)), "isomorphic to a module with another divisor");
            ensure!(m().is_isomorphic_to(Module::trivial()) == (want == "0"), "isomorphic to the trivial module");
            st.steps(6);
            st.outcome(want);
            Ok(())
        }));
    v
}
fn named(orders: usize, max_winding: usize, max_k: usize) -> Vec<(Vec<Vec<usize>>, String)> {
    let s = |v: &[&str]| -> String { v.iter().enumerate().map(|(i, x)| format!("dim {i}: {x},\n")).collect() };
    let p = |t: &[[usize; 3]]| -> Vec<Vec<usize>> { t.iter().map(|x| x.to_vec()).collect() };
    let mut out = vec![];
    for n in 1..=6usize { out.push((vec![(0..n).collect::<Vec<_>>()], s(&["Z"]))); }
    for n in 3..=7usize { // boundary of a simplex with n vertices
        let mut h = vec!["0"; n - 1]; h[0] = "Z"; h[n - 2] = "Z";
        out.push((combos(n, n - 1), s(&h)));
    }
    out.push((vec![vec![0], vec![1]], s(&["Z^2"])));
    for n in [3usize, 5, 12] { out.push(((0..n).map(|i| vec![i, (i + 1) % n]).collect(), s(&["Z", "Z"]))); }
    out.push((p(&[[0,1,3],[1,3,5],[1,2,5],[0,2,7],[0,3,7],[2,5,7],[3,4,5],[4,5,6],[5,6,7],[6,7,8],[3,7,8],[3,4,8],[2,4,8],[0,2,4],[1,2,8],[1,6,8],[0,1,6],[0,4,6]]), s(&["Z", "Z^2", "Z"])));
    // 7-vertex torus
    out.push(((0..7usize).flat_map(|i| [vec![i, (i + 1) % 7, (i + 3) % 7], vec![i, (i + 2) % 7, (i + 3) % 7]]).collect(), s(&["Z", "Z^2", "Z"])));
    let rp2 = [[1,3,4],[2,3,4],[1,4,5],[2,4,6],[4,5,6],[1,2,6],[1,3,6],[3,5,6],[2,3,5],[1,2,5]];
    out.push((p(&rp2), s(&["Z", "Z_2"])));
    out.push((p(&[[0,1,4],[0,1,6],[0,2,6],[0,2,8],[0,3,4],[0,3,8],[1,2,5],[1,2,7],[1,4,5],[1,6,7],[2,5,6],[2,7,8],[3,4,7],[3,5,6],[3,5,8],[3,6,7],[4,5,8],[4,7,8]]), s(&["Z", "Z + Z_2"])));
    // two projective planes, joined at a vertex and apart
    let two: Vec<Vec<usize>> = rp2.iter().flat_map(|x| [x.to_vec(), x.iter().map(|v| if *v == 1 { 1 } else { v + 10 }).collect()]).collect();
    out.push((two, s(&["Z", "(Z_2)^2"])));
    let apart: Vec<Vec<usize>> = rp2.iter().flat_map(|x| [x.to_vec(), x.iter().map(|v| v + 10).collect()]).collect();
    out.push((apart, s(&["Z^2", "(Z_2)^2"])));
    // suspension of the projective plane
    out.push((rp2.iter().flat_map(|x| { let mut a = x.to_vec(); a.push(20); let mut b = x.to_vec(); b.push(21); [a, b] }).collect(), s(&["Z", "0", "Z_2"])));
    // Moore space Z_3: a disc whose boundary winds three times around a triangle
    let mut m3 = vec![];
    for k in 0..9usize { m3.push(vec![k % 3, (k + 1) % 3, 10 + k]); m3.push(vec![(k + 1) % 3, 10 + k, 10 + (k + 1) % 9]); m3.push(vec![10 + k, 10 + (k + 1) % 9, 30]); }
    out.push((m3, s(&["Z", "Z_3"])));
    for w in 2..=12usize { // Moore spaces for other windings
        if w == 3 { continue; }
        let k3 = 3 * w;
        let mut f = vec![];
        for k in 0..k3 { f.push(vec![k % 3, (k + 1) % 3, 10 + k]); f.push(vec![(k + 1) % 3, 10 + k, 10 + (k + 1) % k3]); f.push(vec![10 + k, 10 + (k + 1) % k3, 100]); }
        if w <= max_winding { out.push((f, s(&["Z", &format!("Z_{w}")]))); }
    }
    for n in [2usize, 7, 20] { // many points, many circles at a point, many circles apart, many spheres at a point
        out.push(((0..n).map(|i| vec![i]).collect(), s(&[&format!("Z^{n}")])));
        out.push(((0..n).flat_map(|i| [vec![0, 2 * i + 1], vec![2 * i + 1, 2 * i + 2], vec![2 * i + 2, 0]]).collect(), s(&["Z", &format!("Z^{n}")])));
        out.push(((0..n).flat_map(|i| [vec![3 * i, 3 * i + 1], vec![3 * i + 1, 3 * i + 2], vec![3 * i + 2, 3 * i]]).collect(), s(&[&format!("Z^{n}"), &format!("Z^{n}")])));
        if n <= 7 { out.push(((0..n).flat_map(|i| [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]].map(|t| t.iter().map(|&v| if v == 0 { 0 } else { 3 * i + v }).collect::<Vec<_>>())).collect(), s(&["Z", "0", &format!("Z^{n}")]))); }
    }
    for n in 3..=max_k { out.push((combos(n, 2), s(&["Z", &if n == 3 { "Z".into() } else { format!("Z^{}", (n - 1) * (n - 2) / 2) }]))); } // complete graphs
    for n in 5..=max_k - 1 { out.push((combos(n, 3), s(&["Z", "0", &format!("Z^{}", (n - 1) * (n - 2) * (n - 3) / 6)]))); } // full 2-skeleta
    let mut all = vec![];
    for (f, want) in out {
        for k in 0..orders {
            // reorder the facets and their vertices
            let mut g = f.clone();
            if k & 1 == 1 { g.reverse(); }
            if k & 2 == 2 { for x in g.iter_mut() { x.reverse(); } }
            if k & 4 == 4 { let h = g.len() / 2; g.rotate_left(h); for x in g.iter_mut() { let h = x.len() / 2; x.rotate_left(h); } }
            all.push((g, want.clone()));
        }
    }
    all
}
