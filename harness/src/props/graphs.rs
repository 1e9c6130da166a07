//! C19: labelled graphs.  C20: subdivided graphs and their maximal trees.  C21: raw simple graphs and cube factors.
use super::mat::D;
use crate::engine::*;
use crate::{ensure, Tier};
use alg::commutative::{Rational, PID};
use alg::lin_alg::ConstVector;
use alg::non_commutative::permutation::{Cycle, Permutation};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use topo_spaces::graph::{self, CubeFactor, Graph, RawSimpleGraph, SimpleGraph, SimpleVertex, WeightedSimpleGraph};

pub const LABELS: [&str; 24] = ["b", "v10", "a", "B", "", "x y", "v1", "4", "c", "z", "aa", "v2", "é", "10", "ab", "Z", "_", "v11", "0", "w", "-1", "y", "a b", "zz"];
pub fn label(x: usize) -> String { if x < 24 { LABELS[x].to_string() } else { format!("n{}", (x * 37) % 1009) } }
pub type Edges = Vec<(usize, usize)>;
pub fn to_graph(e: &Edges) -> Graph<i64> { Graph::from(e.iter().map(|&(a, b)| (label(a), label(b))).collect()) }
/// Vertices in order of first appearance.
pub fn order(e: &Edges) -> Vec<usize> {
    let mut o = vec![];
    for &(a, b) in e { for x in [a, b] { if !o.contains(&x) { o.push(x); } } }
    o
}
/// Are new labels taken in increasing order (one representative of every relabelling)?
pub fn growing(e: &Edges) -> bool { order(e).iter().enumerate().all(|(i, &x)| i == x) }
pub fn components(n: usize, edges: &[(usize, usize)]) -> usize {
    let mut c: Vec<usize> = (0..n).collect();
    for &(a, b) in edges { let (x, y) = (c[a], c[b]); for z in c.iter_mut() { if *z == x { *z = y; } } }
    c.iter().collect::<BTreeSet<_>>().len()
}
pub fn connected(e: &Edges) -> bool { let n = order(e).len(); growing(e) && components(n, e) == 1 }

// ---------------------------------------------------------------- C19
fn weighted<T: PID + Copy + Debug + PartialEq + Send + Sync + 'static>(w: &[(usize, usize, T)]) -> Check {
    let g = WeightedSimpleGraph::from(w.iter().map(|&(a, b, x)| (label(a), label(b), x)).collect());
    let o = order(&w.iter().map(|&(a, b, _)| (a, b)).collect());
    let n = o.len();
    ensure!(g.n_vertices() == n, "{} vertices, should be {n}", g.n_vertices());
    let names: Vec<String> = o.iter().map(|&x| label(x)).collect();
    ensure!(*g.vertices() == names, "vertices {:?}, should be {names:?}", g.vertices());
    let mut d: D<T> = vec![vec![T::zero(); n]; n];
    let at = |x: usize| o.iter().position(|&y| y == x).unwrap();
    for &(a, b, x) in w { let (i, j) = (at(a), at(b)); d[i][j] = x; d[j][i] = x; }
    let read = |m: &alg::lin_alg::Matrix<T>| -> D<T> { let (r, c) = m.size(); (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect() };
    let got = read(g.data());
    ensure!(got == d, "weights {got:?}, should be {d:?}");
    let mut lap: D<T> = vec![vec![T::zero(); n]; n];
    for i in 0..n { for j in 0..n { if i == j { for k in 0..n { lap[i][i] += d[i][k]; } } else { lap[i][j] = -d[i][j]; } } }
    let got = read(&g.clone().laplacian());
    ensure!(got == lap, "Laplacian {got:?}, should be {lap:?}");
    Ok(())
}

fn counts(e: &Edges, st: &mut Stats) -> Check {
    let g = to_graph(e);
    let loops = e.iter().filter(|(a, b)| a == b).count();
    let und: BTreeSet<(usize, usize)> = e.iter().filter(|(a, b)| a != b).map(|&(a, b)| (a.min(b), a.max(b))).collect();
    ensure!(g.n_vertices() == order(e).len(), "{} vertices, should be {}", g.n_vertices(), order(e).len());
    ensure!(g.n_loops() == loops, "{} loops, should be {loops}", g.n_loops());
    ensure!(g.n_non_loop_edges() == e.len() - loops, "{} non-loop edges, should be {}", g.n_non_loop_edges(), e.len() - loops);
    ensure!(g.n_non_loop_edges_up_to_multiplicity() == und.len(), "{} non-loop edges up to multiplicity, should be {}", g.n_non_loop_edges_up_to_multiplicity(), und.len());
    st.steps(4);
    st.outcome((g.n_vertices(), loops, e.len(), und.len()));
    Ok(())
}

fn weights(e: &Vec<(usize, usize, i64)>, st: &mut Stats) -> Check {
    weighted(e)?;
    let r: Vec<_> = e.iter().map(|&(a, b, w)| (a, b, Rational::from(w) / Rational::from(6i64))).collect();
    weighted(&r)?;
    let f: Vec<_> = e.iter().map(|&(a, b, w)| (a, b, w as f64 / 8.0)).collect();
    weighted(&f)?;
    st.steps(3);
    st.outcome(e.iter().map(|x| x.2).sum::<i64>());
    Ok(())
}

pub fn c19(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    for (n, len) in t.pick(vec![(3usize, 7usize), (4, 6), (5, 5), (6, 4)], vec![(3, 8), (4, 7), (5, 6), (6, 5), (8, 4)]) {
        let pairs: Vec<(usize, usize)> = (0..n * n).map(|k| (k / n, k % n)).collect();
        for l in 1..=len {
            let pairs = pairs.clone();
            v.push(space(&format!("counts-{n}-{l}"), &format!("all lists of {l} edges on {n} labels"), pw((n * n) as u64, l), move |i| Some(word(i, l, &pairs)), counts));
        }
    }
    // longer lists: every pattern of steps from edge to edge, on many labels
    v.push(space("counts, long lists", "lists of 1 to 60 edges [s*k mod n, (s*k + d) mod n] on n = 1 to 24, 33, 64, 65, 66 and 130 labels, steps s 1, 3, 7 and differences d 0 to 4, alone and turned around every other time, twice over or not", 60 * 29 * 3 * 5 * 4,
        |i| { let d = digits(i, &[4, 5, 3, 29, 60])?; let (n, s) = (if d[3] < 24 { d[3] as usize + 1 } else { [33, 64, 65, 66, 130][d[3] as usize - 24] }, [1, 3, 7][d[2] as usize]);
            if d[4] > 12 && d[4] % 8 != 3 { return None; }
            let mut e: Edges = (0..=d[4] as usize).map(|k| { let (a, b) = (s * k % n, (s * k + d[1] as usize * (1 + k / n)) % n); if d[0] & 1 == 1 && k % 2 == 1 { (b, a) } else { (a, b) } }).collect();
            if d[0] & 2 == 2 { let f = e.clone(); e.extend(f); }
            Some(e) }, counts));
    for (n, name) in [(24usize, "complete"), (12, "all pairs twice")] {
        v.push(list(&format!("counts, {name}"), &format!("all pairs of {n} labels, loops included, both ways"), vec![(0..n * n).map(|k| (k / n, k % n)).collect::<Edges>(), (0..n * n).flat_map(|k| if n < 24 { vec![(k / n, k % n); 2] } else { vec![(k % n, k / n)] }).collect()], counts));
    }
    v.push(list("empty", "the graph without edges", vec![()], |_, st| {
        let g = Graph::<i64>::from(vec![]);
        st.steps(4);
        ensure!(g.n_vertices() == 0 && g.n_loops() == 0 && g.n_non_loop_edges() == 0 && g.n_non_loop_edges_up_to_multiplicity() == 0, "the empty graph has vertices or edges");
        Ok(())
    }));
    v.push(list("macro", "graph! with string and integer labels", vec![()], |_, st| {
        let g = topo_spaces::graph! { ["a", "b"], ["b", "a"], ["b", "b"], ["c", "a"] };
        ensure!(g.n_vertices() == 3 && g.n_loops() == 1 && g.n_non_loop_edges() == 3 && g.n_non_loop_edges_up_to_multiplicity() == 2, "graph! of strings");
        let g = topo_spaces::graph! { [0, 1], [1, 2] };
        ensure!(g.n_vertices() == 3 && g.n_loops() == 0 && g.n_non_loop_edges() == 2, "graph! of integers");
        // the weighted forms
        let full = |g: &WeightedSimpleGraph<f64>| -> Vec<f64> { let n = g.n_vertices(); (0..n * n).map(|k| g.data()[(k / n, k % n)]).collect() };
        let g: WeightedSimpleGraph<f64> = topo_spaces::graph! { ["a", "b"; weight=0.5], ["b", "c"; weight=-2.0] };
        ensure!(g.vertices() == &["a", "b", "c"] && full(&g) == [0.0, 0.5, 0.0, 0.5, 0.0, -2.0, 0.0, -2.0, 0.0], "graph! with weights: {:?} {:?}", g.vertices(), full(&g));
        let at: HashMap<&str, (f64, f64)> = [("a", (0.0, 0.0)), ("b", (3.0, 4.0)), ("c", (3.0, 0.0))].into_iter().collect();
        let far = |p: (f64, f64), q: (f64, f64)| ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt();
        let g: WeightedSimpleGraph<f64> = topo_spaces::graph! { embedding = at, weight_fn = far, ["a", "b"], ["c", "a"] };
        ensure!(g.vertices() == &["a", "b", "c"] && full(&g) == [0.0, 5.0, 3.0, 5.0, 0.0, 0.0, 3.0, 0.0, 0.0], "graph! with lengths: {:?} {:?}", g.vertices(), full(&g));
        st.steps(9);
        Ok(())
    }));
    // weighted graphs: every sequence of different pairs with every weight
    for (n, len, k) in t.pick(vec![(3usize, 3usize, 6i64), (4, 4, 2), (4, 3, 3), (5, 3, 2)], vec![(3, 3, 12), (4, 5, 2), (4, 4, 4), (5, 4, 2), (6, 3, 2)]) {
        let pairs: Vec<(usize, usize)> = (0..n * n).map(|k| (k / n, k % n)).collect();
        let al: Vec<i64> = (-k..=k).filter(|x| *x != 0).collect();
        let (np, na) = (pairs.len() as u64, al.len() as u64);
        for l in 1..=len {
            let (pairs, al) = (pairs.clone(), al.clone());
            v.push(space(&format!("weighted-{n}-{l}-{k}"), &format!("all lists of {l} weighted edges between different labels out of {n} (each pair at most once), weights -{k} to {k}, as integers, rationals and floating-point numbers"), pw(np, l) * pw(na, l),
                move |i| {
                    let e = word(i % pw(np, l), l, &pairs);
                    let w = word(i / pw(np, l), l, &al);
                    let und: BTreeSet<_> = e.iter().map(|&(a, b): &(usize, usize)| (a.min(b), a.max(b))).collect();
                    if und.len() < l || e.iter().any(|(a, b)| a == b) { return None; }
                    Some(e.into_iter().zip(w).map(|((a, b), w)| (a, b, w)).collect::<Vec<_>>())
                }, weights));
        }
    }
    v.push(space("weighted, large", "paths, cycles, stars, complete graphs and complete bipartite graphs on 2 to 24, 33, 64, 65, 66 and 100 labels, in three orders of the edges, edges turned around or not, six sets of weights (large ones and zeros among them)", 28 * 5 * 3 * 2 * 6,
        |i| { let d = digits(i, &[6, 2, 3, 5, 28])?; let n = if d[4] < 23 { d[4] as usize + 2 } else { [33, 64, 65, 66, 100][d[4] as usize - 23] };
            if n > 24 && (d[3] > 2 && n > 40 || d[2] == 2) { return None; }
            let mut e: Edges = match d[3] { 0 => (1..n).map(|k| (k - 1, k)).collect(), 1 => (0..n).map(|k| (k, (k + 1) % n)).filter(|_| n > 2).collect(), 2 => (1..n).map(|k| (n - 1 - k, n - 1)).collect(),
                3 => (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect(), _ => (0..n / 2).flat_map(|a| (n / 2..n).map(move |b| (b, a))).collect() };
            if e.is_empty() { return None; }
            if d[2] == 1 { e.reverse(); }
            if d[2] == 2 { let h = e.len() / 2; e.rotate_left(h); }
            if d[1] == 1 { for x in e.iter_mut() { *x = (x.1, x.0); } }
            Some(e.into_iter().enumerate().map(|(k, (a, b))| (a, b, match d[0] { 0 => 1, 1 => k as i64 + 1, 2 => if k % 2 == 0 { -3 } else { 5 }, 3 => (k as i64 * 37) % 11 - 20, 4 => (k as i64 - 3) << 40, _ => k as i64 % 3 - 1 })).collect()) }, weights));
    v.push(list("loops-rejected", "weighted graphs with a loop", vec![vec![(0usize, 0usize)], vec![(0, 1), (1, 1)], vec![(0, 1), (0, 2), (2, 2)]], |e: &Edges, st| {
        st.step();
        ensure!(guard(|| WeightedSimpleGraph::from(e.iter().map(|&(a, b)| (label(a), label(b), 1i64)).collect())).is_err(), "a loop was accepted");
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Name { Ess(String), Mid(String, String, usize, i64, i64) } // position as a reduced fraction
fn name_of(v: &SimpleVertex) -> Result<Name, String> {
    Ok(match v {
        SimpleVertex::Essential(s) => Name::Ess(s.clone()),
        SimpleVertex::Redundant(r) => {
            // the printed form of a rational is its value in lowest terms (checked elsewhere)
            let s = r.pos.to_string();
            let (p, q) = s.split_once('/').ok_or(format!("position {s} of a subdividing vertex is not strictly between 0 and 1"))?;
            Name::Mid(r.start.clone(), r.end.clone(), r.direction, p.parse().map_err(|_| format!("position {s}"))?, q.parse().map_err(|_| format!("position {s}"))?)
        }
    })
}
fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
fn show_name(n: &Name) -> String {
    match n {
        Name::Ess(s) => s.clone(),
        Name::Mid(a, b, d, p, q) => format!("({p}/{q})({a}, {b}){}", if *d == 0 { String::new() } else { d.to_string() }),
    }
}
/// Names of the vertices and edges of the subdivision for n points.
fn expected(e: &Edges, n: usize) -> (BTreeSet<Name>, BTreeSet<(Name, Name)>) {
    let n = n.max(2);
    let o = order(e);
    let at = |x: usize| o.iter().position(|&y| y == x).unwrap();
    let mut count: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut vs: BTreeSet<Name> = o.iter().map(|&x| Name::Ess(label(x))).collect();
    let mut es = BTreeSet::new();
    for &(a, b) in e {
        let (i, j) = (at(a).min(at(b)), at(a).max(at(b)));
        let k = count.entry((i, j)).or_insert(0);
        let m = if i == j { n } else { (n - 2).max(1) };
        let (s, f) = (label(o[i]), label(o[j]));
        let mid = |l: usize| { let g = gcd(l as i64, m as i64 + 1); Name::Mid(s.clone(), f.clone(), *k, l as i64 / g, (m as i64 + 1) / g) };
        let chain: Vec<Name> = [Name::Ess(s.clone())].into_iter().chain((1..=m).map(mid)).chain([Name::Ess(f.clone())]).collect();
        for w in chain.windows(2) { es.insert(if w[0] < w[1] { (w[0].clone(), w[1].clone()) } else { (w[1].clone(), w[0].clone()) }); }
        vs.extend(chain);
        *k += 1;
    }
    (vs, es)
}
/// Adjacency and tree parents of a numbered simple graph, read through the public interface and checked to be a
/// spanning tree numbered depth-first.
pub struct Tree { pub n: usize, pub adj: Vec<Vec<bool>>, pub parent: Vec<usize> }
impl Tree {
    pub fn edges(&self) -> Vec<(usize, usize)> { (0..self.n).flat_map(|j| (0..j).rev().map(move |i| (i, j))).filter(|&(i, j)| self.adj[i][j]).collect() }
    pub fn in_tree(&self, i: usize, j: usize) -> bool { j > 0 && self.parent[j] == i }
}
pub fn read_tree(g: &RawSimpleGraph) -> Result<Tree, String> { let t = read_tree_from_any_base(g)?; ensure!(t.n < 2 || t.parent.iter().skip(1).filter(|&&p| p == 0).count() == 1, "the base point does not have degree one in the maximal tree: parents {:?}", t.parent); Ok(t) }
pub fn read_tree_from_any_base(g: &RawSimpleGraph) -> Result<Tree, String> {
    let n = g.n_vertices();
    let mut adj = vec![vec![false; n]; n];
    for j in 0..n { for i in 0..j { if g.contains(i, j) { adj[i][j] = true; adj[j][i] = true; } } }
    ensure!(g.is_maximal_tree_chosen, "no maximal tree was chosen");
    let mut parent = vec![0; n];
    let mut deg = vec![0; n];
    for j in 1..n {
        let p: Vec<usize> = (0..j).filter(|&i| g.maximal_tree_contains([i, j])).collect();
        ensure!(p.len() == 1, "vertex {j} has the tree neighbours {p:?} below it, should be exactly one");
        ensure!(adj[p[0]][j], "tree edge [{}, {j}] is not an edge", p[0]);
        parent[j] = p[0];
        deg[p[0]] += 1;
        deg[j] += 1;
    }
    for v in 0..n { ensure!(g.degree_in_maximal_tree(v) == deg[v], "degree_in_maximal_tree({v}) is {}, should be {}", g.degree_in_maximal_tree(v), deg[v]); }
    // depth-first numbering: the vertices below v are v+1, ..., v+k
    let mut last: Vec<usize> = (0..n).collect();
    for j in (1..n).rev() { let p = parent[j]; last[p] = last[p].max(last[j]); }
    for j in 2..n {
        // j is put below j-1 or below an ancestor of j-1
        let mut a = j - 1;
        while a != parent[j] { ensure!(a != 0, "the maximal tree is not numbered depth-first at {j}: parents {parent:?}"); a = parent[a]; }
    }
    for j in 0..n { for i in 0..j { if adj[i][j] { ensure!(j <= last[i], "edge [{i}, {j}] joins different branches of the maximal tree: parents {parent:?}"); } } }
    Ok(Tree { n, adj, parent })
}
fn subdivision_check(e: &Edges, n: usize, st: &mut Stats) -> Check {
    let g = SimpleGraph::subdivided_graph_from(&to_graph(e), n);
    let (vs, es) = expected(e, n);
    ensure!(g.n_vertices() == vs.len(), "{} vertices, should be {}", g.n_vertices(), vs.len());
    ensure!(g.n_essential_vertices() == order(e).len(), "{} essential vertices, should be {}", g.n_essential_vertices(), order(e).len());
    let names: Vec<Name> = g.vertices_list().iter().map(name_of).collect::<Result<_, _>>()?;
    ensure!(names.iter().cloned().collect::<BTreeSet<_>>() == vs && names.len() == vs.len(), "the vertices are {names:?}, should be {vs:?}");
    for (i, v) in g.vertices_list().iter().enumerate() { ensure!(g[i] == *v && v.to_string() == show_name(&names[i]), "vertex {i} is indexed or printed as {}", g[i]); }
    let t = read_tree(&g)?;
    let got: Vec<(usize, usize)> = g.edge_iter().map(|f| { let [i, j] = f.edge(); (i, j) }).collect();
    ensure!(got == t.edges(), "the edges are {got:?}, should be {:?}", t.edges());
    let named: BTreeSet<(Name, Name)> = got.iter().map(|&(i, j)| if names[i] < names[j] { (names[i].clone(), names[j].clone()) } else { (names[j].clone(), names[i].clone()) }).collect();
    ensure!(named == es, "the edges join {named:?}, should be {es:?}");
    ensure!(g.n_edges() == es.len() && g.is_connected(), "n_edges is {}, connected {}", g.n_edges(), g.is_connected());
    let text = format!("vertices: {}\nedges: {}\n", names.iter().map(show_name).collect::<Vec<_>>().join(", "),
        got.iter().map(|&(i, j)| format!("[{}, {}]", show_name(&names[i]), show_name(&names[j]))).collect::<Vec<_>>().join(", "));
    ensure!(g.to_string() == text, "printed as {g}should be {text}");
    for v in 1..t.n { ensure!(CubeFactor::Vertex(v).flow(&g) == CubeFactor::Edge([t.parent[v], v]), "the flow from {v} is {}", CubeFactor::Vertex(v).flow(&g)); }
    for &(i, j) in &got { ensure!(CubeFactor::Edge([i, j]).is_in_maximal_tree(&g) == t.in_tree(i, j), "is_in_maximal_tree([{i}, {j}])"); }
    for j in 0..t.n { for i in 0..j { if !t.adj[i][j] { ensure!(!g.maximal_tree_contains([i, j]), "maximal_tree_contains([{i}, {j}]), which is not an edge"); } } }
    ensure!(CubeFactor::Vertex(t.n - 1).is_in_maximal_tree(&g), "a vertex is not in the maximal tree");
    // straight embedding
    let o = order(e);
    let pos = |x: usize| [x as f64 * 3.0 - 2.0, (x * x) as f64 + 0.5];
    let emb: HashMap<String, ConstVector<f64, 2>> = o.iter().map(|&x| (label(x), ConstVector::from(pos(x)))).collect();
    let out = g.modify_embedding(emb);
    ensure!(out.len() == t.n, "the embedding has {} points", out.len());
    for (v, nm) in g.vertices_list().iter().zip(&names) {
        let at = |s: &str| pos((0..).find(|&x| label(x) == s).unwrap());
        let want = match nm { Name::Ess(s) => at(s), Name::Mid(a, b, _, p, q) => { let (x, y, r) = (at(a), at(b), *p as f64 / *q as f64); [x[0] + r * (y[0] - x[0]), x[1] + r * (y[1] - x[1])] } };
        let got = out.get(v).ok_or(format!("{v} is not embedded"))?;
        ensure!((0..2).all(|i| (got[i] - want[i]).abs() < 1e-9), "{v} is put at ({}, {}), should be at {want:?}", got[0], got[1]);
    }
    st.steps(6);
    st.outcome((t.parent, got));
    Ok(())
}
/// All connected multigraphs given as lists of up to `len` edges on up to `n` labels, new labels in order.
pub fn graphs(n: usize, len: usize, keep_order: bool) -> Vec<Edges> {
    let pairs: Vec<(usize, usize)> = (0..n * n).map(|k| (k / n, k % n)).filter(|(a, b)| keep_order || a <= b).collect();
    fn go(pairs: &[(usize, usize)], from: usize, l: usize, keep_order: bool, cur: &mut Edges, out: &mut Vec<Edges>) {
        if l == 0 { if connected(cur) { out.push(cur.clone()); } return; }
        for k in (if keep_order { 0 } else { from })..pairs.len() { cur.push(pairs[k]); go(pairs, k, l - 1, keep_order, cur, out); cur.pop(); }
    }
    let mut out = vec![];
    for l in 1..=len { go(&pairs, 0, l, keep_order, &mut vec![], &mut out); }
    out
}
pub fn named_graphs() -> Vec<(&'static str, Edges)> {
    let complete = |n: usize| -> Edges { (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect() };
    let bip = |a: usize, b: usize| -> Edges { (0..a).flat_map(|i| (0..b).map(move |j| (i, a + j))).collect() };
    vec![
        ("segment", vec![(0, 1)]), ("star3", bip(1, 3)), ("star4", bip(1, 4)), ("star5", bip(1, 5)), ("K4", complete(4)), ("K5", complete(5)), ("K33", bip(3, 3)), ("K23", bip(2, 3)), ("K24", bip(2, 4)),
        ("lollipop", vec![(0, 1), (1, 1)]), ("loop", vec![(0, 0)]), ("figure8", vec![(0, 0), (0, 0)]), ("bouquet3", vec![(0, 0), (0, 0), (0, 0)]), ("dumbbell", vec![(0, 0), (0, 1), (1, 1)]),
        ("theta", vec![(0, 1), (0, 1), (1, 0)]), ("theta4", vec![(0, 1), (0, 1), (1, 0), (0, 1)]), ("triangle", vec![(0, 1), (1, 2), (2, 0)]), ("square", vec![(0, 1), (1, 2), (2, 3), (3, 0)]),
        ("H", vec![(0, 1), (1, 2), (1, 3), (3, 4), (3, 5)]), ("tree3", vec![(0, 1), (1, 2), (1, 3), (3, 4), (3, 5), (2, 6), (2, 7)]), ("caterpillar", vec![(0, 1), (1, 2), (2, 3), (3, 4), (1, 5), (2, 6), (3, 7)]),
        ("two-triangles", vec![(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0)]), ("bridge", vec![(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 5), (5, 3)]),
        ("prism", vec![(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]), ("wheel4", vec![(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (2, 3), (3, 4), (4, 1)]),
        ("cube", vec![(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]),
        ("petersen", vec![(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 5), (1, 6), (2, 7), (3, 8), (4, 9), (5, 7), (7, 9), (9, 6), (6, 8), (8, 5)]),
    ]
}
/// Larger graphs: long, wide, dense and with many parallel edges and loops; as they are and with the vertices renumbered.
fn large_graphs() -> Vec<Edges> {
    let mut out: Vec<Edges> = vec![];
    for k in [5usize, 9, 10, 11, 12, 13] { out.push(vec![(0, 1); k]); out.push((0..k).map(|i| if i % 3 == 0 { (0, 1) } else { (1, 0) }).collect()); out.push(vec![(0, 0); k]); out.push((0..k).flat_map(|i| [(i, i), (i, i + 1)]).collect()); }
    for k in [8usize, 16, 31, 40, 65, 70] {
        out.push((1..k).map(|i| (i - 1, i)).collect());
        out.push((0..k).map(|i| (i, (i + 1) % k)).collect());
        out.push((1..k).map(|i| (0, i)).collect());
        out.push((1..k).map(|i| ((i - 1) / 2, i)).collect());
        out.push((1..k).map(|i| (i - 1 - (i - 1) % 2, i)).collect());
    }
    for k in 6..=10usize { out.push((0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).collect()); out.push((0..3).flat_map(|i| (0..k).map(move |j| (i, 3 + j))).collect()); out.push((1..=k).flat_map(|i| [(0, i), (i, i % k + 1)]).collect()); }
    for (a, b) in [(2usize, 9usize), (3, 5), (4, 5), (6, 6)] { out.push((0..a * b).flat_map(|x| { let mut e = vec![]; if x % b + 1 < b { e.push((x, x + 1)); } if x / b + 1 < a { e.push((x, x + b)); } e }).collect()); }
    let turned: Vec<Edges> = out.iter().flat_map(|e| {
        let n = order(e).len();
        let s = (2..n).find(|s| gcd(*s as i64 + n as i64 / 2, n as i64) == 1).map_or(1, |s| s + n / 2);
        let mut back: Edges = e.iter().map(|&(a, b)| (n - 1 - b, n - 1 - a)).collect();
        back.reverse();
        [back, e.iter().map(|&(a, b)| (a * s % n, b * s % n)).collect()]
    }).collect();
    out.extend(turned);
    out
}
pub fn c20(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    for (n, len, ord) in t.pick(vec![(3usize, 5usize, true), (4, 5, true), (5, 4, true), (5, 5, false), (4, 6, false), (5, 6, false), (6, 6, false)], vec![(3, 6, true), (4, 5, true), (5, 5, true), (5, 6, false), (6, 6, false)]) {
        let gs = graphs(n, len, ord);
        let k = gs.len() as u64;
        v.push(space(&format!("graphs-{n}-{len}"), &format!("all connected multigraphs with loops, up to {len} edges on up to {n} vertices{}, subdivided for 0 to 6 points", if ord { ", in every order and orientation of the edges" } else { "" }), k * 7,
            move |i| Some((gs[(i / 7) as usize].clone(), (i % 7) as usize)), |(e, n), st| subdivision_check(e, *n, st)));
    }
    // simple graphs: the tree choice depends on the numbering
    let n = t.pick(6usize, 7);
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
    let np = pairs.len();
    v.push(space(&format!("simple-{n}"), &format!("all connected simple graphs on at most {n} numbered vertices, subdivided for 2 points"), 1 << np,
        move |i| { let e: Edges = (0..np).filter(|k| i >> k & 1 == 1).map(|k| pairs[k]).collect(); let m = order(&e).len(); if e.is_empty() || components(n, &e) != n - m + 1 { return None; } Some(e) },
        |e, st| subdivision_check(e, 2, st)));
    let named: Vec<(Edges, usize)> = named_graphs().into_iter().flat_map(|(_, e)| (0..=t.pick(6usize, 9)).map(move |n| (e.clone(), n))).collect();
    v.push(list("named", "complete, bipartite, polyhedral and other named graphs, subdivided for 0 to 6 (thorough: 9) points", named, |(e, n), st| subdivision_check(e, *n, st)));
    let many: Vec<(Edges, usize)> = named_graphs().into_iter().filter(|(_, e)| e.len() <= t.pick(3usize, 5)).flat_map(|(_, e)| t.pick(vec![7usize, 10, 11, 12, 13, 16, 17, 33, 50], (7..=40).chain([64, 65, 66, 100]).collect()).into_iter().map(move |n| (e.clone(), n))).collect();
    v.push(list("many points", "named graphs with up to 3 (thorough: 5) edges, subdivided for 7 to 50 (thorough: 100) points", many, |(e, n), st| subdivision_check(e, *n, st)));
    let large: Vec<(Edges, usize)> = large_graphs().into_iter().flat_map(|e| t.pick(vec![0usize, 3, 5], (0..=8).collect()).into_iter().map(move |n| (e.clone(), n))).collect();
    v.push(list("large", "paths, cycles, stars, trees, complete, bipartite and wheel graphs, grids with up to 70 vertices, up to 13 parallel edges and loops, in three numberings, subdivided for 0, 3 and 5 (thorough: up to 8) points", large, |(e, n), st| subdivision_check(e, *n, st)));
    v.push(list("default", "SimpleGraph::from subdivides for two points", named_graphs().into_iter().map(|x| x.1).collect(), |e, st| {
        st.step();
        let (a, b) = (SimpleGraph::from(&to_graph(e)), SimpleGraph::subdivided_graph_from(&to_graph(e), 2));
        ensure!(a.to_string() == b.to_string(), "SimpleGraph::from gives\n{a}and subdividing for two points gives\n{b}");
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C21
fn raw(n: usize, edges: &[(usize, usize)]) -> RawSimpleGraph { let mut g = RawSimpleGraph::new(n); for &(i, j) in edges { g.add_edge(i.min(j), i.max(j)); } g }
fn look(g: &RawSimpleGraph, n: usize, set: &BTreeSet<(usize, usize)>) -> Check {
    ensure!(g.n_vertices() == n && g.n_edges() == set.len(), "{} vertices and {} edges, should be {n} and {}", g.n_vertices(), g.n_edges(), set.len());
    let has = |a: usize, b: usize| set.contains(&(a.min(b), a.max(b)));
    for j in 0..n { for i in 0..j { ensure!(g.contains(i, j) == has(i, j), "contains({i}, {j}) is {}", g.contains(i, j)); } }
    for x in 0..n {
        let nb: Vec<usize> = (0..n).filter(|&y| has(x, y)).collect();
        ensure!(g.get_adjacent_vertices(x) == nb, "vertices adjacent to {x} are {:?}, should be {nb:?}", g.get_adjacent_vertices(x));
        ensure!(g.adjacent_vertices_iter(x).collect::<Vec<_>>() == nb && g.degree_of(x) == nb.len(), "degree of {x} is {}", g.degree_of(x));
    }
    if n >= 2 { // the existing tests want a graph with a single vertex to be called disconnected
        let want = components(n, &set.iter().cloned().collect::<Vec<_>>()) == 1;
        ensure!(g.is_connected() == want, "is_connected is {}", g.is_connected());
    }
    let es: Vec<CubeFactor> = (0..n).flat_map(|j| (0..j).rev().map(move |i| (i, j))).filter(|&(i, j)| has(i, j)).map(|(i, j)| CubeFactor::Edge([i, j])).collect();
    let vs: Vec<CubeFactor> = (0..n).map(CubeFactor::Vertex).collect();
    ensure!(g.edge_iter().collect::<Vec<_>>() == es, "edge_iter gives {:?}, should be {es:?}", g.edge_iter().collect::<Vec<_>>());
    ensure!(g.vertex_iter().collect::<Vec<_>>() == vs, "vertex_iter gives {:?}", g.vertex_iter().collect::<Vec<_>>());
    let all: Vec<CubeFactor> = vs.into_iter().chain(es).collect();
    ensure!(g.iter().collect::<Vec<_>>() == all, "iter gives {:?}, should be {all:?}", g.iter().collect::<Vec<_>>());
    let text: String = (1..n).map(|j| (0..j).map(|i| if has(i, j) { '1' } else { '0' }).collect::<String>() + "\n").collect();
    ensure!(g.to_string() == text, "printed as {g}should be {text}");
    let rows: String = (0..n).map(|i| format!("{}{}{i}{}\n", "  ".repeat(i), if i < 10 { " " } else { "" }, (i + 1..n).map(|j| if has(i, j) { " +" } else { "  " }).collect::<String>())).collect();
    ensure!(format!("{g:?}") == rows, "shown as\n{g:?}should be\n{rows}");
    ensure!(*g == raw(n, &set.iter().cloned().collect::<Vec<_>>()), "not equal to the graph with the same edges");
    Ok(())
}
fn moved(set: &BTreeSet<(usize, usize)>, p: impl Fn(usize) -> usize) -> BTreeSet<(usize, usize)> { set.iter().map(|&(a, b)| { let (x, y) = (p(a), p(b)); (x.min(y), x.max(y)) }).collect() }
fn cycles_of(p: &[usize]) -> Vec<Vec<usize>> {
    let mut seen = vec![false; p.len()];
    let mut out = vec![];
    for i in 0..p.len() { if !seen[i] { let mut c = vec![]; let mut x = i; while !seen[x] { seen[x] = true; c.push(x); x = p[x]; } if c.len() > 1 { out.push(c); } } }
    out
}
fn act_perm(p: &[usize]) -> Permutation { Permutation::from_disjoint_cycles(cycles_of(p).into_iter().map(Cycle::from).collect()) }
struct Hist { n: usize, depth: usize, perms: Vec<Vec<usize>> }
#[derive(Clone, Debug)]
enum GOp { Add(usize, usize), Remove(usize, usize), Swap(usize, usize), Act(usize) }
impl Model for Hist {
    type State = (RawSimpleGraph, BTreeSet<(usize, usize)>);
    type Op = GOp;
    type Key = BTreeSet<(usize, usize)>;
    fn n_init(&self) -> u64 { 1 }
    fn init(&self, _: u64) -> Result<Self::State, String> { let s = (RawSimpleGraph::new(self.n), BTreeSet::new()); look(&s.0, self.n, &s.1)?; Ok(s) }
    fn show_init(&self, _: u64) -> String { format!("no edges on {} vertices", self.n) }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, _: &Self::State) -> Vec<GOp> {
        let mut o = vec![];
        for j in 0..self.n { for i in 0..j { o.push(GOp::Add(i, j)); o.push(GOp::Remove(i, j)); o.push(GOp::Swap(i, j)); } }
        o.extend((0..self.perms.len()).map(GOp::Act));
        o
    }
    fn apply(&self, s: &Self::State, op: &GOp) -> Result<Option<Self::State>, String> {
        let (mut g, mut r) = s.clone();
        match *op {
            GOp::Add(i, j) => { g.add_edge(i, j); r.insert((i, j)); }
            GOp::Remove(i, j) => { g.remove_edge(i, j); r.remove(&(i, j)); }
            GOp::Swap(i, j) => { g.swap(i, j); r = moved(&r, |x| if x == i { j } else if x == j { i } else { x }); }
            GOp::Act(k) => { let p = &self.perms[k]; g <<= act_perm(p); r = moved(&r, |x| p[x]); }
        }
        look(&g, self.n, &r)?;
        ensure!(s.0 == raw(self.n, &s.1.iter().cloned().collect::<Vec<_>>()), "the copied graph changed");
        ensure!((g == s.0) == (r == s.1), "equality with the graph before is {}", g == s.0);
        Ok(Some((g, r)))
    }
    fn key(&self, s: &Self::State) -> Self::Key { s.1.clone() }
}
fn factor(i: usize, n: usize) -> CubeFactor {
    if i < n { return CubeFactor::Vertex(i); }
    let mut k = i - n;
    for j in 1..n { if k < j { return CubeFactor::Edge([k, j]); } k -= j; }
    unreachable!()
}
pub fn closure(f: CubeFactor) -> Vec<usize> { match f { CubeFactor::Vertex(x) => vec![x], CubeFactor::Edge([x, y]) => vec![x, y] } }
/// The parent of each vertex, if the graph is connected and numbered depth-first.
fn depth_first_parents(n: usize, e: &Edges) -> Option<Vec<usize>> {
    let mut parent = vec![0; n];
    for j in 1..n { parent[j] = e.iter().filter(|x| x.1 == j).map(|x| x.0).max()?; }
    let above = |mut j: usize| { let mut a = vec![]; while j != 0 { j = parent[j]; a.push(j); } a };
    for j in 2..n { if parent[j] != j - 1 && !above(j - 1).contains(&parent[j]) { return None; } }
    if e.iter().all(|&(i, j)| above(j).contains(&i)) { Some(parent) } else { None }
}
/// A graph whose vertices are numbered depth-first, with the parents of its vertices in the tree.
fn numbered(n: usize, e: &Edges, parent: &[usize], triples: bool, st: &mut Stats) -> Check {
    let mut g = raw(n, e);
    g.is_maximal_tree_chosen = true;
    let t = read_tree_from_any_base(&g)?;
    ensure!(t.parent == *parent, "the parents in the tree are {:?}, should be {parent:?}", t.parent);
    for &(i, j) in e { ensure!(CubeFactor::Edge([i, j]).is_in_maximal_tree(&g) == (parent[j] == i), "is_in_maximal_tree([{i}, {j}]) is wrong"); }
    let fs: Vec<CubeFactor> = (0..n).map(CubeFactor::Vertex).chain(e.iter().map(|&(i, j)| CubeFactor::Edge([i, j]))).collect();
    for v in 0..n {
        let x = CubeFactor::Vertex(v);
        ensure!(x.is_in_maximal_tree(&g), "vertex {v} is not in the tree");
        let degree = e.iter().filter(|&&(i, j)| parent[j] == i && (i == v || j == v)).count();
        ensure!(g.degree_in_maximal_tree(v) == degree, "the degree of {v} in the tree is {}, should be {degree}", g.degree_in_maximal_tree(v));
        if v == 0 { ensure!(guard(|| x.flow(&g)).is_err(), "flow from the base point"); } else { ensure!(x.flow(&g) == CubeFactor::Edge([parent[v], v]), "the flow from {v} is {}", x.flow(&g)); }
        for a in &fs {
            if let CubeFactor::Edge([i, j]) = *a { if parent[j] == i && x.is_disjoint_from(*a) { ensure!(x.pays_for(*a, &g) == (i < v && v < j && parent[v] == i), "{v} pays for {a}: {}", x.pays_for(*a, &g)); } }
            if !a.is_disjoint_from(x) { continue; }
            let by = |f: &CubeFactor| v == 0 || closure(*f).contains(&parent[v]);
            ensure!(x.is_blocked(&[x, *a], &g) == by(a) && x.is_blocked(&[*a, x], &g) == by(a), "{v} is blocked by {a}: {}", x.is_blocked(&[x, *a], &g));
            st.step();
            if !triples { continue; }
            for b in &fs { if b.is_disjoint_from(x) && b.is_disjoint_from(*a) { ensure!(x.is_blocked(&[*a, x, *b], &g) == (by(a) || by(b)), "{v} is blocked by {a} and {b}: {}", x.is_blocked(&[*a, x, *b], &g)); st.step(); } }
        }
    }
    st.outcome(e.clone());
    Ok(())
}
pub fn c21(t: Tier) -> Spaces {
    let mut v: Spaces = Vec::new();
    for n in 0..=t.pick(6usize, 7) {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
        let np = pairs.len();
        v.push(space(&format!("graphs-{n}"), &format!("all simple graphs on {n} numbered vertices: every question, every exchange of two vertices"), 1 << np,
            move |i| Some((n, (0..np).filter(|k| i >> k & 1 == 1).map(|k| pairs[k]).collect::<Edges>())),
            |(n, e), st| {
                let set: BTreeSet<_> = e.iter().cloned().collect();
                let g = raw(*n, e);
                look(&g, *n, &set)?;
                for j in 0..*n { for i in 0..j {
                    let mut h = g.clone();
                    h.swap(i, j);
                    look(&h, *n, &moved(&set, |x| if x == i { j } else if x == j { i } else { x }))?;
                    if *n <= 5 { let mut h = g.clone(); h.remove_edge(i, j); let mut s = set.clone(); s.remove(&(i, j)); look(&h, *n, &s)?; }
                    st.steps(2);
                } }
                if *n >= 2 { for i in 0..*n { let i = CubeFactor::Vertex(i); ensure!(guard(|| i.flow(&g)).is_err(), "flow without a maximal tree"); } for &(i, j) in e { ensure!(guard(|| g.maximal_tree_contains([i, j])).is_err(), "maximal_tree_contains without a maximal tree"); } }
                st.outcome(set);
                Ok(())
            }));
    }
    for n in t.pick(vec![4usize], vec![4, 5]) {
        let np = factorial(n);
        v.push(bfs(&format!("histories-{n}"), &format!("all histories of adding and removing edges, exchanging vertices and acting by permutations, {n} vertices"),
            Hist { n, depth: t.pick(12, 14), perms: (0..np).map(|i| nth_perm(i, n)).collect() }));
    }
    // several words of edges
    let sizes: Vec<usize> = t.pick((10..=18).collect(), (8..=24).collect());
    let cases: Vec<(usize, usize)> = sizes.iter().flat_map(|&n| (0..n * (n - 1) / 2).map(move |k| (n, k))).collect();
    v.push(list("wide", "10 to 18 (thorough: 8 to 24) vertices, every edge alone, with its complement, with the following edge, and after an exchange or a cycle of vertices", cases,
        |&(n, k), st| {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
            let full: BTreeSet<(usize, usize)> = pairs.iter().cloned().collect();
            let mut rest = full.clone();
            rest.remove(&pairs[k]);
            for set in [BTreeSet::from([pairs[k]]), rest, BTreeSet::from([pairs[k], pairs[(k + 1) % pairs.len()]]), pairs[k..].iter().cloned().collect()] {
                let e: Edges = set.iter().cloned().collect();
                let g = raw(n, &e);
                look(&g, n, &set)?;
                let (i, j) = pairs[(k * 7 + 3) % pairs.len()];
                let mut h = g.clone();
                h.swap(i, j);
                look(&h, n, &moved(&set, |x| if x == i { j } else if x == j { i } else { x }))?;
                let cyc: Vec<usize> = (0..n).map(|x| (x + 1 + k % (n - 1)) % n).collect();
                look(&(g.clone() << act_perm(&cyc)), n, &moved(&set, |x| cyc[x]))?;
                st.steps(3);
                st.outcome(set);
            }
            Ok(())
        }));
    // numbered trees
    for n in 2..=t.pick(6usize, 7) {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
        let np = pairs.len();
        v.push(space(&format!("trees-{n}"), &format!("all simple graphs on {n} vertices numbered depth-first: tree, degrees in it, flow, which vertices are blocked by which pair of factors, which edges of the tree they pay for"), 1 << np,
            move |i| { let e: Edges = (0..np).filter(|k| i >> k & 1 == 1).map(|k| pairs[k]).collect(); depth_first_parents(n, &e).map(|p| (n, e, p)) },
            |(n, e, parent), st| numbered(*n, e, parent, true, st)));
    }
    // many vertices
    let cases: Vec<(usize, usize, usize)> = t.pick(vec![9usize, 17, 33, 40, 66], vec![9, 10, 16, 17, 32, 33, 34, 40, 64, 65, 66, 80, 130]).into_iter()
        .flat_map(|n| (0..n).step_by(if n > 50 { 7 } else { 1 }).flat_map(move |x| (0..n).step_by(if n > 50 { 5 } else { 1 }).map(move |y| (n, x, y)))).collect();
    v.push(list("many", "paths on 9 to 66 (thorough: 130) vertices numbered along the path but for one vertex (every one, at every place; from 50 vertices on every seventh at every fifth place), the circle through them, the path without its middle edge, stars, and double stars", cases,
        |&(n, x, y), st| {
            let mut order: Vec<usize> = (0..n).collect();
            let v = order.remove(x);
            order.insert(y, v);
            let edge = |a: usize, b: usize| (a.min(b), a.max(b));
            let path: Edges = order.windows(2).map(|w| edge(w[0], w[1])).collect();
            let circle: Edges = path.iter().cloned().chain([edge(order[0], order[n - 1])]).collect();
            let cut: Edges = path.iter().enumerate().filter(|(i, _)| *i != n / 2).map(|x| *x.1).collect();
            let star: Edges = (0..n).filter(|i| *i != x).map(|i| edge(i, x)).collect();
            let double: Edges = (0..n).filter(|i| *i != x && *i != y).map(|i| edge(i, if i % 3 == 0 { x } else { y })).chain((x != y).then(|| edge(x, y))).collect();
            for e in [path, circle, cut, star, double] {
                let set: BTreeSet<(usize, usize)> = e.iter().cloned().collect();
                let g = raw(n, &e);
                look(&g, n, &set)?;
                if x != y { let mut h = g.clone(); h.swap(x.min(y), x.max(y)); look(&h, n, &moved(&set, |z| if z == x { y } else if z == y { x } else { z }))?; }
                st.steps(2);
                st.outcome(set);
            }
            Ok(())
        }));
    // depth of each vertex after the first, as a word to be repeated: one deeper, or at depth 1, 2 or 3 (or as deep as possible)
    let deep: Vec<(usize, u64, usize, usize)> = t.pick(vec![10usize, 35, 66], vec![9, 10, 17, 33, 34, 35, 64, 65, 66, 90]).into_iter()
        .flat_map(|n| (1..=t.pick(3usize, 4)).flat_map(move |l| (0..pw(4, l)).flat_map(move |i| [0usize, 2, 3, 7].into_iter().map(move |q| (n, i, l, q))))).collect();
    v.push(list("large trees", "graphs on 10, 35 and 66 (thorough: 9 to 90) vertices numbered depth-first whose depths follow every word of up to 3 (thorough: 4) letters (one deeper, or depth 1, 2 or 3), alone and with edges from every second, third or seventh vertex to all its ancestors", deep,
        |&(n, i, l, q), st| {
            let w = word(i, l, &[0usize, 1, 2, 3]);
            let (mut parent, mut depth) = (vec![0usize; n], vec![0usize; n]);
            let mut e: Edges = vec![];
            for j in 1..n {
                depth[j] = match w[j % l] { 0 => depth[j - 1] + 1, d => d.min(depth[j - 1] + 1) };
                let mut p = j - 1;
                while depth[p] + 1 != depth[j] { p = parent[p]; }
                parent[j] = p;
                e.push((p, j));
                if q > 0 && j % q == 0 { while p != 0 { p = parent[p]; e.push((p, j)); } }
            }
            numbered(n, &e, &parent, false, st)
        }));
    // factors
    let n = t.pick(8usize, 12);
    let nf = (n + n * (n - 1) / 2) as u64;
    v.push(space("factors", &format!("all pairs of vertices and edges on {n} numbered vertices"), nf * nf, move |i| Some((factor((i / nf) as usize, n), factor((i % nf) as usize, n))),
        |&(a, b), st| {
            let (ca, cb) = (closure(a), closure(b));
            let dis = !ca.iter().any(|x| cb.contains(x));
            ensure!(a.is_disjoint_from(b) == dis, "is_disjoint_from is {}", a.is_disjoint_from(b));
            ensure!(a.is_edge() == (ca.len() == 2) && a.is_vertex() == (ca.len() == 1), "is_edge or is_vertex is wrong");
            ensure!(a.get_order() == ca[0], "get_order is {}", a.get_order());
            let want = if a == b { Some(Ordering::Equal) } else if dis { Some(ca[0].cmp(&cb[0])) } else { None };
            ensure!(a.partial_cmp(&b) == want, "{a} is compared to {b} as {:?}, should be {want:?}", a.partial_cmp(&b));
            ensure!((a == b) == (ca == cb), "equality is {}", a == b);
            if ca.len() == 2 {
                ensure!(a.edge() == [ca[0], ca[1]] && a.terminal() == CubeFactor::Vertex(ca[0]) && a.initial() == CubeFactor::Vertex(ca[1]), "ends of {a} are {} and {}", a.terminal(), a.initial());
                ensure!(a.is_order_respecting() == (ca[1] == ca[0] + 1), "is_order_respecting is {}", a.is_order_respecting());
                ensure!(guard(|| a.vertex()).is_err(), "vertex() of an edge");
                ensure!(a.to_string() == format!("[{} {}]", ca[0], ca[1]), "printed as {a}");
            } else {
                ensure!(a.vertex() == ca[0], "vertex() is {}", a.vertex());
                ensure!(guard(|| a.edge()).is_err() && guard(|| a.terminal()).is_err() && guard(|| a.initial()).is_err() && guard(|| a.is_order_respecting()).is_err(), "ends of a vertex");
                ensure!(a.to_string() == ca[0].to_string(), "printed as {a}");
                if cb.len() == 2 { ensure!(a.is_disrespected_by(b) == (cb[0] < ca[0] && ca[0] < cb[1]), "is_disrespected_by is {}", a.is_disrespected_by(b)); }
            }
            st.steps(6);
            st.outcome((ca, cb, want.map(|o| o as i8)));
            Ok(())
        }));
    v
}
