//! C01: bit pools and labelled sets are finite sets.  C02: enumeration of k-subsets.
use crate::engine::*;
use crate::{ensure, Tier};
use std::collections::BTreeSet;
use util::{bitwise, BinaryPool, LabeledSet, TupleIterable};

#[derive(Clone)]
struct P { real: BinaryPool, len: usize, set: BTreeSet<usize> }
impl P {
    fn new(len: usize) -> P { P { real: BinaryPool::new(len), len, set: BTreeSet::new() } }
    fn check(&self, what: &str) -> Check {
        let r = &self.real;
        ensure!(r.len() == self.len, "{what}: len() = {}, expected {}", r.len(), self.len);
        ensure!(r.n_elements() == self.set.len(), "{what}: n_elements() = {}, expected {}", r.n_elements(), self.set.len());
        ensure!(r.is_full() == (self.set.len() == self.len), "{what}: is_full() = {} with {} of {} elements", r.is_full(), self.set.len(), self.len);
        for i in 0..self.len { ensure!(r.contains(i) == self.set.contains(&i), "{what}: contains({i}) = {}", r.contains(i)); }
        let it: Vec<usize> = r.iter().collect();
        let want: Vec<usize> = self.set.iter().cloned().collect();
        ensure!(it == want, "{what}: iter() = {it:?}, expected {want:?}");
        let bits: Vec<&str> = (0..self.len).map(|i| if self.set.contains(&i) { "1" } else { "0" }).collect();
        ensure!(format!("{r:?}") == format!("len = {}, n_elements = {}, data = [{}]", self.len, self.set.len(), bits.join(", ")), "{what}: printed as {r:?}");
        // an equal set built afresh is equal
        let fresh = BinaryPool::from(self.len, want.clone());
        ensure!(*r == fresh, "{what}: not equal to a pool with the same members built afresh");
        ensure!(r.is_subset_of(&fresh) && fresh.is_subset_of(r), "{what}: not a subset of an equal pool");
        Ok(())
    }
    fn key(&self) -> (usize, Vec<usize>) { (self.len, self.set.iter().cloned().collect()) }
}

#[derive(Clone, Debug)]
enum Op { Add(usize), Remove(usize), Fill, Resize(usize), Union, Inter, Swap, FromSelf, Bad(usize) }

struct Pools { lens: Vec<usize>, idx: Vec<usize>, resize: Vec<usize>, pair: bool, depth: usize }
impl Model for Pools {
    type State = (P, P);
    type Op = Op;
    type Key = ((usize, Vec<usize>), (usize, Vec<usize>));
    fn n_init(&self) -> u64 { self.lens.len() as u64 }
    fn init(&self, i: u64) -> Result<(P, P), String> {
        let l = self.lens[i as usize];
        let p = P::new(l);
        p.check("new")?;
        Ok((p.clone(), p))
    }
    fn show_init(&self, i: u64) -> String { format!("two empty pools of length {}", self.lens[i as usize]) }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &(P, P)) -> Vec<Op> {
        let mut v = Vec::new();
        for &i in &self.idx { if i < s.0.len { v.push(Op::Add(i)); v.push(Op::Remove(i)); } }
        v.push(Op::Fill);
        v.push(Op::FromSelf);
        for &n in &self.resize { v.push(Op::Resize(n)); }
        if self.pair { v.push(Op::Union); v.push(Op::Inter); v.push(Op::Swap); }
        v.push(Op::Bad(s.0.len));
        v.push(Op::Bad(s.0.len + 63));
        v
    }
    fn apply(&self, s: &(P, P), op: &Op) -> Result<Option<(P, P)>, String> {
        let (mut a, mut b) = s.clone();
        match op {
            Op::Add(i) => { a.real.add(*i); a.set.insert(*i); }
            Op::Remove(i) => { a.real.remove(*i); a.set.remove(i); }
            Op::Fill => { a.real.fill(); a.set = (0..a.len).collect(); }
            Op::Resize(n) => { a.real.resize(*n); a.len = a.len.max(*n); }
            Op::FromSelf => {
                let mut v: Vec<usize> = a.set.iter().cloned().collect();
                v.reverse();
                if let Some(&x) = v.first() { v.push(x); } // a repeated index is one element
                a.real = BinaryPool::from(a.len, v);
            }
            Op::Union | Op::Inter => {
                let un = matches!(op, Op::Union);
                let (x, y) = (a.real.clone(), b.real.clone());
                if a.len != b.len {
                    ensure!(guard(|| if un { x.union(y) } else { x.intersection(y) }).is_err(), "{op:?} of pools of lengths {} and {} was accepted", a.len, b.len);
                    ensure!(guard(|| a.real.is_subset_of(&b.real)).is_err(), "is_subset_of of pools of lengths {} and {} was accepted", a.len, b.len);
                    return Ok(None);
                }
                a.real = if un { x.union(y) } else { x.intersection(y) };
                a.set = if un { a.set.union(&b.set).cloned().collect() } else { a.set.intersection(&b.set).cloned().collect() };
            }
            Op::Swap => std::mem::swap(&mut a, &mut b),
            Op::Bad(i) => {
                let i = *i;
                ensure!(guard(|| a.real.contains(i)).is_err(), "contains({i}) accepted on a pool of length {}", a.len);
                let mut c = a.real.clone();
                ensure!(guard(|| c.add(i)).is_err(), "add({i}) accepted on a pool of length {}", a.len);
                let mut c = a.real.clone();
                ensure!(guard(|| c.remove(i)).is_err(), "remove({i}) accepted on a pool of length {}", a.len);
                return Ok(None);
            }
        }
        a.check("first pool")?;
        if self.pair {
            b.check("second pool")?;
            let same = a.len == b.len && a.set == b.set;
            ensure!((a.real == b.real) == same, "equality of the two pools is {}, expected {same}", a.real == b.real);
            if a.len == b.len {
                ensure!(a.real.is_subset_of(&b.real) == a.set.is_subset(&b.set), "is_subset_of = {}", a.real.is_subset_of(&b.real));
                ensure!(b.real.is_subset_of(&a.real) == b.set.is_subset(&a.set), "is_subset_of (reversed) = {}", b.real.is_subset_of(&a.real));
            }
        }
        Ok(Some((a, b)))
    }
    fn key(&self, s: &(P, P)) -> Self::Key { (s.0.key(), s.1.key()) }
}

struct Labels { n: Vec<usize>, probe: Vec<usize>, depth: usize }
#[derive(Clone)]
struct L { real: LabeledSet<String>, other: LabeledSet<String>, set: BTreeSet<usize>, oset: BTreeSet<usize>, n: usize }
fn label(i: usize) -> String { format!("label-{}", (i * 37) % 211) }
impl Model for Labels {
    type State = L;
    type Op = (u8, usize);
    type Key = (Vec<usize>, Vec<usize>);
    fn n_init(&self) -> u64 { self.n.len() as u64 }
    fn init(&self, i: u64) -> Result<L, String> {
        let n = self.n[i as usize];
        let real = LabeledSet::new((0..n).map(label).collect());
        Ok(L { other: real.clone(), real, set: BTreeSet::new(), oset: BTreeSet::new(), n })
    }
    fn show_init(&self, i: u64) -> String { format!("labelled set over {} labels", self.n[i as usize]) }
    fn depth(&self) -> usize { self.depth }
    fn ops(&self, s: &L) -> Vec<(u8, usize)> {
        let mut v = Vec::new();
        for &i in &self.probe { if i < s.n { v.push((0, i)); v.push((1, i)); } }
        v.push((2, 0));
        v.push((3, 0));
        v
    }
    fn apply(&self, s: &L, op: &(u8, usize)) -> Result<Option<L>, String> {
        let mut x = s.clone();
        match op.0 {
            0 => { x.real.add(label(op.1)); x.set.insert(op.1); }
            1 => { x.real.remove(label(op.1)); x.set.remove(&op.1); }
            2 => { std::mem::swap(&mut x.real, &mut x.other); std::mem::swap(&mut x.set, &mut x.oset); }
            _ => {
                ensure!(guard(|| x.real.add("no such label".into())).is_err(), "add of an unregistered label was accepted");
                let mut y = s.clone();
                ensure!(guard(|| y.real.remove("no such label".into())).is_err(), "remove of an unregistered label was accepted");
                return Ok(None);
            }
        }
        ensure!(x.real.n_elements() == x.set.len(), "n_elements() = {}, expected {}", x.real.n_elements(), x.set.len());
        let got: Vec<String> = x.real.iter().cloned().collect();
        let want: Vec<String> = x.set.iter().map(|&i| label(i)).collect();
        ensure!(got == want, "iter() = {got:?}, expected {want:?}");
        let shown = x.real.to_string();
        ensure!(shown == format!("{{{}}}", want.join(", ")), "displayed as {shown}");
        ensure!((x.real == x.other) == (x.set == x.oset), "equality is {}", x.real == x.other);
        Ok(Some(x))
    }
    fn key(&self, s: &L) -> Self::Key { (s.set.iter().cloned().collect(), s.oset.iter().cloned().collect()) }
}

pub fn c01(t: Tier) -> Spaces {
    let edge = vec![0, 1, 62, 63, 64, 65, 126, 127, 128];
    let mut v: Spaces = vec![
        bfs("one pool, every history", "lengths 0..=5 with all indices, all histories (closure), resizes to 0..=8",
            Pools { lens: (0..=5).collect(), idx: (0..8).collect(), resize: (0..=8).collect(), pair: false, depth: 40 }),
        bfs("one pool across word boundaries", "lengths 0,1,2,62..66,126..130; add/remove at word-boundary indices, fill, resize, rebuild; closure up to depth",
            Pools { lens: vec![0, 1, 2, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130], idx: edge.clone(), resize: vec![1, 63, 64, 65, 127, 128, 129], pair: false, depth: t.pick(16, 24) }),
        bfs("two pools, small", "two pools of length 0..=3, all indices, union/intersection/subset/equality, closure",
            Pools { lens: vec![0, 1, 2, 3], idx: vec![0, 1, 2, 3], resize: vec![3, 4], pair: true, depth: t.pick(20, 28) }),
        bfs("two pools across word boundaries", "two pools of length 63,64,65,128,129; word-boundary indices; union/intersection/subset/equality",
            Pools { lens: vec![63, 64, 65, 128, 129], idx: vec![0, 62, 63, 64, 127, 128], resize: vec![64, 65, 129], pair: true, depth: t.pick(7, 9) }),
        bfs("two long pools", "two pools of length 191 to 193, 255 to 257, 511 to 513, 1000 and 1025, indices next to multiples of 64, all histories of 3 (thorough: 4) steps",
            Pools { lens: vec![191, 192, 193, 255, 256, 257, 511, 512, 513, 1000, 1025], idx: vec![0, 63, 64, 127, 190, 192, 255, 256, 511, 512, 999], resize: vec![193, 256, 257, 512, 1025], pair: true, depth: t.pick(3, 4) }),
        bfs("labelled sets", "pairs of labelled sets over 0..=4 labels (closure) and over 63..=66 and 130 labels (word-boundary labels)",
            Labels { n: vec![0, 1, 2, 3, 4, 63, 64, 65, 66, 130], probe: vec![0, 1, 2, 3, 63, 64, 129], depth: t.pick(11, 14) }),
    ];
    let long: Vec<(usize, usize)> = [4095usize, 4096, 4097, 65535, 65536, 65537, 70000].into_iter().flat_map(|n| (0..pw(5, 3) as usize).map(move |w| (n, w))).collect();
    v.push(list("very long pools", "pools of length 4095 to 70000: every word of three steps out of filling, removing every third, growing, joining and meeting the multiples of 5", long, |&(n, w), st| {
        let mut p = P::new(n);
        for i in (0..n).step_by(2) { p.real.add(i); p.set.insert(i); }
        for k in 0..3 {
            match w / 5usize.pow(k) % 5 {
                0 => { p.real.fill(); p.set = (0..p.len).collect(); }
                1 => for i in (0..p.len).step_by(3) { p.real.remove(i); p.set.remove(&i); },
                2 => { p.len += 64; p.real.resize(p.len); }
                x => {
                    let five = BinaryPool::from(p.len, (0..p.len).step_by(5).collect());
                    let s: BTreeSet<usize> = (0..p.len).step_by(5).collect();
                    (p.real, p.set) = if x == 3 { (p.real.union(five), p.set.union(&s).cloned().collect()) } else { (p.real.intersection(five), p.set.intersection(&s).cloned().collect()) };
                }
            }
            st.step();
        }
        st.outcome((n, p.set.len()));
        p.check("after three steps")
    }));
    v.push(space("counting set bits", "all 64-bit words that are a 16-bit pattern at one of 13 shifts, or its complement", 65536 * 26,
        |i| { let (p, s) = (i / 26, i % 26); let w = (p) << ((s / 2) * 4); Some(if s % 2 == 0 { w } else { !w }) },
        |&w: &u64, st: &mut Stats| { let r = bitwise::count_ones(w); st.step(); st.outcome(r); ensure!(r == w.count_ones() as usize, "count_ones({w:#x}) = {r}"); Ok(()) }));
    v
}

pub fn c02(t: Tier) -> Spaces {
    let max = t.pick(23usize, 26);
    let mut cases = Vec::new();
    for n in 0..=max { for k in 1..=n + 2 { cases.push((n, k)); } }
    for n in max + 1..=70 { for k in [1, 2, n - 1, n, n + 1] { cases.push((n, k)); } }
    for n in max + 1..=t.pick(70, 130) { for k in [3, n - 2] { cases.push((n, k)); } }
    for n in max + 1..=t.pick(36, 48) { for k in [4, 5, n - 3] { cases.push((n, k)); } }
    for n in [64usize, 65, 128, 200] { for k in [1, 2] { cases.push((n, k)); } cases.push((n, n)); cases.push((n, n - 1)); cases.push((n, n + 1)); }
    for n in [255usize, 256, 257, 300] { for k in [1, 2, n, n + 1] { cases.push((n, k)); } if n < 300 { cases.push((n, n - 1)); } }
    for n in [65535usize, 65537, 70000] { cases.push((n, 1)); }
    vec![list("k-subsets in lexicographic order", &format!("all n <= {max} with 1 <= k <= n+2; n up to 70 and n in 64,65,128,200 with k in 1,2,n-1,n,n+1; n up to {} with k in 3,n-2; n up to {} with k in 4,5,n-3; n in 255,256,257,300 with k in 1,2,n-1,n,n+1; n in 65535,65537,70000 with k = 1", t.pick(70, 130), t.pick(36, 48)), cases,
        |&(n, k), st| {
            let data: Vec<usize> = (0..n).map(|i| i * 7 + 3).collect();
            let mut it = data.tuple_iter(k);
            let mut idx: Vec<usize> = (0..k).collect();
            let mut more = k <= n;
            let mut count = 0u64;
            while more {
                let want: Vec<usize> = idx.iter().map(|&i| data[i]).collect();
                let got: Option<Vec<usize>> = it.next().map(|v| v.into_iter().cloned().collect());
                st.step();
                ensure!(got.as_ref() == Some(&want), "item {count} is {got:?}, expected {want:?}");
                count += 1;
                // advance the reference odometer
                more = false;
                for p in (0..k).rev() { if idx[p] < n - k + p { idx[p] += 1; for q in p + 1..k { idx[q] = idx[q - 1] + 1; } more = true; break; } }
            }
            for _ in 0..3 { let g = it.next(); ensure!(g.is_none(), "an item after the last one: {g:?}"); }
            st.outcome(count);
            Ok(())
        })]
}
