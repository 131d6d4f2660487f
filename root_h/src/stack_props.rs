//! Archive stacks, cons lists, finite maps.

use crate::model::*;
use crate::raz_props::hash_of;
use adapton::engine::*;
use iodyn::archive_stack::AStack;
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::{Head, Stack};
use pbt::{ensure, ensure_eq, Res, G};
use std::collections::HashMap;

// ---------------------------------------------------------------- archive stack model

type Meta = (u32, String);

/// Reference model: archived vectors with name and metadata, and the active vector
#[derive(Clone, Debug, PartialEq)]
pub struct MStack { arch: Vec<(Option<Name>, Meta, Vec<E>)>, cur: Vec<E> }
impl MStack {
    fn new() -> Self { MStack { arch: vec![], cur: vec![] } }
    fn is_empty(&self) -> bool { self.cur.is_empty() && self.arch.is_empty() }
    fn open(&mut self) -> Option<Meta> {
        if !self.cur.is_empty() { return None; }
        self.arch.pop().map(|(_, m, v)| { self.cur = v; m })
    }
    fn pop_meta(&mut self) -> Option<(E, Option<Meta>)> {
        let m = self.open();
        self.cur.pop().map(|e| (e, m))
    }
    fn peek(&self) -> Option<E> { self.cur.last().or_else(|| self.arch.last().and_then(|a| a.2.last())).cloned() }
    fn name(&self) -> Option<Name> { self.arch.last().and_then(|a| a.0.clone()) }
    fn archive(&mut self, n: Option<Name>, m: Meta) -> bool {
        if self.cur.is_empty() { return false; }
        let v = std::mem::replace(&mut self.cur, vec![]);
        self.arch.push((n, m, v));
        true
    }
    fn next_archive(&mut self) -> Option<(Vec<E>, Option<Meta>)> {
        if self.is_empty() { return None; }
        let old = std::mem::replace(&mut self.cur, vec![]);
        match self.arch.pop() {
            None => Some((old, None)),
            Some((_, m, v)) => { self.cur = v; Some((old, Some(m))) }
        }
    }
    fn all_down(&self) -> Vec<E> {
        let mut v: Vec<E> = self.arch.iter().flat_map(|a| a.2.iter().cloned()).chain(self.cur.iter().cloned()).collect();
        v.reverse();
        v
    }
}

fn astack_step(g: &mut G, s: &mut AStack<E, Meta>, m: &mut MStack, es: &mut Elems, nm: &mut Namer, how: Naming) -> Res {
    match g.weighted(&[6, 3, 2, 3, 2, 1, 1, 1]) {
        0 => {
            for _ in 0..g.range(1, 3) {
                let e = es.next(g);
                g.note(|| format!("push {}", e));
                s.push(e);
                m.cur.push(e);
            }
        }
        1 => {
            let a = s.pop();
            g.note(|| format!("pop -> {:?}", a));
            ensure_eq!(a, m.pop_meta().map(|x| x.0), "pop");
        }
        2 => {
            let opened = m.cur.is_empty() && !m.is_empty();
            let a = s.pop_meta();
            if opened { g.label("archive opened by pop_meta"); }
            g.note(|| format!("pop_meta -> {:?}", a));
            ensure_eq!(a, m.pop_meta(), "pop_meta");
        }
        3 => {
            let meta = (g.below(5) as u32, format!("m{}", g.below(3)));
            let n = maybe_name(g, nm, how);
            g.note(|| format!("archive {:?} {:?}", n, meta));
            let cap = g.chance(1, 3);
            let a = if cap { s.archive_with_capacity(n.clone(), meta.clone(), *g.pick(&[0, 1, 4, 500, 5000])) } else { s.archive(n.clone(), meta.clone()) };
            ensure_eq!(a, m.archive(n, meta), "whether anything was archived");
        }
        4 => {
            let a = s.next_archive();
            g.note(|| format!("next_archive -> {:?}", a));
            if let Some((_, Some(_))) = a { g.label("next_archive with metadata"); }
            ensure_eq!(a, m.next_archive(), "next_archive");
        }
        5 => {
            let n = if g.chance(1, 200) { g.label("long part"); g.upto(3000) } else { g.upto(4) };
            let v: Vec<E> = (0..n).map(|_| es.next(g)).collect();
            if m.cur.is_empty() && g.bool() {
                g.note(|| format!("extend_rev {:?}", v));
                s.extend_rev(&v);
                m.cur.extend(v.iter().rev());
            } else {
                g.note(|| format!("extend {:?}", v));
                s.extend(&v);
                m.cur.extend(v.iter());
            }
        }
        6 => {
            let v: Vec<E> = s.clone().into_iter().take(100_000).collect();
            ensure_eq!(v, m.all_down(), "iteration over a clone");
        }
        _ => { g.note(|| "observe".into()); }
    }
    ensure_eq!(s.peek(), m.peek(), "peek");
    ensure_eq!(s.is_empty(), m.is_empty(), "is_empty");
    ensure_eq!(s.active_len(), m.cur.len(), "length of the active part");
    ensure_eq!(*s.active_data(), m.cur, "active data");
    ensure_eq!(s.name(), m.name(), "name of the topmost archive");
    Ok(())
}

/// equality of two archive stacks is that of their contents, names and metadata
fn compare(g: &mut G, a: (&AStack<E, Meta>, &MStack), b: (&AStack<E, Meta>, &MStack)) -> Res {
    ensure_eq!(a.0 == b.0, a.1 == b.1, "whether stacks are equal: {:?} and {:?}", a.1, b.1);
    if a.1 == b.1 {
        g.label("equal stacks compared");
        ensure_eq!(hash_of(a.0), hash_of(b.0), "hashes of equal stacks: {:?}", a.1);
    } else { g.label("different stacks compared"); }
    Ok(())
}
/// the same stack, made from the bottom
fn remade(m: &MStack) -> AStack<E, Meta> {
    let mut s = AStack::new();
    for (n, meta, v) in &m.arch { s.extend(v); s.archive(n.clone(), meta.clone()); }
    for e in &m.cur { s.push(*e); }
    s
}

// ---------------------------------------------------------------- P14

pub fn p14(g: &mut G) -> Res {
    pick_mode(g);
    let how = gen_naming(g);
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let (mut s, mut m) = (if g.bool() { AStack::new() } else { AStack::with_capacity(g.upto(20)) }, MStack::new());
    let n = g.len(25, 120);
    let (mut arch, mut cross) = (0, 0);
    for _ in 0..n {
        let before = m.arch.len();
        astack_step(g, &mut s, &mut m, &mut es, &mut nm, how)?;
        if m.arch.len() > before { arch += 1; }
        if m.arch.len() < before { cross += 1; }
    }
    if arch >= 2 && cross >= 1 { g.nontrivial(); }
    if m.arch.iter().all(|a| !a.2.is_empty()) {
        let r = remade(&m);
        compare(g, (&s, &m), (&r, &m))?;
        let (mut s2, mut m2) = (s.clone(), m.clone());
        for _ in 0..g.range(1, 2) { astack_step(g, &mut s2, &mut m2, &mut es, &mut nm, how)?; }
        compare(g, (&s, &m), (&s2, &m2))?;
    }
    match g.weighted(&[2, 1, 1]) {
        0 => {
            let v: Vec<E> = s.into_iter().take(100_000).collect();
            ensure_eq!(v, m.all_down(), "iteration from the top down");
        }
        1 => loop {
            let (a, b) = (s.next_archive(), m.next_archive());
            ensure_eq!(a, b, "taking the stack apart with next_archive");
            if b.is_none() { break; }
        },
        _ => loop {
            let (a, b) = (s.pop_meta(), m.pop_meta());
            ensure_eq!(a, b, "emptying the stack with pop_meta");
            if b.is_none() { break; }
        },
    }
    // plain conversion
    let v: Vec<E> = (0..g.upto(5)).map(|_| es.next(g)).collect();
    let c: AStack<E, ()> = AStack::from(v.clone());
    ensure_eq!(*c.active_data(), v, "stack from a vector");
    ensure_eq!(c.into_iter().collect::<Vec<_>>(), v.into_iter().rev().collect::<Vec<_>>(), "iterating a stack from a vector");
    Ok(())
}

pub fn p13_astack(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let how = if mode == Mode::Dcg { Naming::None } else { gen_naming(g) };
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let mut pool = vec![(AStack::new(), MStack::new())];
    let n = g.len(30, 100);
    for _ in 0..n {
        let i = g.upto(pool.len() - 1);
        if pool.len() < 8 && g.chance(1, 6) {
            g.note(|| format!("clone stack {} -> {}", i, pool.len()));
            let c = pool[i].clone();
            pool.push(c);
        } else {
            g.note(|| format!("stack {}:", i));
            let (s, m) = &mut pool[i];
            astack_step(g, s, m, &mut es, &mut nm, how)?;
        }
    }
    if pool.len() >= 3 && pool.iter().any(|p| p.1.arch.len() >= 2) { g.nontrivial(); g.label("archive stacks"); }
    for (i, (s, m)) in pool.iter().enumerate() {
        for (s2, m2) in pool.iter().skip(i + 1) { compare(g, (s, m), (s2, m2))?; }
        ensure_eq!(s.clone().into_iter().take(100_000).collect::<Vec<_>>(), m.all_down(), "contents of stack {}", i);
    }
    for (i, (s, m)) in pool.iter_mut().enumerate() {
        loop {
            let (a, b) = (s.next_archive(), m.next_archive());
            ensure_eq!(a, b, "archives of stack {}", i);
            if b.is_none() { break; }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P15

type Cell = (Option<Name>, E);
fn check_list(what: &str, s: &Stack<E>, m: &[Cell]) -> Res {
    ensure_eq!(s.is_empty(), m.is_empty(), "{}: is_empty", what);
    ensure_eq!(s.peek(), m.last().map(|c| c.1), "{}: peek", what);
    ensure_eq!(s.name(), m.last().and_then(|c| c.0.clone()), "{}: name", what);
    let mut it = s.iter();
    let mut got = vec![];
    loop {
        let n = it.name();
        match it.next() { Some(e) => got.push((n, e)), None => { ensure!(n.is_none(), "{}: a name after the last element", what); break } }
        if got.len() > m.len() + 5 { break; }
    }
    let mut want = m.to_vec();
    want.reverse();
    ensure_eq!(got, want, "{}: names and elements from the top", what);
    Ok(())
}

/// what to push: mostly new; without the incremental engine names need not be unique, and the
/// cell about to be pushed may repeat the name and the element of one that is there
fn cell_of(g: &mut G, reuse: bool, m: &[Cell], es: &mut Elems, nm: &mut Namer, how: Naming) -> Cell {
    let (mut n, mut e) = (maybe_name(g, nm, how), es.next(g));
    if reuse && !m.is_empty() && g.chance(1, 3) {
        let old = if g.bool() { &m[m.len() - 1] } else { g.pick(m) }.clone();
        if g.chance(3, 4) { n = old.0 }
        if g.chance(3, 4) { e = old.1 }
        g.label("name or element repeated");
    }
    (n, e)
}

fn list_session(g: &mut G, how: Naming, reuse: bool) -> Res {
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let mut pool: Vec<(Stack<E>, Vec<Cell>)> = vec![(if g.bool() { Stack::new() } else { Stack(None) }, vec![])];
    let n = g.len(30, 150);
    let mut forks = 0;
    for _ in 0..n {
        // mostly work on the newest, sometimes on an older one
        let i = if g.chance(2, 3) { pool.len() - 1 } else { g.upto(pool.len() - 1) };
        if i + 1 != pool.len() { forks += 1; }
        let (s, m) = pool[i].clone();
        let new = match if g.chance(1, 1500) { 4 } else { g.weighted(&[5, 3, 1, 1]) } {
            4 => {
                let k = g.upto(1500);
                g.label("long list");
                g.note(|| format!("list {}: {} pushes -> list {}", i, k, pool.len()));
                let (mut s2, mut m2) = (s.clone(), m.clone());
                for _ in 0..k {
                    let (n, e) = cell_of(g, reuse, &m2, &mut es, &mut nm, how);
                    s2 = s2.push(n.clone(), e);
                    m2.push((n, e));
                }
                Some((s2, m2))
            }
            0 => {
                let (n, e) = cell_of(g, reuse, &m, &mut es, &mut nm, how);
                g.note(|| format!("list {}: push {:?} {} -> list {}", i, n, e, pool.len()));
                let mut m2 = m.clone();
                m2.push((n.clone(), e));
                Some((s.push(n, e), m2))
            }
            1 => {
                g.note(|| format!("list {}: pull -> list {}", i, pool.len()));
                let p = s.pull();
                ensure_eq!(p.is_none(), m.is_empty(), "pull on an empty list");
                p.map(|p| (p, m[..m.len() - 1].to_vec()))
            }
            2 => {
                // the same through the non-empty interface
                let (n, e) = cell_of(g, reuse, &m, &mut es, &mut nm, how);
                g.note(|| format!("list {}: Head push {:?} {} -> list {}", i, n, e, pool.len()));
                let h = match s.0 { Some(ref h) => h.push(n.clone(), e), None => Head::new(n.clone(), e) };
                ensure_eq!(h.peek(), e, "peek of a head");
                ensure_eq!(h.name(), n, "name of a head");
                let mut m2 = m.clone();
                m2.push((n, e));
                let got: Vec<E> = h.iter().take(m2.len() + 5).collect();
                ensure_eq!(got, m2.iter().rev().map(|c| c.1).collect::<Vec<_>>(), "iterating a head");
                Some((Stack(Some(h)), m2))
            }
            _ => {
                match s.0 {
                    Some(ref h) => {
                        g.note(|| format!("list {}: Head pull -> list {}", i, pool.len()));
                        Some((Stack(h.pull()), m[..m.len() - 1].to_vec()))
                    }
                    None => None,
                }
            }
        };
        if let Some((s, m)) = new {
            check_list("new list", &s, &m)?;
            pool.push((s, m));
            if pool.len() > 40 { pool.remove(g.upto(38)); }
        }
    }
    if forks >= 2 && pool.iter().any(|p| p.1.len() >= 3) { g.nontrivial(); g.label("lists"); }
    for (i, (s, m)) in pool.iter().enumerate() { check_list(&format!("list {}", i), s, m)?; }
    // equality is that of what was pushed
    for (i, (s, m)) in pool.iter().enumerate() {
        for (j, (s2, m2)) in pool.iter().enumerate().skip(i) {
            ensure_eq!(s == s2, m == m2, "whether lists {} and {} are equal: {:?} and {:?}", i, j, m, m2);
            if m == m2 {
                if i != j { g.label("equal lists compared"); }
                ensure_eq!(hash_of(s), hash_of(s2), "hashes of equal lists {} and {}: {:?}", i, j, m);
            }
        }
    }
    Ok(())
}

pub fn p15(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let how = gen_naming(g);
    list_session(g, how, mode == Mode::Naive)
}

pub fn p13_list(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let how = if mode == Mode::Dcg { Naming::None } else { gen_naming(g) };
    list_session(g, how, mode == Mode::Naive)
}

// ---------------------------------------------------------------- P19

fn finmap<K>(g: &mut G, keys: &[K], deep: bool) -> Res
where K: 'static + Eq + Clone + std::fmt::Debug + std::hash::Hash
{
    let mode = pick_mode(g);
    let path_len = match g.weighted(&if deep { [1, 1, 3, 4] } else { [6, 6, 2, 1] }) { 0 => g.range(1, 4), 1 => g.range(5, 16), 2 => *g.pick(&[31usize, 32, 33, 63, 64]), _ => g.range(17, 64) };
    g.label(if path_len <= 4 { "narrow hash (collisions)" } else { "wide hash" });
    g.note(|| format!("{} hash bits, {} keys", path_len, keys.len()));
    let mut nm = Namer(0);
    let mut pool: Vec<(Skiplist<K, u32>, HashMap<K, u32>)> = vec![(Skiplist::emp(path_len, nm.next()), HashMap::new())];
    let n = g.len(40, 250);
    let (mut over, mut gone) = (0, 0);
    // some histories never renew the name of the head
    let archives = if g.chance(3, 4) { 1 } else { 0 };
    if keys.len() >= 100 && g.bool() {
        g.label("filled first");
        g.note(|| "put every key, with its position".to_string());
        for (i, k) in keys.iter().enumerate() {
            ensure_eq!(pool[0].0.ext(k.clone(), Some(i as u32)), None, "prior value of {:?}", k);
            pool[0].1.insert(k.clone(), i as u32);
        }
    }
    if g.chance(1, 8_000) {
        g.label("thousands of updates");
        let (k, seed, span) = (*g.pick(&[300u64, 1200, 5000]), g.u64(), g.range(1, keys.len()));
        for key in keys { ensure_eq!(pool[0].0.ext(key.clone(), Some(7)), pool[0].1.insert(key.clone(), 7), "prior value of {:?}", key); }
        g.note(|| format!("every key put, then {} updates in a row of the first {}", k, span));
        let mut x = seed;
        for j in 0..k {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let key = &keys[(x >> 33) as usize % span];
            let v = if (x >> 20) % 4 == 0 { None } else { Some(j as u32) };
            let b = match v { Some(v) => pool[0].1.insert(key.clone(), v), None => pool[0].1.remove(key) };
            ensure_eq!(pool[0].0.ext(key.clone(), v), b, "prior value of {:?} at update {}", key, j);
        }
    }
    for _ in 0..n {
        let i = g.upto(pool.len() - 1);
        let k = g.pick(keys).clone();
        let np = pool.len();
        let (s, m) = &mut pool[i];
        match g.weighted(&[6, 2, 2, 3, archives, 1]) {
            0 => {
                let v = g.below(1000) as u32;
                g.note(|| format!("map {}: put {:?} {}", i, k, v));
                s.put(k.clone(), v);
                if m.insert(k.clone(), v).is_some() { over += 1; }
            }
            1 => {
                let a = s.rem(k.clone());
                g.note(|| format!("map {}: rem {:?} -> {:?}", i, k, a));
                let b = m.remove(&k);
                if b.is_some() { gone += 1; }
                ensure_eq!(a, b, "value removed for {:?}", k);
            }
            2 => {
                let v = if g.bool() { Some(g.below(1000) as u32) } else { None };
                let a = s.ext(k.clone(), v);
                g.note(|| format!("map {}: ext {:?} {:?} -> {:?}", i, k, v, a));
                let b = match v { Some(v) => m.insert(k.clone(), v), None => m.remove(&k) };
                ensure_eq!(a, b, "prior value of {:?}", k);
            }
            3 => {
                let a = s.get(k.clone());
                g.note(|| format!("map {}: get {:?} -> {:?}", i, k, a));
                ensure_eq!(a, m.get(&k).cloned(), "value of {:?}", k);
            }
            4 => {
                let n = nm.next();
                g.note(|| format!("map {}: archive {:?}", i, n));
                s.archive(n);
            }
            _ => {
                if np >= 5 { continue; }
                if mode == Mode::Dcg || g.chance(1, 4) {
                    // under the incremental engine all cells are named, so copies share them, but not maps with other names
                    let n = nm.next();
                    g.note(|| format!("new map {}, named {:?}", np, n));
                    g.label("several maps");
                    pool.push((Skiplist::emp(path_len, n), HashMap::new()));
                } else {
                    g.note(|| format!("clone map {} -> {}", i, np));
                    g.label("copies");
                    let c = (s.clone(), m.clone());
                    pool.push(c);
                }
            }
        }
    }
    if over >= 2 && gone >= 1 && n >= 15 { g.nontrivial(); }
    for (i, (s, m)) in pool.iter().enumerate() {
        for k in keys { ensure_eq!(s.get(k.clone()), m.get(k).cloned(), "map {}: value of {:?} at the end", i, k); }
    }
    Ok(())
}

/// keys whose hashes share their lowest 20 or more bits with a neighbour, neighbours side by side
fn alike() -> &'static [u64] {
    static T: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<(u64, u64)> = (0..100_000u64).map(|k| (crate::raz_props::hash_of(&k).reverse_bits(), k)).collect();
        v.sort();
        let near = |i: usize, j: usize| (v[i].0 ^ v[j].0).leading_zeros() >= 20;
        (0..v.len()).filter(|&i| (i > 0 && near(i - 1, i)) || (i + 1 < v.len() && near(i, i + 1))).map(|i| v[i].1).collect()
    })
}

pub fn p19(g: &mut G) -> Res {
    match g.weighted(&[3, 1, 1, 1]) {
        0 => { let n = g.range(1, 30) as u32; finmap::<u32>(g, &(0..n).collect::<Vec<_>>(), false) }
        1 => { let n = if g.chance(1, 50) { g.range(100, 600) } else { g.range(1, 60) }; let v: Vec<u64> = (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect(); finmap::<u64>(g, &v, false) }
        2 => {
            // runs of keys whose hashes begin alike
            let t = alike();
            let n = g.range(2, 24);
            let at = g.upto(t.len() - n);
            g.label("hashes alike in their first bits");
            finmap::<u64>(g, &t[at..at + n], true)
        }
        _ => { let n = g.range(1, 20); let v: Vec<String> = (0..n).map(|i| "k".repeat(i + 1)).collect(); finmap::<String>(g, &v, false) }
    }
}
