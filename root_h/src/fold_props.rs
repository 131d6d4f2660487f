//! Whole-sequence computations: folds, maps, conversions, incremental reruns.

use crate::model::*;
use crate::raz_props::{branch_pairs, hash_of, joined, session, session_with};
use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, Names, RazMeta};
use pbt::{ensure, ensure_eq, Res, G};
use std::cell::Cell;
use iodyn::skiplist::{FinMap, Skiplist};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

/// A sequence to compute over, from any of the ways the library makes one.
pub fn source<M: GenMeta>(g: &mut G) -> Result<(RazTree<E, M>, Vec<It>), String> {
    let how = gen_naming(g);
    match g.weighted(&[6, 1, 1, 1]) {
        0 => session::<M, _>(g, 2, 10, how, |_, _, _| Ok(())),
        1 => {
            g.label("source: from_vec");
            let n = g.len(4, 700);
            let v: Vec<E> = (0..n).map(|k| (k * 7 % 13) as E).collect();
            let t = RazTree::from_vec(v.clone());
            ensure_eq!(t.is_none(), v.is_empty(), "from_vec of {} elements is None", v.len());
            let t = t.unwrap_or_else(RazTree::empty);
            let d: Vec<It> = v.into_iter().map(El).collect();
            g.note(|| format!("from_vec {}", show(&d)));
            M::check_meta(&t, &d)?;
            ensure_eq!(t.is_empty(), d.is_empty(), "is_empty");
            Ok((t, d))
        }
        2 => {
            g.label("source: join");
            let (a, da) = session::<M, _>(g, 1, 8, Naming::None, |_, _, _| Ok(()))?;
            let v: Vec<E> = (0..g.range(1, 5)).map(|k| 500 + k as E).collect();
            let b = RazTree::from_vec(v.clone()).ok_or("from_vec")?;
            if da.is_empty() { return Ok((a, da)); }
            // any level will do here: folds and maps do not depend on canonical structure
            let lev = if g.chance(1, 4) { gen_level(g) } else { u32::max_value() };
            let n = if g.bool() { Some(name_of_string("joint".into())) } else { None };
            let swap = g.bool() && bounds(&da).is_empty();
            let (x, y, mut d, e) = if swap { (b, a, v.into_iter().map(El).collect::<Vec<_>>(), da) } else { (a, b, da, v.into_iter().map(El).collect()) };
            let j = RazTree::join(x, lev, n.clone(), y).ok_or("join of non-empty trees failed")?;
            d.push(Bd(lev, n));
            d.extend(e);
            g.note(|| format!("join: {}", show(&d)));
            M::check_meta(&j, &d)?;
            Ok((j, d))
        }
        _ => {
            g.label("source: stack");
            let mut nm = Namer(0);
            let (st, d) = gen_stack(g, &mut nm, how, 10);
            let t: RazTree<E, M> = fresh_ns(|| RazTree::memo_from(&AtTail(st)));
            g.note(|| format!("from stack: {}", show(&d)));
            M::check_meta(&t, &d)?;
            Ok((t, d))
        }
    }
}

// affine maps over u32: composition is associative and not commutative
pub type Aff = (u32, u32);
pub fn aff(e: &E) -> Aff { (e.wrapping_mul(2).wrapping_add(3), e.wrapping_mul(5).wrapping_add(1)) }
pub fn then(a: Aff, b: Aff) -> Aff { (a.0.wrapping_mul(b.0), a.1.wrapping_mul(b.0).wrapping_add(b.1)) }
fn aff_ref(v: &[E]) -> Option<Aff> { let mut i = v.iter().map(aff); let f = i.next()?; Some(i.fold(f, then)) }

fn mark(g: &mut G, d: &[It]) {
    if bounds(d).len() >= 2 && elems(d).len() >= 4 { g.nontrivial(); }
    if d.is_empty() { g.label("empty"); }
}

// ---------------------------------------------------------------- P05

fn p05_with<M: GenMeta>(g: &mut G) -> Res {
    let (t, d) = source::<M>(g)?;
    mark(g, &d);
    let v = elems(&d);
    // bottom-up fold with concatenation
    let r = fresh_ns(|| t.clone().fold_up(Rc::new(|e: &E| vec![*e]), Rc::new(|mut a: Vec<E>, b: Vec<E>| { a.extend(b); a })));
    ensure_eq!(r, if v.is_empty() { None } else { Some(v.clone()) }, "fold_up with concatenation over {}", show(&d));
    let r = fresh_ns(|| t.clone().fold_up(Rc::new(aff), Rc::new(then)));
    ensure_eq!(r, aff_ref(&v), "fold_up with function composition over {}", show(&d));
    let r = fresh_ns(|| t.clone().fold_up(Rc::new(|e: &E| *e), Rc::new(|a: E, b: E| a.max(b))));
    ensure_eq!(r, v.iter().cloned().max(), "fold_up with max over {}", show(&d));
    let r = fresh_ns(|| t.clone().fold_up(Rc::new(|e: &E| (*e as u64, 1u64)), Rc::new(|a: (u64, u64), b: (u64, u64)| (a.0 + b.0, a.1 + b.1))));
    ensure_eq!(r, if v.is_empty() { None } else { Some((v.iter().map(|e| *e as u64).sum(), v.len() as u64)) }, "fold_up with sum and count over {}", show(&d));
    // with levels and names
    let r = fresh_ns(|| t.clone().fold_up_nl(
        Rc::new(|e: &E| vec![El(*e)]),
        Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
        Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { a.push(Bd(l, n)); a.extend(b); a })));
    ensure_eq!(r.unwrap_or_default(), d, "fold_up_nl");
    // by subsequence
    let r = fresh_ns(|| t.clone().fold_up_gauged(
        Rc::new(|c: &Vec<E>| (vec![c.clone()], vec![])),
        Rc::new(|mut a: (Vec<Vec<E>>, Vec<(u32, Option<Name>)>), l, n, b: (Vec<Vec<E>>, Vec<(u32, Option<Name>)>)| { a.1.push((l, n)); a.0.extend(b.0); a.1.extend(b.1); a })));
    ensure_eq!(r.is_none(), d.is_empty(), "fold_up_gauged is None");
    let (c, b) = r.unwrap_or_default();
    ensure_eq!(c, chunks(&d), "subsequences given to fold_up_gauged");
    ensure_eq!(b, bounds(&d), "archive points given to fold_up_gauged");
    Ok(())
}
pub fn p05(g: &mut G) -> Res {
    pick_mode(g);
    match g.weighted(&[4, 1, 1]) { 0 => p05_with::<Count>(g), 1 => p05_with::<()>(g), _ => p05_with::<Rec>(g) }
}

// ---------------------------------------------------------------- P06

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev { Elm(E), Pt(u32, Option<Name>), Fin(Option<Name>) }

pub fn archive_events(d: &[It]) -> Vec<Ev> {
    let mut out = vec![];
    if d.is_empty() { return out; }
    let mut last = Some(name_of_string("start".into()));
    for i in d {
        match i {
            El(e) => out.push(Ev::Elm(*e)),
            Bd(l, n) => { out.push(Ev::Fin(last)); out.push(Ev::Pt(*l, None)); last = n.clone(); }
        }
    }
    out.push(Ev::Fin(last));
    out
}

fn p06_with<M: GenMeta>(g: &mut G) -> Res {
    let (t, d) = source::<M>(g)?;
    mark(g, &d);
    let v = elems(&d);
    let r = fresh_ns(|| t.clone().fold_lr(vec![7], Rc::new(|mut a: Vec<E>, e: &E| { a.push(*e); a })));
    let mut want = vec![7];
    want.extend(v.iter());
    ensure_eq!(r, want, "fold_lr over {}", show(&d));
    let r = fresh_ns(|| t.clone().fold_lr((1, 2), Rc::new(|a: Aff, e: &E| then(a, aff(e)))));
    ensure_eq!(r, v.iter().fold((1, 2), |a, e| then(a, aff(e))), "fold_lr with composition over {}", show(&d));
    let r = fresh_ns(|| t.clone().fold_lr_meta(vec![],
        Rc::new(|mut a: Vec<It>, e: &E| { a.push(El(*e)); a }),
        Rc::new(|mut a: Vec<It>, (l, n)| { a.push(Bd(l, n)); a })));
    ensure_eq!(r, d, "fold_lr_meta");
    let r = fresh_ns(|| t.clone().fold_lr_archive(vec![],
        Rc::new(|mut a: Vec<Ev>, e: &E| { a.push(Ev::Elm(*e)); a }),
        Rc::new(|mut a: Vec<Ev>, n| { a.push(Ev::Fin(n)); a }),
        Rc::new(|mut a: Vec<Ev>, l| { a.push(Ev::Pt(l, None)); a })));
    ensure_eq!(r, archive_events(&d), "fold_lr_archive over {}", show(&d));
    Ok(())
}
pub fn p06(g: &mut G) -> Res {
    pick_mode(g);
    match g.weighted(&[4, 1, 1]) { 0 => p06_with::<Count>(g), 1 => p06_with::<()>(g), _ => p06_with::<Names>(g) }
}

// ---------------------------------------------------------------- P07

fn p07_with<M: GenMeta, N: GenMeta>(g: &mut G) -> Res {
    let (t, d) = source::<M>(g)?;
    mark(g, &d);
    let which = g.upto(2);
    let f = move |e: &E| -> E { match which { 0 => e.wrapping_mul(3).wrapping_add(1), 1 => e % 2, _ => *e } };
    let want: Vec<It> = d.iter().map(|i| match i { El(e) => El(f(e)), b => b.clone() }).collect();
    g.note(|| format!("map {} -> {} metadata over {}", which, N::LABEL, show(&d)));
    let k = name_of_string("p07-map".into());
    let m: RazTree<E, N> = ns(k.clone(), || t.clone().map(Rc::new(f)));
    ensure_eq!(tree_items(&m), want, "map of {}", show(&d));
    ensure_eq!(tree_shape(&m).map(|s| levels_of(&s)), tree_shape(&t).map(|s| levels_of(&s)), "tree levels after map");
    N::check_meta(&m, &want)?;
    ensure_eq!(m.is_empty(), d.is_empty(), "is_empty after map");
    // the source is as it was
    ensure_eq!(tree_items(&t), d, "source after map");
    M::check_meta(&t, &d)?;
    // and the result can be edited
    let r: Res = ns(k, || {
        let (mut r, mut s) = refocus(g, m, &want)?;
        drain(g, &mut r, &mut s)
    });
    r?;
    // a map to another element type
    let m2: RazTree<String, ()> = ns(name_of_string("p07-map2".into()), || t.clone().map(Rc::new(|e: &E| format!("<{}>", e))));
    let joined = ns(name_of_string("p07-fold2".into()), || m2.fold_up(Rc::new(|s: &String| s.clone()), Rc::new(|a: String, b: String| a + &b)));
    let wantj: String = elems(&d).iter().map(|e| format!("<{}>", e)).collect();
    ensure_eq!(joined.unwrap_or_default(), wantj, "map to strings of {}", show(&d));
    Ok(())
}
fn levels_of(s: &Shape) -> String {
    match s { Shape::Leaf(v) => format!("{}", v.len()), Shape::Node(l, n, a, b) => format!("({} {}:{:?} {})", levels_of(a), l, n, levels_of(b)) }
}
pub fn p07(g: &mut G) -> Res {
    pick_mode(g);
    match g.weighted(&[3, 2, 2, 1]) { 0 => p07_with::<Count, Count>(g), 1 => p07_with::<Count, Rec>(g), 2 => p07_with::<(), Names>(g), _ => p07_with::<Rec, Count>(g) }
}

// ---------------------------------------------------------------- P08

/// Every round the same computations run again, each in its own namespace
/// with the same functions; the answer must be that of the current contents.
fn rerun(g: &mut G, t: &RazTree<E, Count>, d: &[It]) -> Res {
    let v = elems(d);
    let n = |s: &str| name_of_string(format!("p08-{}", s));
    let skip = g.chance(1, 5);
    let which: Vec<bool> = (0..12).map(|_| !(skip && g.bool())).collect();
    g.note(|| format!("rerun {:?}", which));
    if which[0] {
        let r = ns(n("aff"), || t.clone().fold_up(Rc::new(aff), Rc::new(then)));
        ensure_eq!(r, aff_ref(&v), "rerun of fold_up over {}", show(d));
    }
    if which[1] {
        let r = ns(n("max"), || t.clone().fold_up(Rc::new(|e: &E| *e), Rc::new(|a: E, b: E| a.max(b))));
        ensure_eq!(r, v.iter().cloned().max(), "rerun of max over {}", show(d));
    }
    if which[2] {
        let r = ns(n("nl"), || t.clone().fold_up_nl(
            Rc::new(|e: &E| vec![El(*e)]),
            Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
            Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { a.push(Bd(l, n)); a.extend(b); a })));
        ensure_eq!(r.unwrap_or_default(), d.to_vec(), "rerun of fold_up_nl");
    }
    if which[3] {
        let r = ns(n("gauged"), || t.clone().fold_up_gauged(
            Rc::new(|v: &Vec<E>| Shape::Leaf(v.clone())),
            Rc::new(|a: Shape, l, n, b: Shape| Shape::Node(l, n, Rc::new(a), Rc::new(b)))));
        let mut got = vec![];
        if let Some(s) = r { shape_doc(&s, &mut got); }
        ensure_eq!(got, d.to_vec(), "rerun of fold_up_gauged");
    }
    if which[4] {
        let r = ns(n("lr"), || t.clone().fold_lr((1, 2), Rc::new(|a: Aff, e: &E| then(a, aff(e)))));
        ensure_eq!(r, v.iter().fold((1, 2), |a, e| then(a, aff(e))), "rerun of fold_lr over {}", show(d));
    }
    if which[5] {
        let r = ns(n("lrmeta"), || t.clone().fold_lr_meta(vec![],
            Rc::new(|mut a: Vec<It>, e: &E| { a.push(El(*e)); a }),
            Rc::new(|mut a: Vec<It>, (l, n)| { a.push(Bd(l, n)); a })));
        ensure_eq!(r, d.to_vec(), "rerun of fold_lr_meta");
    }
    if which[6] {
        let r = ns(n("lrarch"), || t.clone().fold_lr_archive(vec![],
            Rc::new(|mut a: Vec<Ev>, e: &E| { a.push(Ev::Elm(*e)); a }),
            Rc::new(|mut a: Vec<Ev>, n| { a.push(Ev::Fin(n)); a }),
            Rc::new(|mut a: Vec<Ev>, l| { a.push(Ev::Pt(l, None)); a })));
        ensure_eq!(r, archive_events(d), "rerun of fold_lr_archive over {}", show(d));
    }
    if which[7] {
        // two stages: a map, then a fold over its result
        let m: RazTree<E, Count> = ns(n("map"), || t.clone().map(Rc::new(|e: &E| e / 2 + 10)));
        let r = ns(n("mapfold"), || m.clone().fold_up_nl(
            Rc::new(|e: &E| vec![El(*e)]),
            Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
            Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { a.push(Bd(l, n)); a.extend(b); a })));
        let want: Vec<It> = d.iter().map(|i| match i { El(e) => El(e / 2 + 10), b => b.clone() }).collect();
        ensure_eq!(r.unwrap_or_default(), want, "rerun of map then fold");
        ensure_eq!(m.meta().0, v.len(), "count of a rerun map");
    }
    if which[8] {
        // a fold whose accumulator often does not change
        let r = ns(n("seen"), || t.clone().fold_lr(0u32, Rc::new(|a: u32, e: &E| a | (1 << (e % 8)))));
        ensure_eq!(r, v.iter().fold(0, |a, e| a | (1 << (e % 8))), "rerun of a saturating fold_lr over {}", show(d));
    }
    if which[9] {
        // the elements and how often they occur, gathered in a skip list that is archived along the way
        type S = Skiplist<E, u32>;
        let s: S = ns(n("skip"), || {
            let mut start: S = Skiplist::emp(12, name_unit());
            start.archive(name_unit());
            t.clone().fold_lr_archive(start,
                Rc::new(|mut a: S, e: &E| { let c = a.get(*e).unwrap_or(0); a.put(*e, c + 1); a }),
                Rc::new(|mut a: S, n: Option<Name>| { if let Some(n) = n { a.archive(n); } a }),
                Rc::new(|a: S, _l| a))
        });
        let mut want: BTreeMap<E, u32> = BTreeMap::new();
        for e in &v { *want.entry(*e).or_insert(0) += 1; }
        for (e, c) in &want { ensure_eq!(s.get(*e), Some(*c), "occurrences of {} gathered from {}", e, show(d)); }
        let top = want.keys().next_back().cloned().unwrap_or(0);
        for e in vec![0, top / 2, top + 1, top + 2] { ensure_eq!(s.get(e), want.get(&e).cloned(), "occurrences of {} gathered from {}", e, show(d)); }
    }
    let items = |t: RazTree<E, Count>| t.fold_up_nl(
        Rc::new(|e: &E| vec![El(*e)]),
        Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
        Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { a.push(Bd(l, n)); a.extend(b); a })).unwrap_or_default();
    if which[10] && !d.is_empty() {
        // joined to another sequence, then a fold over both
        let before = g.bool();
        let (level, e) = (g.range(1, 9) as u32, g.below(3) as E);
        let nm = Some(n("joint"));
        g.note(|| format!("join at level {} with [100 |1| {}] {}", level, e, if before { "before" } else { "after" }));
        let (other, od) = ns(n("other"), || {
            let mut r: Raz<E, Count> = Raz::new();
            r.push_left(100);
            r.archive_left(1, Some(n("inner")));
            r.push_left(e);
            let t = r.unfocus();
            let d = items(t.clone());
            (t, d)
        });
        let pt = Bd(level, nm.clone());
        let (a, b, want) = if before { (other, t.clone(), [&od[..], &[pt][..], d].concat()) } else { (t.clone(), other, [d, &[pt][..], &od[..]].concat()) };
        let j = ns(n("join"), || RazTree::join(a, level, nm, b)).ok_or("join of two non-empty sequences failed")?;
        ensure_eq!(j.meta().0, v.len() + 2, "count of a join");
        let r = ns(n("joinfold"), || items(j.clone()));
        ensure_eq!(r, want, "rerun of join then fold");
    }
    if which[11] {
        // a map whose result is edited, then a fold over that
        let m: RazTree<E, Count> = ns(n("mapped"), || t.clone().map(Rc::new(|e: &E| e + 1)));
        let md: Vec<It> = d.iter().map(|i| match i { El(e) => El(e + 1), b => b.clone() }).collect();
        let (m, docs) = ns(n("edited"), || -> Result<_, String> {
            let (mut r, mut s) = refocus(g, m, &md)?;
            for _ in 0..g.upto(3) {
                match g.upto(3) {
                    0 => { r.push_left(7); s.push_left(7); }
                    1 => { r.push_right(8); s.push_right(8); }
                    2 => { ensure_eq!(r.pop_left(), s.pop_left(), "pop on the left of a mapped sequence"); }
                    _ => { ensure_eq!(r.pop_right(), s.pop_right(), "pop on the right of a mapped sequence"); }
                }
            }
            g.note(|| format!("the mapped sequence is edited to {} / {}", show(&s.l), show(&s.r)));
            Ok((r.unfocus(), s.docs()))
        })?;
        let r = ns(n("editedfold"), || items(m.clone()));
        ensure!(docs.contains(&r), "rerun of map, edits, then fold: got {}, expected {}", show(&r), show(&docs[0]));
    }
    Ok(())
}

pub fn p08(g: &mut G) -> Res {
    engine(Mode::Dcg);
    pick_levels(g);
    let how = if g.chance(2, 3) { Naming::All } else { gen_naming(g) };
    let mut last: Option<Vec<It>> = None;
    let mut small_change = false;
    let (t, d) = session::<Count, _>(g, 6, 6, how, |g, t, d| {
        if let Some(p) = &last { if bounds(p).len() >= 2 && p != d { small_change = true; } }
        last = Some(d.to_vec());
        rerun(g, t, d)
    })?;
    if small_change { g.label("reran after an edit"); }
    rerun(g, &t, &d)
}

// ---------------------------------------------------------------- P09

/// (subtree, name of the parent branch, side): what a memoised call is keyed by
type Key = (Shape, Option<Name>, bool);
fn keys(s: &Shape, parent: Option<(Name, bool)>, out: &mut HashSet<Key>) {
    if let Some((n, side)) = &parent { out.insert((s.clone(), Some(n.clone()), *side)); }
    if let Shape::Node(_, n, a, b) = s {
        keys(a, n.clone().map(|n| (n, false)), out);
        keys(b, n.clone().map(|n| (n, true)), out);
    }
}
/// elements and branches that a rerun has a reason to visit: those in subtrees
/// that are new under their parent since the previous run
fn work(s: &Shape, parent: Option<(Name, bool)>, old: &HashSet<Key>, els: &mut usize, brs: &mut usize) {
    if let Some((n, side)) = &parent {
        if old.contains(&(s.clone(), Some(n.clone()), *side)) { return; }
    }
    match s {
        Shape::Leaf(v) => *els += v.len(),
        Shape::Node(_, n, a, b) => {
            *brs += 1;
            work(a, n.clone().map(|n| (n, false)), old, els, brs);
            work(b, n.clone().map(|n| (n, true)), old, els, brs);
        }
    }
}

thread_local! { static ELS: Cell<usize> = Cell::new(0); static BRS: Cell<usize> = Cell::new(0); }
fn bump(c: &'static std::thread::LocalKey<Cell<usize>>, by: usize) { c.with(|x| x.set(x.get() + by)) }
fn counted<T, F: FnOnce() -> T>(f: F) -> (T, usize, usize) {
    ELS.with(|x| x.set(0));
    BRS.with(|x| x.set(0));
    let r = f();
    (r, ELS.with(|x| x.get()), BRS.with(|x| x.get()))
}

pub fn p09(g: &mut G) -> Res {
    engine(Mode::Dcg);
    pick_levels(g);
    let mut old: Option<HashSet<Key>> = None;
    let mut lr_old: HashSet<LrKey> = HashSet::new();
    let mut reused = false;
    let n = |s: &str| name_of_string(format!("p09-{}", s));
    let mut check = |g: &mut G, t: &RazTree<E, Count>, d: &[It], again: bool| -> Res {
        let (mut els, mut brs) = (0, 0);
        let shape = tree_shape(t);
        let mut now = HashSet::new();
        if let Some(s) = &shape {
            keys(s, None, &mut now);
            work(s, None, old.as_ref().unwrap_or(&HashSet::new()), &mut els, &mut brs);
        }
        let total = elems(d).len();
        if els + 2 < total { reused = true; }
        g.note(|| format!("rerun: of {} elements and {} branches, {} and {} are affected", total, bounds(d).len(), els, brs));
        let word = if again { "repeated run" } else { "rerun" };
        let (r, e, b) = counted(|| ns(n("up"), || t.clone().fold_up(
            Rc::new(|x: &E| { bump(&ELS, 1); vec![*x] }),
            Rc::new(|mut a: Vec<E>, b: Vec<E>| { bump(&BRS, 1); a.extend(b); a }))));
        ensure_eq!(r.unwrap_or_default(), elems(d), "{} of fold_up", word);
        ensure!(e <= els, "{} of fold_up visited {} elements, {} are affected by the edit, in {}", word, e, els, show(d));
        ensure!(b <= els + brs, "{} of fold_up combined {} times, at most {} needed, in {}", word, b, els + brs, show(d));
        let (r, e, b) = counted(|| ns(n("nl"), || t.clone().fold_up_nl(
            Rc::new(|x: &E| { bump(&ELS, 1); vec![El(*x)] }),
            Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
            Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { bump(&BRS, 1); a.push(Bd(l, n)); a.extend(b); a }))));
        ensure_eq!(r.unwrap_or_default(), d.to_vec(), "{} of fold_up_nl", word);
        ensure!(e <= els && b <= brs, "{} of fold_up_nl visited {} elements and {} branches, {} and {} are affected, in {}", word, e, b, els, brs, show(d));
        let (r, e, b) = counted(|| ns(n("gauged"), || t.clone().fold_up_gauged(
            Rc::new(|v: &Vec<E>| { bump(&ELS, v.len()); v.len() }),
            Rc::new(|a: usize, _, _, b: usize| { bump(&BRS, 1); a + b }))));
        ensure_eq!(r.unwrap_or(0), total, "{} of fold_up_gauged", word);
        ensure!(e <= els && b <= brs, "{} of fold_up_gauged visited {} elements and {} branches, {} and {} are affected, in {}", word, e, b, els, brs, show(d));
        let (m, e, _) = counted(|| ns(n("map"), || -> RazTree<E, Count> { t.clone().map(Rc::new(|x: &E| { bump(&ELS, 1); x + 1 })) }));
        ensure_eq!(tree_elems(&m), elems(d).iter().map(|e| e + 1).collect::<Vec<_>>(), "{} of map", word);
        ensure!(e <= els, "{} of map visited {} elements, {} are affected by the edit, in {}", word, e, els, show(d));
        // left to right: nothing before the first change is visited again
        let (mut before, mut lr_now) = (0, HashSet::new());
        if let Some(s) = &shape { lr_walk(s, None, None, &mut vec![], &lr_old, false, &mut lr_now, &mut before); }
        lr_old = lr_now;
        let (r, e, _) = counted(|| ns(n("lr"), || t.clone().fold_lr(vec![], Rc::new(|mut a: Vec<E>, x: &E| { bump(&ELS, 1); a.push(*x); a }))));
        ensure_eq!(r, elems(d), "{} of fold_lr", word);
        ensure!(e <= before, "{} of fold_lr visited {} elements, at most {} needed, in {}", word, e, before, show(d));
        old = Some(now);
        Ok(())
    };
    let again = g.bool();
    // mostly everything is named
    let how = if g.chance(1, 4) { gen_naming(g) } else { Naming::All };
    session_with::<Count, _>(g, 6, 4, how, false, |g, t, d| {
        check(g, t, d, false)?;
        if again { check(g, t, d, true)?; }
        Ok(())
    })?;
    let reused = reused;
    if reused { g.label("part of the result was reusable"); }
    Ok(())
}

/// what a memoised left-to-right call is keyed by: the subtree, its place, the
/// accumulator so far and the archive point before it
type LrKey = (Shape, Name, bool, Vec<E>, Option<Name>);
/// Collects the keys of a run, and the elements a rerun may visit: those
/// outside subtrees that were visited under the same key in the previous run.
fn lr_walk(s: &Shape, parent: Option<(Name, bool)>, carried: Option<Name>, pre: &mut Vec<E>, old: &HashSet<LrKey>, hit: bool, now: &mut HashSet<LrKey>, n: &mut usize) {
    let mut hit = hit;
    if let Some((nm, side)) = parent {
        let k = (s.clone(), nm, side, pre.clone(), carried.clone());
        if old.contains(&k) { hit = true; }
        now.insert(k);
    }
    match s {
        Shape::Leaf(v) => { if !hit { *n += v.len(); } pre.extend(v.iter()); }
        Shape::Node(_, nm, a, b) => {
            lr_walk(a, nm.clone().map(|x| (x, false)), carried, pre, old, hit, now, n);
            lr_walk(b, nm.clone().map(|x| (x, true)), nm.clone(), pre, old, hit, now, n);
        }
    }
}

// ---------------------------------------------------------------- P12

/// an archive stack with levels and names; the sequence it stands for, bottom to top
pub fn gen_stack(g: &mut G, nm: &mut Namer, how: Naming, chunks: usize) -> (AStack<E, u32>, Vec<It>) {
    let mut st = AStack::new();
    let mut d = vec![];
    grow_stack(g, nm, how, chunks, &mut st, &mut d);
    (st, clean_tail(&d))
}
fn clean_tail(d: &[It]) -> Vec<It> { let mut d = d.to_vec(); if let Some(Bd(..)) = d.last() { d.pop(); } d }
fn grow_stack(g: &mut G, nm: &mut Namer, how: Naming, chunks: usize, st: &mut AStack<E, u32>, d: &mut Vec<It>) {
    let k = g.upto(chunks);
    for c in 0..k {
        let n = if k > 7 { g.range(1, 40) } else if g.chance(1, 1000) { g.label("long subsequence"); g.range(1, 3000) } else { g.range(1, 3) };
        for _ in 0..n { let e = g.below(100) as E; st.push(e); d.push(El(e)); }
        if c + 1 < k || g.chance(1, 3) {
            let l = gen_level(g);
            let n = maybe_name(g, nm, how);
            if st.archive(n.clone(), l) { d.push(Bd(l, n)); }
        }
    }
}

pub fn p12(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let head = g.bool();
    g.label(if head { "at head" } else { "at tail" });
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let mut st: AStack<E, u32> = AStack::new();
    let mut full: Vec<It> = vec![];
    let conv = name_of_string("p12-conv".into());
    let kinds = g.chance(1, 4);
    if kinds { g.label("names and user-defined metadata"); }
    let rounds = g.range(1, 4);
    let mut did = 0;
    for _ in 0..rounds {
        // edit the stack: add some, take some
        if g.chance(1, 3) {
            let k = g.upto(5);
            for _ in 0..k {
                let a = st.pop();
                let mut b = None;
                while let Some(i) = full.pop() { if let El(e) = i { b = Some(e); break; } }
                ensure_eq!(a, b, "pop");
            }
            g.note(|| format!("pop {}", k));
        }
        let (c, _) = big_or(g, 7, 3);
        grow_stack(g, &mut nm, how, c, &mut st, &mut full);
        g.note(|| format!("stack {}", show(&full)));
        let d0 = clean_tail(&full);
        if full.len() != d0.len() { g.label("top subsequence empty"); }
        let want: Vec<It> = if head { d0.iter().rev().cloned().collect() } else { d0.clone() };
        let t: RazTree<E, Count> = if head {
            let a = AtHead(st.clone());
            ns(conv.clone(), || if g.bool() { a.memo_into() } else { RazTree::memo_from(&a) })
        } else {
            let a = AtTail(st.clone());
            ns(conv.clone(), || if g.bool() { a.memo_into() } else { RazTree::memo_from(&a) })
        };
        ensure_eq!(t.is_empty(), want.is_empty(), "is_empty of the converted stack");
        ensure_eq!(tree_items(&t), want, "stack converted to a sequence");
        ensure_eq!(tree_shape(&t), canonical(&want), "tree of the converted stack {}", show(&want));
        Count::check_meta(&t, &want)?;
        // the very value that joins give
        if mode == Mode::Naive && !want.is_empty() && chunks(&want).iter().all(|c| !c.is_empty()) {
            let j = joined::<Count>(&want)?;
            ensure!(j == t, "the converted stack compares unequal to the same sequence made by joins: {}", show(&want));
            ensure_eq!(hash_of(&j), hash_of(&t), "hashes of the converted stack and the joined sequence {}", show(&want));
        }
        // the same, rerun after rerun, for kinds of metadata that depend on names, levels and elements
        if kinds {
            let (a, b) = (st.clone(), st.clone());
            let (names, recs): (RazTree<E, Names>, RazTree<E, Rec>) = if head {
                (ns(name_of_string("p12-names".into()), || RazTree::memo_from(&AtHead(a))), ns(name_of_string("p12-recs".into()), || RazTree::memo_from(&AtHead(b))))
            } else {
                (ns(name_of_string("p12-names".into()), || RazTree::memo_from(&AtTail(a))), ns(name_of_string("p12-recs".into()), || RazTree::memo_from(&AtTail(b))))
            };
            Names::check_meta(&names, &want)?;
            branch_pairs(g, &recs, &want)?;
        }
        let r = ns(name_of_string("p12-fold".into()), || t.clone().fold_up(Rc::new(aff), Rc::new(then)));
        ensure_eq!(r, aff_ref(&elems(&want)), "fold over a converted stack {}", show(&want));
        // the stack is only read
        let left: Vec<E> = st.clone().into_iter().collect();
        let mut exp = elems(&full);
        exp.reverse();
        ensure_eq!(left, exp, "stack after conversion");
        // the result is an ordinary sequence
        if mode == Mode::Naive && g.bool() {
            let (mut r, mut s) = refocus(g, t, &want)?;
            let mut es = Elems::gen(g);
            for _ in 0..g.upto(6) { edit_step(g, &mut r, &mut s, &mut es, &mut nm, Naming::None)?; }
            let (t2, d2) = unfocus(g, r, &s)?;
            ensure_eq!(tree_items(&t2), d2, "edited conversion");
            ensure_eq!(tree_shape(&t2), canonical(&d2), "tree of the edited conversion");
        }
        if bounds(&want).len() >= 3 { did += 1; }
    }
    if did >= 1 { g.nontrivial(); }
    if rounds >= 2 && mode == Mode::Dcg && did >= 2 { g.label("incremental reconversion"); }
    Ok(())
}
#[allow(unused)]
fn unused(_: Raz<E, Names>) where Names: RazMeta<E> {}

// ---------------------------------------------------------------- P29

type Log<T> = Rc<std::cell::RefCell<Vec<T>>>;
fn log<T>() -> Log<T> { Rc::new(std::cell::RefCell::new(vec![])) }
fn taken<T: Ord>(l: &Log<T>) -> Vec<T> { let mut v = l.replace(vec![]); v.sort(); v }

/// from scratch, each caller-supplied function runs once for each thing it is about
fn p29_with<M: GenMeta>(g: &mut G) -> Res {
    let (t, d) = source::<M>(g)?;
    mark(g, &d);
    let (mut es, bs, cs) = (elems(&d), bounds(&d), chunks(&d));
    es.sort();
    let joints = es.len().saturating_sub(1);
    let points: Vec<u32> = { let mut v: Vec<u32> = bs.iter().map(|b| b.0).collect(); v.sort(); v };
    let le: Log<E> = log();
    let (l1, ln) = (le.clone(), Rc::new(Cell::new(0usize)));
    let n1 = ln.clone();
    fresh_ns(|| t.clone().fold_up(Rc::new(move |e: &E| { l1.borrow_mut().push(*e); *e }), Rc::new(move |a: E, b: E| { n1.set(n1.get() + 1); a.max(b) })));
    ensure_eq!(taken(&le), es, "elements that fold_up calls init for, over {}", show(&d));
    ensure_eq!(ln.replace(0), joints, "calls of bin by fold_up over {}", show(&d));
    let ll: Log<u32> = log();
    let (l1, n1, l2) = (le.clone(), ln.clone(), ll.clone());
    fresh_ns(|| t.clone().fold_up_nl(Rc::new(move |e: &E| { l1.borrow_mut().push(*e); *e }),
        Rc::new(move |a: E, b: E| { n1.set(n1.get() + 1); a.max(b) }),
        Rc::new(move |a: E, l, _: Option<Name>, b: E| { l2.borrow_mut().push(l); a.max(b) })));
    ensure_eq!(taken(&le), es, "elements that fold_up_nl calls init for, over {}", show(&d));
    ensure_eq!(ln.replace(0), joints - points.len().min(joints), "calls of bin by fold_up_nl over {}", show(&d));
    ensure_eq!(taken(&ll), points, "archive points that fold_up_nl calls binnl for, over {}", show(&d));
    let lc: Log<Vec<E>> = log();
    let (l1, l2) = (lc.clone(), ll.clone());
    fresh_ns(|| t.clone().fold_up_gauged(Rc::new(move |c: &Vec<E>| { l1.borrow_mut().push(c.clone()); c.len() }),
        Rc::new(move |a: usize, l, _: Option<Name>, b: usize| { l2.borrow_mut().push(l); a + b })));
    let want = { let mut c = cs.clone(); c.sort(); c };
    ensure_eq!(taken(&lc), want, "subsequences that fold_up_gauged calls init for, over {}", show(&d));
    ensure_eq!(taken(&ll), points, "archive points that fold_up_gauged calls bin for, over {}", show(&d));
    let l1 = le.clone();
    fresh_ns(|| t.clone().fold_lr(0, Rc::new(move |_: E, e: &E| { l1.borrow_mut().push(*e); 0 })));
    ensure_eq!(le.replace(vec![]), elems(&d), "elements in the order fold_lr calls bin for them");
    let (lv, lw): (Log<It>, Log<Ev>) = (log(), log());
    let (l1, l2) = (lv.clone(), lv.clone());
    fresh_ns(|| t.clone().fold_lr_meta(0, Rc::new(move |_: E, e: &E| { l1.borrow_mut().push(El(*e)); 0 }), Rc::new(move |_: E, (l, n)| { l2.borrow_mut().push(Bd(l, n)); 0 })));
    ensure_eq!(lv.replace(vec![]), d, "elements and archive points in the order fold_lr_meta calls the functions for them");
    let (l1, l2, l3) = (lw.clone(), lw.clone(), lw.clone());
    fresh_ns(|| t.clone().fold_lr_archive(0, Rc::new(move |_: E, e: &E| { l1.borrow_mut().push(Ev::Elm(*e)); 0 }),
        Rc::new(move |_: E, n| { l2.borrow_mut().push(Ev::Fin(n)); 0 }),
        Rc::new(move |_: E, l| { l3.borrow_mut().push(Ev::Pt(l, None)); 0 })));
    ensure_eq!(lw.replace(vec![]), archive_events(&d), "calls of fold_lr_archive");
    let l1 = le.clone();
    let _: RazTree<E, Count> = fresh_ns(|| t.clone().map(Rc::new(move |e: &E| { l1.borrow_mut().push(*e); e / 2 })));
    ensure_eq!(taken(&le), es, "elements that map calls f for, over {}", show(&d));
    // none of that is kept for later: a second run from scratch does it again
    let l1 = le.clone();
    fresh_ns(|| t.clone().fold_up(Rc::new(move |e: &E| { l1.borrow_mut().push(*e); *e }), Rc::new(|a: E, b: E| a.max(b))));
    ensure_eq!(taken(&le), es, "elements that another fold_up calls init for, over {}", show(&d));
    Ok(())
}
pub fn p29(g: &mut G) -> Res {
    pick_mode(g);
    match g.weighted(&[4, 1, 1, 2]) { 0 => p29_with::<Count>(g), 1 => p29_with::<()>(g), 2 => p29_with::<Rec>(g), _ => crate::tree_props::calls(g) }
}
