//! Sequence editor (RAZ) properties.

use crate::model::*;
use adapton::engine::*;
use iodyn::archive_stack::{AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Position};
use pbt::{ensure, ensure_eq, Res, G};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Runs a session of edits and refocusings; `at_tree` sees every unfocused tree.
pub fn session<M: GenMeta, F>(g: &mut G, rounds: usize, steps: usize, how: Naming, at_tree: F) -> Result<(RazTree<E, M>, Vec<It>), String>
where F: FnMut(&mut G, &RazTree<E, M>, &[It]) -> Res {
    session_with(g, rounds, steps, how, true, at_tree)
}
/// `remap`: now and then the sequence is replaced by a mapped version of itself (which has cells of its own)
pub fn session_with<M: GenMeta, F>(g: &mut G, rounds: usize, steps: usize, how: Naming, remap: bool, mut at_tree: F) -> Result<(RazTree<E, M>, Vec<It>), String>
where F: FnMut(&mut G, &RazTree<E, M>, &[It]) -> Res {
    g.label(M::LABEL);
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let (mc, ml) = big_or(g, 10, 4);
    let (mut r, mut s) = build_left::<M>(g, &mut es, &mut nm, how, mc, ml);
    // now and then a much longer history
    let (rounds, steps) = if g.chance(1, 100) { g.label("long session"); (rounds * 4, steps * 3) } else { (rounds, steps) };
    let rounds = g.upto(rounds);
    let mut crossed = 0;
    for _ in 0..rounds {
        let n = g.upto(steps);
        for _ in 0..n { edit_step(g, &mut r, &mut s, &mut es, &mut nm, how)?; }
        let (t, doc) = unfocus(g, r, &s)?;
        let (t, doc) = if g.chance(1, 16) { graft(g, t, doc, &mut es, &mut nm, how)? } else { (t, doc) };
        let (t, doc) = if remap && g.chance(1, 24) {
            g.label("mapped in between");
            let by: E = if g.bool() { 1_000_000 } else { 0 };
            let d: Vec<It> = doc.into_iter().map(|i| match i { El(e) => El(e + by), b => b }).collect();
            g.note(|| format!("map: {}", show(&d)));
            (fresh_ns(|| t.map(Rc::new(move |e: &E| e + by))), d)
        } else { (t, doc) };
        at_tree(g, &t, &doc)?;
        if !bounds(&doc).is_empty() { crossed += 1; }
        let (r2, s2) = refocus(g, t, &doc)?;
        r = r2;
        s = s2;
    }
    let n = g.upto(steps);
    for _ in 0..n { edit_step(g, &mut r, &mut s, &mut es, &mut nm, how)?; }
    let (t, doc) = unfocus(g, r, &s)?;
    at_tree(g, &t, &doc)?;
    if rounds >= 1 && crossed >= 1 && elems(&doc).len() >= 3 { g.nontrivial(); }
    Ok((t, doc))
}

/// joins a short sequence to one end, at a level that makes the result canonical
fn graft<M: GenMeta>(g: &mut G, t: RazTree<E, M>, doc: Vec<It>, es: &mut Elems, nm: &mut Namer, how: Naming) -> Result<(RazTree<E, M>, Vec<It>), String> {
    if doc.is_empty() { return Ok((t, doc)); }
    let (r, s) = build_left::<M>(g, es, nm, how, 3, 3);
    let other = r.unfocus();
    let od = s.docs()[0].clone();
    if od.is_empty() { return Ok((t, doc)); }
    let front = g.bool();
    let (a, da, b, db) = if front { (other, od, t, doc) } else { (t, doc, other, od) };
    let top = |d: &[It]| bounds(d).iter().map(|b| b.0).max().unwrap_or(0);
    // (`join` leaves the choice of a sound level to its caller)
    let least = top(&da).saturating_add(1).max(top(&db)).max(1);
    let level = if g.bool() { least } else { least.saturating_add(g.upto(2) as u32) };
    if level >= u32::max_value() { return Ok(if front { (b, db) } else { (a, da) }); }
    let n = maybe_name(g, nm, how);
    let mut d = da;
    d.push(Bd(level, n.clone()));
    d.extend(db);
    g.label("joined in between");
    g.note(|| format!("join a sequence at the {}: {}", if front { "front" } else { "end" }, show(&d)));
    let j = RazTree::join(a, level, n, b).ok_or("join of two non-empty sequences failed")?;
    Ok((j, d))
}

/// all positions of a short sequence, some of a long one
fn places(g: &mut G, n: usize) -> Vec<usize> {
    if n <= 60 { (0..n + 1).collect() } else { (0..25).map(|_| g.upto(n)).chain(vec![0, n]).collect() }
}

// ---------------------------------------------------------------- P01

fn p01_with<M: GenMeta>(g: &mut G, how: Naming) -> Res {
    let (t, doc) = session::<M, _>(g, 4, 14, how, |_, t, doc| {
        ensure_eq!(t.is_empty(), doc.is_empty(), "is_empty");
        ensure_eq!(tree_elems(t), elems(doc), "sequence after unfocus");
        Ok(())
    })?;
    let (mut r, mut s) = refocus(g, t, &doc)?;
    drain(g, &mut r, &mut s)
}

pub fn p01(g: &mut G) -> Res {
    pick_mode(g);
    let how = gen_naming(g);
    match g.weighted(&[5, 1, 2, 1]) {
        0 => p01_with::<Count>(g, how),
        1 => p01_with::<()>(g, how),
        2 => p01_with::<Names>(g, Naming::All),
        _ => p01_with::<Rec>(g, how),
    }
}

// ---------------------------------------------------------------- P02

/// what is left and right of the cursor, without touching the model of edits
fn split_view<M: GenMeta>(mut r: Raz<E, M>) -> (Vec<E>, Vec<E>) {
    let mut l = vec![];
    while let Some(e) = r.pop_left() { l.push(e); }
    l.reverse();
    let mut rr = vec![];
    while let Some(e) = r.pop_right() { rr.push(e); }
    (l, rr)
}

/// the markers for both ends, for any kind of metadata
fn ends<M: GenMeta>(t: &RazTree<E, M>, all: &Vec<E>) -> Res {
    let first = t.clone().focus(<M::Index as FirstLast>::first()).ok_or("focus at the first marker failed")?;
    ensure_eq!(split_view(first), (vec![], all.clone()), "focus at the first marker");
    let last = t.clone().focus(<M::Index as FirstLast>::last()).ok_or("focus at the last marker failed")?;
    ensure_eq!(split_view(last), (all.clone(), vec![]), "focus at the last marker");
    let (l, rr) = split_view(t.clone().focus_left());
    ensure_eq!((l, rr), (vec![], all.clone()), "focus_left");
    Ok(())
}
fn ends_with<M: GenMeta>(g: &mut G, how: Naming) -> Res {
    let (t, doc) = session::<M, _>(g, 2, 10, how, |_, _, _| Ok(()))?;
    ends(&t, &elems(&doc))
}

/// sequences of more elements than sixteen bits can count
fn p02_huge(g: &mut G) -> Res {
    g.label("more than 65536 elements");
    let n = 65_530 + g.upto(3000);
    let chunk = *g.pick(&[7, 100, 5_000, 32_768, 40_000, 65_536, 70_000]);
    g.note(|| format!("{} elements pushed on the right of an empty editor from n down to 1, archived every {}", n, chunk));
    let mut r: Raz<E, Count> = Raz::new();
    for k in 0..n {
        let held = r.push_right((n - k) as E);
        ensure_eq!(held, k % chunk + 1, "unarchived count returned by push_right");
        if held == chunk && k + 1 < n { let l = gen_level(g); r.archive_right(l, None); }
    }
    let mut t = r.unfocus();
    let mut all: Vec<E> = (1..n as E + 1).collect();
    for round in 0..3 {
        let n = all.len();
        ensure_eq!(t.meta().0, n, "element count");
        if round < 2 {
            let i = match g.weighted(&[3, 1, 1]) { 0 => g.upto(n), 1 => 65_536.min(n), _ => n };
            g.note(|| format!("focus({}), insert 3 elements, remove 1", i));
            for j in vec![i, 0, 65_535.min(n), 65_536.min(n), n] {
                let r = t.clone().focus(j).ok_or_else(|| format!("focus({}) of {} elements failed", j, n))?;
                ensure_eq!(r.peek_left(), if j > 0 { Some(all[j - 1]) } else { None }, "element before focus({})", j);
                ensure_eq!(r.peek_right(), if j < n { Some(all[j]) } else { None }, "element after focus({})", j);
            }
            let mut r = t.clone().focus(i).ok_or("focus failed")?;
            for e in 0..3 { r.push_left(900_000 + e); all.insert(i + e as usize, 900_000 + e); }
            ensure_eq!(r.pop_right(), if i < n { Some(all.remove(i + 3)) } else { None }, "pop_right");
            let l = gen_level(g);
            r.archive_left(l, None);
            t = r.unfocus();
        }
    }
    ensure!(tree_elems(&t) == all, "contents of a sequence of {} elements", all.len());
    let top = t.fold_up(Rc::new(|e: &E| (*e as u64, 1u64)), Rc::new(|a: (u64, u64), b: (u64, u64)| (a.0 + b.0, a.1 + b.1)));
    ensure_eq!(top, Some((all.iter().map(|e| *e as u64).sum(), all.len() as u64)), "sum and count");
    g.nontrivial();
    Ok(())
}

pub fn p02(g: &mut G) -> Res {
    let mode = pick_mode(g);
    // the incremental engine mutates named structure in place, so looking at many foci of one tree needs it unnamed
    let how = if mode == Mode::Dcg { Naming::None } else { gen_naming(g) };
    if mode == Mode::Naive && g.chance(1, 1000) { return p02_huge(g); }
    match g.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => return ends_with::<()>(g, how),
        2 => return ends_with::<Names>(g, if mode == Mode::Dcg { Naming::None } else { Naming::All }),
        _ => return ends_with::<Rec>(g, how),
    }
    let (t, doc) = session::<Count, _>(g, 2, 10, how, |_, _, _| Ok(()))?;
    let all = elems(&doc);
    let n = all.len();
    g.note(|| format!("tree {}", show(&doc)));
    let mut at = 0;
    for it in doc.iter() { match it { El(_) => at += 1, _ => { g.label("focus at an archive point"); let _ = at; } } }
    for i in places(g, n) {
        let r = t.clone().focus(i);
        ensure!(r.is_some(), "focus({}) of {} elements failed", i, n);
        let r = r.unwrap();
        let before = if i > 0 { Some(all[i - 1]) } else { None };
        let after = if i < n { Some(all[i]) } else { None };
        ensure_eq!(r.peek_left(), before, "element before focus({})", i);
        ensure_eq!(r.peek_right(), after, "element after focus({})", i);
        // round trip without edits
        let back = r.clone().unfocus();
        ensure_eq!(tree_items(&back), doc, "focus({}) then unfocus", i);
        ensure_eq!(back.meta().0, n, "count after focus({}) then unfocus", i);
        let (l, rr) = split_view(r);
        ensure_eq!(l, all[..i].to_vec(), "elements left of focus({})", i);
        ensure_eq!(rr, all[i..].to_vec(), "elements right of focus({})", i);
    }
    ends(&t, &all)?;
    ensure_eq!(split_view(t.clone().focus(usize::max_value()).ok_or("focus at the end failed")?), (all.clone(), vec![]), "focus at the end marker");
    // insertion goes exactly there
    let i = g.upto(n);
    let mut r = t.clone().focus(i).ok_or("focus failed")?;
    let left = g.bool();
    if left { r.push_left(777_777); } else { r.push_right(777_777); }
    g.note(|| format!("insert at {}", i));
    let mut want = all.clone();
    want.insert(i, 777_777);
    ensure_eq!(tree_elems(&r.unfocus()), want, "insertion at {}", i);
    // out of range is rejected
    if n > 0 {
        let extra = match g.weighted(&[2, 1]) { 0 => g.range(1, 5), _ => g.range(1, 1 << 40) };
        let t2 = t.clone();
        g.note(|| format!("focus({}) out of range", n + extra));
        // documented: too large an index "fails in some appropriate way" (None, or a panic within one subsequence)
        match catch_unwind(AssertUnwindSafe(move || t2.focus(n + extra))) {
            Ok(Some(_)) => return Err(format!("focus({}) succeeded on {} elements", n + extra, n)),
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P03

fn p03_basic<M: GenMeta>(g: &mut G, how: Naming) -> Res {
    session::<M, _>(g, 4, 12, how, |_, t, d| M::check_meta(t, d)).map(|_| ())
}

/// every branch's pair of metadata, found by focusing everywhere
fn p03_rec(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let how = if mode == Mode::Dcg { Naming::None } else { gen_naming(g) };
    let (t, doc) = session::<Rec, _>(g, 4, 10, how, |_, t, d| Rec::check_meta(t, d))?;
    let source = g.weighted(&[3, 1, 1, 1]);
    let (t, doc): (RazTree<E, Rec>, Vec<It>) = match source {
        0 => (t, doc),
        1 => {
            g.label("metadata of a map");
            let t = fresh_ns(|| t.map(Rc::new(|e: &E| e + 1000)));
            let d = doc.iter().map(|i| match i { El(e) => El(e + 1000), b => b.clone() }).collect::<Vec<_>>();
            g.note(|| "map(+1000)".into());
            Rec::check_meta(&t, &d)?;
            (t, d)
        }
        3 => {
            g.label("metadata of a conversion");
            let mut nm = Namer(0);
            let (st, d) = crate::fold_props::gen_stack(g, &mut nm, how, 8);
            let head = g.bool();
            let t = if head { fresh_ns(|| RazTree::memo_from(&AtHead(st))) } else { fresh_ns(|| RazTree::memo_from(&AtTail(st))) };
            (t, if head { d.into_iter().rev().collect() } else { d })
        }
        _ => {
            g.label("metadata of a join");
            let lev = u32::max_value();
            let other = RazTree::<E, Rec>::from_vec(vec![9001, 9002]).unwrap();
            if doc.is_empty() { (t, doc) } else {
                let n = if mode == Mode::Dcg { None } else { Some(name_of_string("joined".into())) };
                let j = RazTree::join(t, lev, n.clone(), other).ok_or("join of two non-empty sequences failed")?;
                let mut d = doc.clone();
                d.push(Bd(lev, n));
                d.extend(vec![El(9001), El(9002)]);
                g.note(|| format!("join: {}", show(&d)));
                Rec::check_meta(&j, &d)?;
                (j, d)
            }
        }
    };
    branch_pairs(g, &t, &doc)
}

/// every branch's pair of metadata, consulted by focusing everywhere, is that of its contents
pub fn branch_pairs(g: &mut G, t: &RazTree<E, Rec>, doc: &[It]) -> Res {
    Rec::check_meta(t, doc)?;
    let shape = match canonical(doc) { None => return Ok(()), Some(s) => s };
    let n = elems(doc).len();
    for i in places(g, n) {
        SEEN.with(|s| s.borrow_mut().clear());
        let r = t.clone().focus(Off(i));
        ensure!(r.is_some(), "focus by user-defined metadata failed at {}", i);
        let seen = SEEN.with(|s| s.borrow().clone());
        // walk the expected tree the same way
        let mut want = vec![];
        let (mut cur, mut k, mut free) = (Rc::new(shape.clone()), i, false);
        let _ = &mut free;
        loop {
            let next = match &*cur {
                Shape::Leaf(_) => break,
                Shape::Node(lev, name, a, b) => {
                    let (mut da, mut db) = (vec![], vec![]);
                    shape_doc(a, &mut da);
                    shape_doc(b, &mut db);
                    let (la, lb) = (elems(&da), elems(&db));
                    let ll = la.len();
                    want.push((Rec { elems: la, lev: *lev, name: name.clone() }, Rec { elems: lb, lev: *lev, name: name.clone() }));
                    if k > ll { k -= ll; b.clone() } else if k == ll { break } else { a.clone() }
                }
            };
            cur = next;
        }
        ensure_eq!(seen, want, "branch metadata consulted by focus({}) in {}", i, show(doc));
    }
    Ok(())
}

pub fn p03(g: &mut G) -> Res {
    match g.weighted(&[3, 3, 4]) {
        0 => { pick_mode(g); let how = gen_naming(g); p03_basic::<Count>(g, how) }
        1 => { pick_mode(g); let how = gen_naming(g); p03_basic::<Names>(g, how) }
        _ => p03_rec(g),
    }
}

// ---------------------------------------------------------------- P04

pub fn p04(g: &mut G) -> Res {
    let mode = pick_mode(g);
    if g.chance(1, 4000) { return many_names(g, mode); }
    let how = if g.bool() { Naming::All } else { Naming::Some };
    let (t, doc) = session::<Names, _>(g, 3, 10, how, |_, t, d| Names::check_meta(t, d))?;
    let mut t = t;
    let named: Vec<(usize, Name)> = doc.iter().enumerate().filter_map(|(k, i)| if let Bd(_, Some(n)) = i { Some((k, n.clone())) } else { None }).collect();
    if named.len() >= 2 { g.label("several named archive points"); }
    for (k, n) in &named {
        let r = if g.bool() { t.clone().focus(n.clone()) } else { t.clone().focus(Position::Center(n.clone())) };
        ensure!(r.is_some(), "name {:?} not found in {}", n, show(&doc));
        let r = r.unwrap();
        let (dl, dr) = (elems(&doc[..*k]), elems(&doc[*k..]));
        ensure_eq!(r.peek_left(), dl.last().cloned(), "element before {:?}", n);
        ensure_eq!(r.peek_right(), dr.first().cloned(), "element after {:?}", n);
        if mode == Mode::Dcg {
            // named structure is used linearly under the incremental engine
            t = r.unfocus();
            ensure_eq!(tree_items(&t), doc, "focus on {:?} then unfocus", n);
        } else {
            let (l, rr) = split_view(r);
            ensure_eq!(l, dl, "elements before {:?}", n);
            ensure_eq!(rr, dr, "elements after {:?}", n);
        }
    }
    // a name that is not there (never used, or the raw name of an archive point long gone)
    let absent = match g.weighted(&[1, 1]) { 0 => name_of_string("absent".into()), _ => name_of_usize(g.range(1, 40)) };
    let t2 = t.clone();
    g.note(|| format!("focus on absent name {:?}", absent));
    if !doc.is_empty() && !named.iter().any(|(_, n)| *n == absent) {
        match catch_unwind(AssertUnwindSafe(move || t2.focus(absent))) {
            Ok(Some(_)) => return Err(format!("focus on an absent name succeeded in {}", show(&doc))),
            Ok(None) => {}
            Err(_) => ensure!(bounds(&doc).is_empty(), "focus on an absent name panicked in {}", show(&doc)),
        }
    }
    // deleting across an archive point makes its name unknown
    if let Some((k, n)) = named.first().cloned() {
        let mut r = t.focus(n.clone()).ok_or("focus by name failed")?;
        let right = g.bool();
        g.note(|| format!("delete across {:?} ({})", n, if right { "right" } else { "left" }));
        let mut s = Sess::at(&doc, k);
        if right { ensure_eq!(r.pop_right(), s.pop_right(), "pop_right at a name"); }
        else {
            let l = run_len(&s.l);
            for _ in 0..l { ensure_eq!(r.pop_left(), s.pop_left(), "pop_left at a name"); }
            if !s.l.is_empty() { ensure_eq!(r.pop_left(), s.pop_left(), "pop_left across an archive point"); }
        }
        let (t, doc) = unfocus(g, r, &s)?;
        Names::check_meta(&t, &doc)?;
        ensure_eq!(tree_elems(&t), elems(&doc), "sequence after deleting at a name");
    }
    Ok(())
}
/// hundreds of named archive points, some of them looked up before and after an edit
fn many_names(g: &mut G, mode: Mode) -> Res {
    g.label("hundreds of names");
    g.nontrivial();
    let n = g.range(100, 900);
    let all = g.chance(1, 2);
    let seed = g.u64();
    g.note(|| format!("{} archive points, {}", n, if all { "all named" } else { "three of four named" }));
    let mut r: Raz<E, Names> = Raz::new();
    let mut doc = vec![];
    let mut x = seed | 1;
    for k in 0..n {
        r.push_left(k as E);
        doc.push(El(k as E));
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        let lev = (x | 1 << 40).trailing_zeros() + 1;
        let name = if all || x >> 60 > 3 { Some(if x >> 50 & 1 == 0 { name_of_usize(k) } else { name_of_string(format!("point {}", k)) }) } else { None };
        r.archive_left(lev, name.clone());
        doc.push(Bd(lev, name.as_ref().map(tname)));
    }
    r.push_left(n as E);
    doc.push(El(n as E));
    let mut t = r.unfocus();
    for round in 0..2 {
        Names::check_meta(&t, &doc)?;
        let named: Vec<usize> = (0..doc.len()).filter(|&k| if let Bd(_, Some(_)) = doc[k] { true } else { false }).collect();
        for _ in 0..6 {
            let k = *g.pick(&named);
            let nm = if let Bd(_, Some(ref nm)) = doc[k] { nm.clone() } else { unreachable!() };
            g.note(|| format!("focus on {:?}", nm));
            let r = t.clone().focus(nm.clone());
            ensure!(r.is_some(), "name {:?} not found among {}", nm, named.len());
            let r = r.unwrap();
            ensure_eq!(r.peek_left(), elems(&doc[..k]).last().cloned(), "element before {:?}", nm);
            ensure_eq!(r.peek_right(), elems(&doc[k..]).first().cloned(), "element after {:?}", nm);
            if mode == Mode::Dcg { t = r.unfocus(); }
        }
        ensure!(t.clone().focus(name_of_string("absent".into())).is_none(), "focus on an absent name succeeded");
        if round == 0 {
            // delete across one of them
            let k = *g.pick(&named);
            let nm = if let Bd(_, Some(ref nm)) = doc[k] { nm.clone() } else { unreachable!() };
            g.note(|| format!("delete across {:?}", nm));
            let mut s = Sess::at(&doc, k);
            let mut r = t.focus(nm.clone()).ok_or("focus by name failed")?;
            for _ in 0..2 { ensure_eq!(r.pop_left(), s.pop_left(), "pop_left at {:?}", nm); }
            let (t2, d2) = unfocus(g, r, &s)?;
            t = t2;
            doc = d2;
        }
    }
    ensure_eq!(tree_items(&t), doc, "sequence of hundreds of names");
    Ok(())
}
fn run_len(v: &[It]) -> usize { v.iter().rev().take_while(|i| matches!(i, El(_))).count() }

// ---------------------------------------------------------------- P10

pub fn p10(g: &mut G) -> Res {
    pick_mode(g);
    let how = gen_naming(g);
    let f = |g: &mut G, got: Vec<It>, d: &[It]| -> Res {
        if bounds(d).len() >= 3 { g.label("3+ archive points"); }
        ensure_eq!(bounds(&got), bounds(d), "archive points of {}", show(d));
        ensure_eq!(got, d.to_vec(), "sequence with archive points");
        Ok(())
    };
    if g.chance(1, 4) {
        session::<Names, _>(g, 5, 12, how, |g, t, d| f(g, tree_items(t), d)).map(|_| ())
    } else {
        session::<Count, _>(g, 5, 12, how, |g, t, d| f(g, tree_items(t), d)).map(|_| ())
    }
}

// ---------------------------------------------------------------- P11

/// the sequence of `d` (names as they are in a tree) made by joins alone
pub fn joined<M: GenMeta>(d: &[It]) -> Result<RazTree<E, M>, String> {
    let mut best: Option<(usize, u32)> = None;
    for (k, i) in d.iter().enumerate() { if let Bd(l, _) = i { if best.map_or(true, |b| *l > b.1) { best = Some((k, *l)); } } }
    match best {
        None => Ok(RazTree::from_vec(elems(d)).unwrap_or_else(RazTree::empty)),
        Some((k, _)) => match &d[k] {
            Bd(l, n) => RazTree::join(joined(&d[..k])?, *l, n.clone(), joined(&d[k + 1..])?).ok_or_else(|| "join".to_string()),
            _ => unreachable!(),
        },
    }
}

/// build the same chunks and archive points (with the names handed to the cursor) in a random way
fn build_some_way<M: GenMeta>(g: &mut G, d: &[It], by: fn(usize) -> Option<M::Index>) -> Result<RazTree<E, M>, String> {
    let by_count = by(0).is_some();
    match g.weighted(&[3, 3, 2, if by_count { 2 } else { 0 }, 1]) {
        0 => {
            g.note(|| "build way: left pushes, refocusing between chunks".into());
            let mut r: Raz<E, M> = Raz::new();
            for i in d {
                match i {
                    El(e) => { r.push_left(*e); }
                    Bd(l, n) => {
                        r.archive_left(*l, n.clone());
                        if g.chance(1, 3) { r.push_left(0); let t = r.unfocus(); r = t.focus(<M::Index as FirstLast>::last()).ok_or("focus")?; r.pop_left();
                        }
                    }
                }
            }
            Ok(r.unfocus())
        }
        1 => {
            g.note(|| "build way: right pushes".into());
            let mut r: Raz<E, M> = Raz::new();
            for i in d.iter().rev() {
                match i { El(e) => { r.push_right(*e); } Bd(l, n) => r.archive_right(*l, n.clone()) }
            }
            Ok(r.unfocus())
        }
        2 => {
            let m = if d.is_empty() { 0 } else { g.upto(d.len()) };
            g.note(|| format!("build way: both sides from item {}", m));
            let mut r: Raz<E, M> = Raz::new();
            for i in &d[..m] { match i { El(e) => { r.push_left(*e); } Bd(l, n) => r.archive_left(*l, n.clone()) } }
            for i in d[m..].iter().rev() { match i { El(e) => { r.push_right(*e); } Bd(l, n) => r.archive_right(*l, n.clone()) } }
            Ok(r.unfocus())
        }
        3 => {
            // insert archive points into one long subsequence, in random order, by taking it apart and putting it back
            g.note(|| "build way: chunks inserted in random order".into());
            let cs = chunks(d);
            let bs = bounds(d);
            if cs.is_empty() { return Ok(RazTree::empty()); }
            let mut order: Vec<usize> = (1..cs.len()).collect();
            for k in (1..order.len()).rev() { let j = g.upto(k); order.swap(k, j); }
            let mut have = vec![0usize];
            let mut r: Raz<E, M> = Raz::new();
            for e in &cs[0] { r.push_left(*e); }
            let mut t = r.unfocus();
            for c in order {
                let before: usize = have.iter().filter(|h| **h < c).map(|h| cs[*h].len()).sum();
                // chunk c goes to the right of its predecessor, with its own boundary on its left
                let mut r = t.focus(by(before).unwrap()).ok_or("focus")?;
                // the boundary the cursor stands at (if any) is to the right: new boundary + chunk in between
                r.archive_left(bs[c - 1].0, bs[c - 1].1.clone());
                for e in &cs[c] { r.push_left(*e); }
                t = r.unfocus();
                have.push(c);
            }
            Ok(t)
        }
        _ => {
            g.note(|| "build way: joins from the leaves up".into());
            joined(&in_tree(d))
        }
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// the items of the sequence built from `d`: archive points carry the tree's version of their names
fn in_tree(d: &[It]) -> Vec<It> { d.iter().map(|i| match i { Bd(l, n) => Bd(*l, n.as_ref().map(tname)), e => e.clone() }).collect() }

fn two_ways<M: GenMeta>(g: &mut G, mode: Mode, by: fn(usize) -> Option<M::Index>) -> Res {
    g.label(M::LABEL);
    g.label("two ways");
    let mut es = Elems::gen(g);
    let k = if g.chance(1, 40) { g.range(15, 90) } else if related_levels() { g.range(1, 30) } else { g.range(1, 14) };
    // names of the same cell may only be given once under the incremental engine
    let named = mode == Mode::Naive && g.bool();
    let mut nm = Namer(0);
    let mut d = vec![];
    for c in 0..k {
        if c > 0 { let n = if named && g.chance(2, 3) { Some(nm.next()) } else { None }; d.push(Bd(gen_level(g), n)); }
        for _ in 0..g.range(1, 3) { d.push(El(es.next(g))); }
    }
    g.note(|| format!("sequence {}", show(&d)));
    if k >= 4 { g.nontrivial(); }
    let lv = bounds(&d).into_iter().map(|b| b.0).collect::<Vec<_>>();
    let mut u = lv.clone();
    u.sort();
    u.dedup();
    if u.len() < lv.len() { g.label("equal levels"); }
    if named && bounds(&d).iter().any(|b| b.1.is_some()) { g.label("named archive points"); }
    let want = in_tree(&d);
    let a = build_some_way::<M>(g, &d, by)?;
    let b = build_some_way::<M>(g, &d, by)?;
    ensure_eq!(tree_items(&a), want, "first construction");
    ensure_eq!(tree_items(&b), want, "second construction");
    ensure_eq!(tree_shape(&a), tree_shape(&b), "trees of two constructions of {}", show(&d));
    ensure_eq!(tree_shape(&a), canonical(&want), "tree of {}", show(&d));
    ensure!(a == b, "equal sequences with equal archive points compare unequal: {}", show(&d));
    ensure_eq!(hash_of(&a), hash_of(&b), "hashes of equal sequences {}", show(&d));
    // and a sequence that differs anywhere is not equal
    let mut other = d.clone();
    let at = g.upto(d.len() - 1);
    match other[at].clone() {
        El(e) => match g.weighted(&[3, 1]) {
            0 => other[at] = El(e.wrapping_add(1 + g.below(3) as E)),
            _ => other.insert(at, El(e)),
        },
        Bd(l, n) => match g.weighted(&[2, 2, 1, if named { 3 } else { 0 }]) {
            0 => other[at] = Bd(l + 1, n),
            1 => {
                // one element moves to the other side of the archive point
                let right = at + 2 < d.len() && matches!(d[at + 2], El(_));
                let left = at >= 2 && matches!(d[at - 2], El(_));
                if right { other.swap(at, at + 1); } else if left { other.swap(at - 1, at); } else { other[at] = Bd(l + 1, n); }
            }
            3 => {
                g.label("differing only in a name");
                other[at] = Bd(l, if n.is_some() && g.bool() { None } else { Some(nm.next()) });
            }
            _ => { other.remove(at); }
        },
    }
    g.note(|| format!("differing sequence {}", show(&other)));
    let o = build_some_way::<M>(g, &other, by)?;
    ensure!(o != a, "different sequences compare equal: {} and {}", show(&d), show(&other));
    // joining two canonical trees at a level that fits
    let m = g.upto(d.len() - 1);
    let cut = d.iter().enumerate().position(|(i, x)| i >= m && matches!(x, Bd(..)));
    if let Some(c) = cut {
        if let Bd(l, ref n) = d[c] {
            let (dl, dr) = (&d[..c], &d[c + 1..]);
            if bounds(dl).iter().all(|b| b.0 < l) && bounds(dr).iter().all(|b| b.0 <= l) {
                g.label("join");
                let (x, y) = (build_some_way::<M>(g, dl, by)?, build_some_way::<M>(g, dr, by)?);
                let j = RazTree::join(x, l, n.as_ref().map(tname), y).ok_or("join of non-empty trees failed")?;
                ensure_eq!(tree_shape(&j), canonical(&want), "joined tree");
                ensure!(j == a, "joined tree compares unequal");
            }
        }
    }
    let e: RazTree<E, M> = RazTree::empty();
    ensure!(RazTree::join(e.clone(), 3, None, a.clone()).is_none(), "join with an empty left side");
    ensure!(RazTree::join(a.clone(), 3, None, e).is_none(), "join with an empty right side");
    Ok(())
}

fn after_history<M: GenMeta>(g: &mut G, mode: Mode, how: Naming) -> Res {
    session::<M, _>(g, 5, 12, how, |g, t, d| {
        ensure_eq!(tree_shape(t), canonical(d), "tree for {}", show(d));
        // a named cell may be made only once under the incremental engine
        if (mode == Mode::Naive || bounds(d).iter().all(|b| b.1.is_none())) && g.bool() {
            let j = joined::<M>(d)?;
            ensure!(*t == j, "the sequence made by joins of {} compares unequal to the edited one", show(d));
            ensure_eq!(hash_of(t), hash_of(&j), "hash of the sequence made by joins of {}", show(d));
            g.label("equal to joins");
        }
        Ok(())
    }).map(|_| ())
}

pub fn p11(g: &mut G) -> Res {
    let mode = pick_mode(g);
    if g.bool() {
        g.label("history");
        let how = gen_naming(g);
        if g.chance(1, 4) { after_history::<Names>(g, mode, how) } else { after_history::<Count>(g, mode, how) }
    } else {
        match g.weighted(&[3, 3, 1]) {
            0 => two_ways::<Count>(g, mode, Some),
            1 => two_ways::<Names>(g, mode, |_| None),
            _ => two_ways::<()>(g, mode, |_| None),
        }
    }
}

// ---------------------------------------------------------------- P13 (sequences)

pub fn p13_raz(g: &mut G) -> Res {
    let mode = pick_mode(g);
    // naive engine: everything persists; incremental engine: what was archived without names does
    let how = if mode == Mode::Dcg { Naming::None } else { gen_naming(g) };
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let mut razs: Vec<(Raz<E, Count>, Sess)> = vec![{ let (a, b) = big_or(g, 8, 3); build_left(g, &mut es, &mut nm, how, a, b) }];
    let mut trees: Vec<(RazTree<E, Count>, Vec<It>)> = vec![];
    let n = g.upto(30);
    let mut forks = 0;
    for _ in 0..n {
        match g.weighted(&[12, 4, 4, 4, 1, 1]) {
            0 => {
                if razs.is_empty() { continue; }
                let i = g.upto(razs.len() - 1);
                g.note(|| format!("edit editor {}", i));
                let (r, s) = &mut razs[i];
                edit_step(g, r, s, &mut es, &mut nm, how)?;
            }
            1 => {
                if razs.is_empty() || razs.len() > 6 { continue; }
                let i = g.upto(razs.len() - 1);
                g.note(|| format!("clone editor {} -> {}", i, razs.len()));
                let c = razs[i].clone();
                razs.push(c);
                forks += 1;
            }
            2 => {
                if razs.is_empty() || trees.len() > 6 { continue; }
                let i = g.upto(razs.len() - 1);
                g.note(|| format!("unfocus a clone of editor {} -> tree {}", i, trees.len()));
                let (r, s) = razs[i].clone();
                let x = unfocus(g, r, &s)?;
                trees.push(x);
            }
            4 => {
                if trees.is_empty() || trees.len() > 6 { continue; }
                let (i, j) = (g.upto(trees.len() - 1), g.upto(trees.len() - 1));
                let ((a, da), (b, db)) = (trees[i].clone(), trees[j].clone());
                let top = |d: &[It]| bounds(d).iter().map(|b| b.0).max().unwrap_or(0);
                let level = top(&da).saturating_add(1).max(top(&db)).max(1);
                if da.is_empty() || db.is_empty() || level >= u32::max_value() || da.len() + db.len() > 400 { continue; }
                let n = maybe_name(g, &mut nm, how);
                g.label("joined copies");
                g.note(|| format!("join trees {} and {} at level {} ({:?}) -> tree {}", i, j, level, n, trees.len()));
                let t = RazTree::join(a, level, n.clone(), b).ok_or("join of two non-empty sequences failed")?;
                trees.push((t, [&da[..], &[Bd(level, n)][..], &db[..]].concat()));
                forks += 1;
            }
            5 => {
                if trees.is_empty() || trees.len() > 6 { continue; }
                let i = g.upto(trees.len() - 1);
                let (t, d) = trees[i].clone();
                let by: E = if g.bool() { 0 } else { 1_000_000 };
                g.label("mapped copies");
                g.note(|| format!("map tree {} -> tree {}", i, trees.len()));
                let t: RazTree<E, Count> = t.map(Rc::new(move |e: &E| e + by));
                trees.push((t, d.into_iter().map(|x| match x { El(e) => El(e + by), b => b }).collect()));
                forks += 1;
            }
            _ => {
                if trees.is_empty() || razs.len() > 6 { continue; }
                let i = g.upto(trees.len() - 1);
                g.note(|| format!("focus a clone of tree {} -> editor {}", i, razs.len()));
                let (t, d) = trees[i].clone();
                let x = refocus(g, t, &d)?;
                razs.push(x);
                forks += 1;
            }
        }
    }
    if forks >= 2 && n >= 8 { g.nontrivial(); g.label("sequences"); }
    for (i, (t, d)) in trees.iter().enumerate() {
        ensure_eq!(tree_items(t), *d, "tree {} after edits to other copies", i);
        ensure_eq!(t.meta().0, elems(d).len(), "count of tree {}", i);
        ensure_eq!(tree_shape(t), canonical(d), "shape of tree {}", i);
    }
    for (i, (r, s)) in razs.iter().enumerate() {
        g.note(|| format!("drain a clone of editor {}", i));
        let (mut r2, mut s2) = (r.clone(), s.clone());
        drain(g, &mut r2, &mut s2)?;
    }
    for (i, (r, s)) in razs.into_iter().enumerate() {
        g.note(|| format!("unfocus editor {}", i));
        let (t, d) = unfocus(g, r, &s)?;
        ensure_eq!(tree_items(&t), d, "editor {} after its clone was drained", i);
    }
    Ok(())
}

// ---------------------------------------------------------------- P24

/// named structure, incremental engine: several versions of one sequence, each edited in its own namespace
pub fn p24(g: &mut G) -> Res {
    engine(Mode::Dcg);
    pick_levels(g);
    let how = if g.chance(3, 4) { Naming::All } else { Naming::Some };
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let (mc, ml) = big_or(g, 8, 3);
    let (r, s) = build_left::<Count>(g, &mut es, &mut nm, how, mc, ml);
    let (t0, d0) = unfocus(g, r, &s)?;
    // version 0 is the original, in the outer namespace
    let mut vs: Vec<(Name, RazTree<E, Count>, Vec<It>)> = vec![];
    let k = g.range(1, 4);
    // versions may use the same names: namespaces keep them apart
    let shared = g.bool();
    let mut nms: Vec<Namer> = (0..k).map(|i| Namer(1000 + if shared { 0 } else { i * 10_000 })).collect();
    if shared { g.label("same names in several versions"); }
    for i in 0..k {
        let name = name_pair(name_of_string("version".into()), name_of_usize(i));
        vs.push((name, t0.clone(), d0.clone()));
    }
    let rounds = g.range(1, 8);
    let mut edited = 0;
    for _ in 0..rounds {
        let i = g.upto(k - 1);
        let (name, t, d) = vs[i].clone();
        g.note(|| format!("edit version {}", i));
        let nm2 = &mut nms[i];
        let x: Result<(RazTree<E, Count>, Vec<It>), String> = ns(name, || {
            let (mut r, mut s) = refocus(g, t, &d)?;
            for _ in 0..g.upto(5) { edit_step(g, &mut r, &mut s, &mut es, nm2, how)?; }
            unfocus(g, r, &s)
        });
        let (t, d) = x?;
        if d != d0 { edited += 1; }
        vs[i].1 = t;
        vs[i].2 = d;
        ensure_eq!(tree_items(&t0), d0, "original after an edit to version {} in its own namespace", i);
        for (j, v) in vs.iter().enumerate() { ensure_eq!(tree_items(&v.1), v.2, "version {} after an edit to version {}", j, i); }
    }
    if edited >= 2 && bounds(&d0).len() >= 3 && k >= 2 { g.nontrivial(); }
    Ok(())
}
