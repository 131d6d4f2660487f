//! How much work editing and conversion do.

use crate::model::*;
use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Navigation, RazMeta};
use pbt::{ensure, ensure_eq, Res, G};
use std::cell::Cell;

thread_local! { static BUILT: Cell<usize> = Cell::new(0); static STEPS: Cell<usize> = Cell::new(0); }
fn built() -> usize { BUILT.with(|c| c.replace(0)) }
fn steps() -> usize { STEPS.with(|c| c.replace(0)) }
fn inc(c: &'static std::thread::LocalKey<Cell<usize>>) { c.with(|c| c.set(c.get() + 1)) }

/// element counts that count how often metadata is put together and consulted
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tally(pub usize);
impl RazMeta<E> for Tally {
    type Index = usize;
    fn from_none(_: u32, _: Option<Name>) -> Self { inc(&BUILT); Tally(0) }
    fn from_vec(v: &Vec<E>, _: u32, _: Option<Name>) -> Self { inc(&BUILT); Tally(v.len()) }
    fn from_meta(l: &Self, r: &Self, _: u32, _: Option<Name>) -> Self { inc(&BUILT); Tally(l.0 + r.0) }
    fn navigate(l: &Self, r: &Self, i: &usize) -> Navigation<usize> {
        inc(&STEPS);
        if *i == usize::max_value() { Navigation::Right(*i) }
        else if *i > l.0 + r.0 { Navigation::Nowhere }
        else if *i > l.0 { Navigation::Right(*i - l.0) }
        else if *i == l.0 { Navigation::Here }
        else { Navigation::Left(*i) }
    }
    fn split_vec<'a>(v: &'a Vec<E>, i: &usize) -> (&'a [E], &'a [E]) { v.split_at(if *i == usize::max_value() { v.len() } else { *i }) }
}
impl GenMeta for Tally {
    const LABEL: &'static str = "meta:counted work";
    const NEEDS_NAMES: bool = false;
    fn gen_focus(g: &mut G, d: &[It]) -> (usize, Option<usize>, String) {
        <iodyn::raz_meta::Count as GenMeta>::gen_focus(g, d)
    }
    fn check_meta(t: &RazTree<E, Self>, d: &[It]) -> Res {
        ensure_eq!(t.meta().0, elems(d).len(), "count");
        Ok(())
    }
}

/// levels and contents of long sequences, expanded from one choice
struct Mix(u64, u8, u32);
impl Mix {
    fn gen(g: &mut G) -> Mix { Mix(g.u64(), g.weighted(&[15, 1, 1, 3, 1, 1]) as u8, 100_000) }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn level(&mut self) -> u32 {
        let r = self.next();
        match self.1 {
            0 => 1 + r.trailing_zeros(),
            1 => 3,
            2 => 1 + (r % 5) as u32,
            3 => 1 + (r % 1000) as u32,
            4 => { self.2 += 1; self.2 }
            _ => { self.2 -= 1; self.2 }
        }
    }
}

/// depth of the canonical tree over the given levels (leaves not counted)
pub fn depth_of(levels: &[u32]) -> usize {
    if levels.is_empty() { return 0; }
    let mut k = 0;
    for i in 1..levels.len() { if levels[i] > levels[k] { k = i; } }
    1 + depth_of(&levels[..k]).max(depth_of(&levels[k + 1..]))
}
fn depth_doc(d: &[It]) -> usize { depth_of(&bounds(d).into_iter().map(|b| b.0).collect::<Vec<_>>()) }

/// editing sessions
pub fn p25(g: &mut G) -> Res {
    pick_mode(g);
    built();
    let how = gen_naming(g);
    let mut es = Elems::gen(g);
    let mut nm = Namer(0);
    let n = match g.weighted(&[1, 3, 1]) { 0 => g.range(1, 40), 1 => g.range(40, 300), _ => g.range(300, 1200) };
    let mut mx = Mix::gen(g);
    let (mut r, mut s): (Raz<E, Tally>, Sess) = (Raz::new(), Sess::new());
    // from the left, from the right, or from both ends
    let split = match g.weighted(&[2, 2, 1]) { 0 => n, 1 => 0, _ => g.upto(n) };
    for k in 0..n {
        let left = k < split;
        for _ in 0..1 + mx.next() % 3 {
            let e = mx.next() as E % 100;
            if left { r.push_left(e); s.push_left(e); } else { r.push_right(e); s.push_right(e); }
        }
        let lev = mx.level();
        let nme = match how { Naming::All => Some(nm.next()), Naming::None => None, Naming::Some => if mx.next() & 1 == 0 { Some(nm.next()) } else { None } };
        let m = nme.as_ref().map(tname);
        if left { s.archive_left(lev, m); r.archive_left(lev, nme); } else { s.archive_right(lev, m); r.archive_right(lev, nme); }
    }
    r.push_left(1);
    s.push_left(1);
    let what = ["geometric", "constant", "few", "uniform", "rising", "falling"][mx.1 as usize];
    g.note(|| format!("build {} archive points with {} levels, {} of them from the left: {} ^ {}", n, what, split, show(&s.l), { let mut x = s.r.clone(); x.reverse(); show(&x) }));
    let pushing = built();
    let (mut t, mut d) = unfocus(g, r, &s)?;
    let b = pushing + built();
    ensure!(b <= 8 * n + 40, "metadata was put together {} times to build a sequence of {} archive points", b, n);
    let mut local = 0;
    for _ in 0..g.range(1, 4) {
        let d0 = depth_doc(&d);
        steps();
        let (mut r, s0) = refocus(g, t, &d)?;
        let mut s = s0.clone();
        let st = steps();
        ensure!(st <= 2 * d0 + 4, "{} steps to focus in a tree of depth {}", st, d0);
        let k = g.upto(10);
        for _ in 0..k { edit_step(g, &mut r, &mut s, &mut es, &mut nm, how)?; }
        let (t2, d2) = unfocus(g, r, &s)?;
        let b = built();
        let d1 = depth_doc(&d2);
        let after = |a: &[It], b: &[It]| { let m = a.iter().zip(b).take_while(|(x, y)| x == y).count(); bounds(&a[m..]).len() };
        let changed = after(&s.l, &s0.l) + after(&s.r, &s0.r) + after(&s0.l, &s.l) + after(&s0.r, &s.r);
        let bound = 4 * (d0 + d1) + 8 * changed + 6 * k + 24;
        g.note(|| format!("depth {} then {}, {} archive points added or removed, metadata put together {} times", d0, d1, changed, b));
        ensure!(b <= bound, "metadata was put together {} times by {} edits adding or removing {} archive points of {}, in a tree of depth {} then {}", b, k, changed, bounds(&d).len(), d0, d1);
        if bound < 2 * bounds(&d).len() { local += 1; }
        ensure_eq!(tree_elems(&t2), elems(&d2), "sequence");
        ensure_eq!(tree_shape(&t2).map(|s| depth(&s) - 1).unwrap_or(0), d1, "depth of the tree for {}", show(&d2));
        built();
        t = t2;
        d = d2;
    }
    if local >= 1 { g.nontrivial(); }
    Ok(())
}

/// reruns of the conversion of a stack
pub fn p26(g: &mut G) -> Res {
    engine(Mode::Dcg);
    pick_levels(g);
    let head = g.bool();
    g.label(if head { "at head" } else { "at tail" });
    let n = match g.weighted(&[1, 3, 1]) { 0 => g.range(1, 60), 1 => g.range(60, 200), _ => g.range(200, 600) };
    let mut mx = Mix::gen(g);
    let mut st: AStack<E, u32> = AStack::new();
    let mut full: Vec<It> = vec![];
    let mut nm = Namer(0);
    let mut grow = |k: usize, st: &mut AStack<E, u32>, full: &mut Vec<It>, mx: &mut Mix| {
        for _ in 0..k {
            for _ in 0..1 + mx.next() % 3 { let e = mx.next() as E % 100; st.push(e); full.push(El(e)); }
            let l = mx.level();
            let nn = nm.next();
            st.archive(Some(nn.clone()), l);
            full.push(Bd(l, Some(nn)));
        }
    };
    let shape = |full: &[It]| -> Vec<It> {
        let m = full.iter().rposition(|i| matches!(i, El(_))).map(|p| p + 1).unwrap_or(0);
        if head { full[..m].iter().rev().cloned().collect() } else { full[..m].to_vec() }
    };
    grow(n, &mut st, &mut full, &mut mx);
    g.note(|| format!("stack {}", show(&full)));
    let mut before: Option<Vec<It>> = None;
    let mut good = 0;
    for _ in 0..g.range(2, 5) {
        built();
        let s2 = st.clone();
        let t: RazTree<E, Tally> = ns(name_of_string("conv".into()), || if head { RazTree::memo_from(&AtHead(s2)) } else { RazTree::memo_from(&AtTail(s2)) });
        let b = built();
        let now = full.clone();
        let doc = shape(&now);
        match &before {
            None => ensure!(b <= 6 * n + 40, "metadata was put together {} times to convert {} archive points", b, n),
            Some(old) => {
                let same = old.iter().zip(&now).take_while(|(x, y)| x == y).count();
                let changed = bounds(&old[same..]).len() + bounds(&now[same..]).len();
                let (d0, d1) = (depth_doc(&shape(old)), depth_doc(&doc));
                let bound = 4 * (d0 + d1) + 8 * changed + 24;
                g.note(|| format!("reconverted {} archive points, {} of them new or gone, depth {} then {}: metadata put together {} times", bounds(&now).len(), changed, d0, d1, b));
                ensure!(b <= bound, "metadata was put together {} times to reconvert {} archive points, {} of them new or gone, depth {} then {}", b, bounds(&now).len(), changed, d0, d1);
                if bound < 2 * bounds(&now).len() { good += 1; }
            }
        }
        ensure_eq!(t.meta().0, elems(&doc).len(), "count of the converted stack");
        ensure_eq!(tree_elems(&t), elems(&doc), "elements of the converted stack");
        before = Some(now);
        // the next version: some taken off, some put on
        if g.chance(2, 3) {
            let k = g.range(1, 12);
            for _ in 0..k { st.pop(); while let Some(Bd(..)) = full.pop() {} }
            g.note(|| format!("pop {}", k));
        }
        if g.chance(2, 3) {
            let k = g.range(1, 5);
            grow(k, &mut st, &mut full, &mut mx);
            g.note(|| format!("push and archive {}", k));
        }
        if g.chance(1, 3) { let e = mx.next() as E % 100; st.push(e); full.push(El(e)); g.note(|| format!("push {}", e)); }
    }
    if good >= 1 { g.nontrivial(); }
    Ok(())
}

thread_local! { static COPIED: Cell<usize> = Cell::new(0); }
fn copied() -> usize { COPIED.with(|c| c.replace(0)) }
/// elements that count how often they are copied
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Dear(E);
impl Clone for Dear { fn clone(&self) -> Self { inc(&COPIED); Dear(self.0) } }

fn top_run(v: &[It]) -> usize { v.iter().rev().take_while(|i| matches!(i, El(_))).count() }
/// elements of the subsequence a pop or peek would open: those behind the archive point at the cursor
fn behind(v: &[It]) -> usize { match v.last() { Some(Bd(..)) => top_run(&v[..v.len() - 1]), _ => 0 } }

/// editing copies elements of the subsequences it touches only
fn copies_of_editing(g: &mut G) -> Res {
    g.label("sequence");
    let mode = pick_mode(g);
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let n = match g.weighted(&[1, 4, 2]) { 0 => g.range(1, 20), 1 => g.range(20, 150), _ => g.range(150, 500) };
    let mut mx = Mix::gen(g);
    let big = g.chance(1, 4);
    let mut r: Raz<Dear, Count> = Raz::new();
    let mut s = Sess::new();
    for k in 0..n {
        let m = if big && mx.next() % 8 == 0 { 1 + mx.next() % 60 } else { 1 + mx.next() % 3 };
        for _ in 0..m { let e = mx.next() as E % 100; r.push_left(Dear(e)); s.push_left(e); }
        if k + 1 < n {
            let lev = mx.level();
            let nme = match how { Naming::All => Some(nm.next()), Naming::None => None, Naming::Some => if mx.next() & 1 == 0 { Some(nm.next()) } else { None } };
            r.archive_left(lev, nme);
            s.archive_left(lev, None);
        }
    }
    g.note(|| format!("build {} subsequences, {} elements: {}", n, elems(&s.l).len(), show(&s.l)));
    copied();
    let mut t = r.unfocus();
    let all = elems(&s.l).len();
    let c = copied();
    ensure!(c <= 12 * all + 40, "{} copies of elements to build a sequence of {}", c, all);
    let mut d = s.docs().remove(0);
    let mut local = 0;
    for _ in 0..g.range(1, 4) {
        let len = elems(&d).len();
        let at = g.upto(len);
        let mut p = 0;
        let mut k = 0;
        while k < at { if let El(_) = d[p] { k += 1; } p += 1; }
        let kept = if g.chance(1, 4) { g.label("a copy of the sequence is kept"); Some(t.clone()) } else { None };
        let c = copied();
        ensure!(c == 0 || c <= 40, "copying a sequence copies {} of its {} elements", c, len);
        let mut s = Sess::at(&d, p);
        // the elements touched so far, and the copies they justify
        let mut touched = top_run(&s.l) + top_run(&s.r);
        let mut r = t.focus(at).ok_or("focus")?;
        g.note(|| format!("focus {}: {}", at, show(&s.l)));
        let c = copied();
        ensure!(c <= 4 * touched + 40, "focusing on a subsequence of {} elements copies {}, in a sequence of {}", touched, c, len);
        let (mut budget, mut used, mut ops) = (0, 0, 0);
        for _ in 0..g.upto(10) {
            ops += 1;
            let left = g.bool();
            let open = behind(if left { &s.l } else { &s.r });
            match g.weighted(&[4, 4, 3, 3]) {
                0 => {
                    let e = mx.next() as E % 100;
                    if left { r.push_left(Dear(e)); s.push_left(e); } else { r.push_right(Dear(e)); s.push_right(e); }
                    touched += 1;
                }
                1 => {
                    let (a, b) = if left { (r.pop_left(), s.pop_left()) } else { (r.pop_right(), s.pop_right()) };
                    ensure_eq!(a.map(|x| x.0), b, "pop");
                    if open > 0 { g.label("pop opens a subsequence"); }
                    touched += open;
                    budget += 12 * open;
                }
                2 => {
                    let (a, b) = if left { (r.peek_left(), s.peek_left()) } else { (r.peek_right(), s.peek_right()) };
                    ensure_eq!(a.map(|x| x.0), b, "peek");
                    budget += 4 * touched + 12 * open;
                }
                _ => {
                    let lev = mx.level();
                    let n = maybe_name(g, &mut nm, how);
                    if left { r.archive_left(lev, n); s.archive_left(lev, None); } else { r.archive_right(lev, n); s.archive_right(lev, None); }
                    budget += 4 * touched;
                }
            }
            used += copied();
            ensure!(used <= budget + 8 * ops, "{} copies of elements by {} edits that touch {}, in a sequence of {}", used, ops, touched, len);
        }
        if g.chance(1, 6) {
            g.label("a copy of the editor is kept");
            let r2 = r.clone();
            let c = copied();
            ensure!(c <= 4 * touched + 40, "copying an editor copies {} elements, {} of them touched, of a sequence of {}", c, touched, len);
            drop(r2);
        }
        if behind(&s.l) > 0 && behind(&s.r) > 0 { r.push_left(Dear(7)); s.push_left(7); touched += 1; copied(); }
        t = r.unfocus();
        let c = copied();
        g.note(|| format!("{} elements touched of {}; {} copies by edits, {} by unfocusing", touched, len, used, c));
        ensure!(c <= 12 * touched + 40, "unfocusing copies {} elements, {} were touched, of a sequence of {}", c, touched, len);
        if 12 * touched + 40 < len { local += 1; }
        d = s.docs().remove(0);
        ensure_eq!(t.meta().0, elems(&d).len(), "count after editing");
        // joins and vectors copy nothing that grows with the sequence
        if mode == Mode::Naive && !d.is_empty() && g.chance(1, 6) {
            g.label("join");
            let v: Vec<Dear> = (0..30).map(|_| Dear(5)).collect();
            copied();
            let u = RazTree::from_vec(v).ok_or("from_vec")?;
            let l = 1 + bounds(&d).iter().map(|b| b.0).max().unwrap_or(0);
            t = RazTree::join(t, l, None, u).ok_or("join")?;
            d.push(Bd(l, None));
            d.extend((0..30).map(|_| El(5)));
            let c = copied();
            ensure!(c <= 100, "joining a vector of 30 copies {} elements, to a sequence of {}", c, len);
        }
        if let Some(t) = kept { ensure_eq!(t.meta().0, len, "count of the copy"); }
        if d.is_empty() { break; }
    }
    if mode == Mode::Naive {
        let got = t.fold_lr(vec![], std::rc::Rc::new(|mut a: Vec<E>, e: &Dear| { a.push(e.0); a }));
        ensure_eq!(got, elems(&d), "sequence");
    }
    if local >= 1 { g.nontrivial(); }
    Ok(())
}

/// so do archive stacks
fn copies_of_stacks(g: &mut G) -> Res {
    g.label("archive stack");
    pick_mode(g);
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let n = g.range(3, 120);
    let mut mx = Mix::gen(g);
    let mut st: AStack<Dear, u32> = AStack::new();
    let mut d: Vec<It> = vec![];
    for _ in 0..n {
        for _ in 0..1 + mx.next() % 6 { let e = mx.next() as E % 100; st.push(Dear(e)); d.push(El(e)); }
        let nme = maybe_name(g, &mut nm, how);
        st.archive(nme, 3);
        d.push(Bd(3, None));
    }
    let c = copied();
    ensure!(c <= 12 * elems(&d).len() + 40, "{} copies of elements to build a stack of {}", c, elems(&d).len());
    g.note(|| format!("stack {}", show(&d)));
    for _ in 0..g.range(1, 12) {
        let (top, open) = (top_run(&d), behind(&d));
        match g.weighted(&[4, 3, 3, 2, 3, 2]) {
            0 => {
                let a = st.pop();
                let mut b = None;
                while let Some(i) = d.pop() { if let El(e) = i { b = Some(e); break; } }
                ensure_eq!(a.map(|x| x.0), b, "pop");
            }
            1 => { let a = st.peek(); ensure_eq!(a.map(|x| x.0), d.iter().rev().filter_map(|i| if let El(e) = i { Some(*e) } else { None }).next(), "peek"); }
            2 => { let e = mx.next() as E % 100; st.push(Dear(e)); d.push(El(e)); }
            3 => { let nme = maybe_name(g, &mut nm, how); let did = st.archive(nme, 4); ensure_eq!(did, top > 0, "archive"); if top > 0 { d.push(Bd(4, None)); } }
            4 => { let _s = st.clone(); g.label("copy"); }
            _ => {
                let a = st.next_archive().map(|(v, _)| v.into_iter().map(|x| x.0).collect::<Vec<_>>());
                let b = if d.is_empty() { None } else { let mut v = vec![]; while let Some(El(e)) = d.last().cloned() { v.push(e); d.pop(); } d.pop(); v.reverse(); Some(v) };
                ensure_eq!(a, b, "next_archive");
                // what comes to the top may be copied
                let c = copied();
                let size = top + top_run(&d);
                ensure!(c <= 12 * size + 40, "taking an archive of {} copies {} elements, of {}", size, c, elems(&d).len());
            }
        }
        let c = copied();
        ensure!(c <= 12 * (top + open) + 40, "{} copies of elements by one operation on a stack with {} on top, {} behind, {} in all", c, top, open, elems(&d).len());
        if 12 * (top + open) + 40 < elems(&d).len() { g.nontrivial(); }
    }
    Ok(())
}

pub fn p28(g: &mut G) -> Res {
    copied();
    if g.chance(1, 4) { copies_of_stacks(g) } else { copies_of_editing(g) }
}
