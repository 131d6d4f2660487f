//! Reference models and generators shared by the properties.

use adapton::engine::*;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Navigation, Position, RazMeta};
use pbt::{ensure, ensure_eq, Res, G};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

pub type E = u32;

// ------------------------------------------------------------ engine + names

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { Naive, Dcg }

thread_local! {
    static FRESH: Cell<usize> = Cell::new(0);
    pub static DCG_ON: Cell<bool> = Cell::new(false);
}

/// start a case on a fresh engine
pub fn engine(m: Mode) {
    match m { Mode::Naive => { manage::init_naive(); } Mode::Dcg => { manage::init_dcg(); } }
    FRESH.with(|f| f.set(0));
    DCG_ON.with(|f| f.set(m == Mode::Dcg));
}

/// leave no engine state behind (also drops what the case allocated)
pub fn pick_mode(g: &mut G) -> Mode {
    let m = if g.weighted(&[3, 2]) == 0 { Mode::Naive } else { Mode::Dcg };
    engine(m);
    g.note(|| format!("engine {:?}", m));
    if m == Mode::Dcg { g.label("dcg") } else { g.label("naive") }
    pick_levels(g);
    m
}

/// run an observation in a namespace nothing else uses: with the incremental
/// engine this makes it a from-scratch computation
pub fn fresh_ns<T, F: FnOnce() -> T>(f: F) -> T {
    let k = FRESH.with(|c| { let k = c.get(); c.set(k + 1); k });
    ns(name_pair(name_of_string("harness-observer".to_string()), name_of_usize(k)), f)
}

/// source of unique names
pub struct Namer(pub usize);
impl Namer {
    pub fn next(&mut self) -> Name {
        self.0 += 1;
        let k = self.0;
        // every form a name can take
        match k % 8 {
            3 => name_of_string(format!("point {}", k)),
            5 => name_pair(name_of_usize(k), name_of_str("half")),
            7 => name_pair(name_of_str("half"), name_of_usize(k)),
            _ => name_of_usize(k),
        }
    }
}
/// the name a branch gets when an archive point named `n` becomes part of the tree
pub fn tname(n: &Name) -> Name { name_pair(n.clone(), name_of_string("tree".to_string())) }

// ------------------------------------------------------------ sequences

/// One item of the reference sequence: an element or an archive point
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum It { El(E), Bd(u32, Option<Name>) }
pub use It::*;

pub fn elems(d: &[It]) -> Vec<E> { d.iter().filter_map(|i| if let El(e) = i { Some(*e) } else { None }).collect() }
pub fn bounds(d: &[It]) -> Vec<(u32, Option<Name>)> {
    d.iter().filter_map(|i| if let Bd(l, n) = i { Some((*l, n.clone())) } else { None }).collect()
}
pub fn chunks(d: &[It]) -> Vec<Vec<E>> {
    if d.is_empty() { return vec![]; }
    let mut out = vec![vec![]];
    for i in d { match i { El(e) => out.last_mut().unwrap().push(*e), Bd(..) => out.push(vec![]) } }
    out
}
pub fn show(d: &[It]) -> String {
    let mut s = String::from("[");
    for (k, i) in d.iter().enumerate() {
        if k > 0 { s.push(' ') }
        match i { El(e) => s.push_str(&format!("{}", e)), Bd(l, n) => s.push_str(&format!("|{}{}|", l, n.as_ref().map(|n| format!(":{:?}", n)).unwrap_or_default())) }
    }
    s.push(']');
    s
}
/// item position of the cursor after exactly `i` elements, on the left of an archive point there
pub fn pos_after(d: &[It], i: usize) -> Option<usize> {
    let mut seen = 0;
    if i == 0 { return Some(0); }
    for (k, it) in d.iter().enumerate() {
        if let El(_) = it { seen += 1; if seen == i { return Some(k + 1); } }
    }
    None
}

/// Reference model of an editing session: the items on either side of the cursor, nearest last
#[derive(Clone, Debug, PartialEq)]
pub struct Sess { pub l: Vec<It>, pub r: Vec<It> }

fn run(v: &[It]) -> usize { v.iter().rev().take_while(|i| matches!(i, El(_))).count() }
fn pop(v: &mut Vec<It>) -> Option<E> {
    while let Some(i) = v.pop() { if let El(e) = i { return Some(e); } }
    None
}
fn peek(v: &[It]) -> Option<E> { v.iter().rev().find_map(|i| if let El(e) = i { Some(*e) } else { None }) }

impl Sess {
    pub fn new() -> Self { Sess { l: vec![], r: vec![] } }
    pub fn at(d: &[It], pos: usize) -> Self {
        let l = d[..pos].to_vec();
        let mut r = d[pos..].to_vec();
        r.reverse();
        Sess { l, r }
    }
    pub fn push_left(&mut self, e: E) -> usize { self.l.push(El(e)); run(&self.l) }
    pub fn push_right(&mut self, e: E) -> usize { self.r.push(El(e)); run(&self.r) }
    pub fn pop_left(&mut self) -> Option<E> { pop(&mut self.l) }
    pub fn pop_right(&mut self) -> Option<E> { pop(&mut self.r) }
    pub fn peek_left(&self) -> Option<E> { peek(&self.l) }
    pub fn peek_right(&self) -> Option<E> { peek(&self.r) }
    /// true if the archive point takes effect (there is something to archive)
    pub fn archive_left(&mut self, lev: u32, n: Option<Name>) -> bool {
        if run(&self.l) > 0 { self.l.push(Bd(lev, n)); true } else { false }
    }
    pub fn archive_right(&mut self, lev: u32, n: Option<Name>) -> bool {
        if run(&self.r) > 0 { self.r.push(Bd(lev, n)); true } else { false }
    }
    /// The sequences an unfocus may produce.  With no elements between the
    /// archive points on either side of the cursor, only one of them can stay.
    pub fn docs(&self) -> Vec<Vec<It>> {
        let join = |l: &[It], r: &[It]| { let mut d = l.to_vec(); d.extend(r.iter().rev().cloned()); d };
        let (nl, nr) = (self.l.len(), self.r.len());
        let lb = nl > 0 && matches!(self.l[nl - 1], Bd(..));
        let rb = nr > 0 && matches!(self.r[nr - 1], Bd(..));
        if lb && rb { vec![join(&self.l[..nl - 1], &self.r), join(&self.l, &self.r[..nr - 1])] }
        else if lb && nr == 0 { vec![self.l[..nl - 1].to_vec()] }
        else if rb && nl == 0 { vec![join(&[], &self.r[..nr - 1])] }
        else { vec![join(&self.l, &self.r)] }
    }
}

// ------------------------------------------------------------ tree shape

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape { Leaf(Vec<E>), Node(u32, Option<Name>, Rc<Shape>, Rc<Shape>) }

/// the canonical tree: the greatest level is the root, the leftmost of equal
/// levels is on top (left branches strictly lower, right branches not higher)
pub fn canonical(d: &[It]) -> Option<Shape> {
    if d.is_empty() { return None; }
    let mut best: Option<(usize, u32)> = None;
    for (k, i) in d.iter().enumerate() {
        if let Bd(l, _) = i { if best.map(|b| *l > b.1).unwrap_or(true) { best = Some((k, *l)); } }
    }
    Some(match best {
        None => Shape::Leaf(elems(d)),
        Some((k, _)) => match &d[k] {
            Bd(l, n) => Shape::Node(*l, n.clone(), Rc::new(canonical(&d[..k]).unwrap()), Rc::new(canonical(&d[k + 1..]).unwrap())),
            _ => unreachable!(),
        },
    })
}
pub fn shape_doc(s: &Shape, out: &mut Vec<It>) {
    match s {
        Shape::Leaf(v) => out.extend(v.iter().map(|e| El(*e))),
        Shape::Node(l, n, a, b) => { shape_doc(a, out); out.push(Bd(*l, n.clone())); shape_doc(b, out); }
    }
}
pub fn depth(s: &Shape) -> usize { match s { Shape::Leaf(_) => 1, Shape::Node(_, _, a, b) => 1 + depth(a).max(depth(b)) } }

// ------------------------------------------------------------ observers

pub fn tree_elems<M: RazMeta<E> + 'static>(t: &RazTree<E, M>) -> Vec<E> {
    let t = t.clone();
    fresh_ns(|| t.fold_lr(vec![], Rc::new(|mut a: Vec<E>, e: &E| { a.push(*e); a })))
}
pub fn tree_items<M: RazMeta<E> + 'static>(t: &RazTree<E, M>) -> Vec<It> {
    let t = t.clone();
    fresh_ns(|| t.fold_lr_meta(
        vec![],
        Rc::new(|mut a: Vec<It>, e: &E| { a.push(El(*e)); a }),
        Rc::new(|mut a: Vec<It>, (l, n)| { a.push(Bd(l, n)); a }),
    ))
}
pub fn tree_shape<M: RazMeta<E> + 'static>(t: &RazTree<E, M>) -> Option<Shape> {
    let t = t.clone();
    fresh_ns(|| t.fold_up_gauged(
        Rc::new(|v: &Vec<E>| Shape::Leaf(v.clone())),
        Rc::new(|a: Shape, l, n, b: Shape| Shape::Node(l, n, Rc::new(a), Rc::new(b))),
    ))
}

// ------------------------------------------------------------ generators

thread_local! { static STYLE: std::cell::Cell<(u8, u32)> = std::cell::Cell::new((0, 0)); }
/// how the levels of a case are related: mostly independent, sometimes all the same, one of two, in long
/// runs, ever higher or ever lower
pub fn pick_levels(g: &mut G) {
    let k = g.weighted(&[40, 2, 2, 1, 1, 1]) as u8;
    STYLE.with(|s| s.set((0, 0)));
    if k == 0 { return; }
    g.label("related levels");
    let base = gen_level(g);
    g.note(|| format!("levels: style {} from {}", k, base));
    STYLE.with(|s| s.set((k, if k == 5 { base.saturating_add(1000) } else { base })));
}
pub fn related_levels() -> bool { STYLE.with(|s| s.get().0 > 0) }

pub fn gen_level(g: &mut G) -> u32 {
    let (k, l) = STYLE.with(|s| s.get());
    match k {
        0 => free_level(g),
        1 => l,
        2 => if g.bool() { l } else { l.saturating_add(1) },
        3 => { if g.chance(1, 8) { let n = free_level(g); STYLE.with(|s| s.set((k, n))); } l }
        4 => { if g.chance(2, 3) { STYLE.with(|s| s.set((k, l.saturating_add(1)))); } l }
        _ => { if l > 1 && g.chance(2, 3) { STYLE.with(|s| s.set((k, l - 1))); } l }
    }.min(u32::max_value() - 1)
}
fn free_level(g: &mut G) -> u32 {
    match g.weighted(&[4, 4, 2, 1]) {
        0 => g.range(1, 5) as u32,
        1 => { let mut l = 1; while l < 64 && g.bool() { l += 1; } l }
        2 => g.range(1, 64) as u32,
        _ => match g.weighted(&[3, 1, 1]) {
            0 => g.range(65, 100_000) as u32,
            1 => *g.pick(&[255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0x8000_0001]),
            _ => u32::max_value() - g.range(1, 3) as u32,
        },
    }
}

/// element values: mostly all distinct, sometimes from a tiny domain so that equal subsequences occur
pub struct Elems { next: E, dom: u32 }
impl Elems {
    pub fn gen(g: &mut G) -> Self { let dom = if g.chance(1, 4) { g.range(1, 3) as u32 } else { 0 }; Elems { next: 0, dom } }
    pub fn next(&mut self, g: &mut G) -> E {
        if self.dom > 0 { g.below(self.dom as u64) as E } else { self.next += 1; self.next }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Naming { All, Some, None }
pub fn gen_naming(g: &mut G) -> Naming { [Naming::All, Naming::Some, Naming::None][g.weighted(&[3, 4, 2])] }
pub fn maybe_name(g: &mut G, nm: &mut Namer, how: Naming) -> Option<Name> {
    match how {
        Naming::All => Some(nm.next()),
        Naming::None => None,
        Naming::Some => if g.bool() { Some(nm.next()) } else { None },
    }
}

/// limits on subsequences and their length: usually the given ones, now and then much larger
pub fn big_or(g: &mut G, chunks: usize, len: usize) -> (usize, usize) {
    if related_levels() && g.chance(1, 4) { g.label("related levels, many"); return (30, 2); }
    if !g.chance(1, 50) { return (chunks, len); }
    g.label("large");
    match g.weighted(&[3, 2, 1]) { 0 => (90, 5), 1 => (20, 60), _ => (3, 700) }
}

/// a freshly built sequence in an editor, with the model beside it
pub fn build_left<M: RazMeta<E> + 'static>(g: &mut G, es: &mut Elems, nm: &mut Namer, how: Naming, max_chunks: usize, max_len: usize)
    -> (Raz<E, M>, Sess)
{
    let mut r = Raz::new();
    let mut s = Sess::new();
    let k = g.upto(max_chunks);
    for c in 0..k {
        let n = g.range(1, max_len);
        for _ in 0..n { let e = es.next(g); r.push_left(e); s.push_left(e); }
        if c + 1 < k || g.chance(1, 4) {
            let lev = gen_level(g);
            let name = maybe_name(g, nm, how);
            s.archive_left(lev, name.as_ref().map(tname));
            r.archive_left(lev, name);
        }
    }
    g.note(|| format!("build with push_left/archive_left {}", show(&s.l)));
    (r, s)
}

/// metadata kinds a generated session can use
pub trait GenMeta: RazMeta<E> + 'static {
    const LABEL: &'static str;
    const NEEDS_NAMES: bool;
    /// an index to focus on and the item position it denotes (None: not in the sequence)
    fn gen_focus(g: &mut G, d: &[It]) -> (Self::Index, Option<usize>, String);
    /// what the metadata of a whole tree must be
    fn check_meta(t: &RazTree<E, Self>, d: &[It]) -> Res;
}

impl GenMeta for Count {
    const LABEL: &'static str = "meta:count";
    const NEEDS_NAMES: bool = false;
    fn gen_focus(g: &mut G, d: &[It]) -> (usize, Option<usize>, String) {
        let n = elems(d).len();
        let i = match g.weighted(&[6, 2, 1, 1]) {
            0 => g.upto(n),
            1 => {
                // right at an archive point
                let mut c = 0;
                let mut at = vec![];
                for it in d { match it { El(_) => c += 1, _ => at.push(c) } }
                if at.is_empty() { g.upto(n) } else { *g.pick(&at) }
            }
            2 => n,
            _ => usize::max_value(),
        };
        if i == usize::max_value() { (i, Some(d.len()), "end".into()) } else { (i, pos_after(d, i), format!("{}", i)) }
    }
    fn check_meta(t: &RazTree<E, Self>, d: &[It]) -> Res {
        ensure_eq!(t.meta().0, elems(d).len(), "element count of {}", show(d));
        Ok(())
    }
}
impl GenMeta for () {
    const LABEL: &'static str = "meta:unit";
    const NEEDS_NAMES: bool = false;
    fn gen_focus(g: &mut G, d: &[It]) -> (Position<()>, Option<usize>, String) {
        if g.bool() { (Position::Left, Some(0), "first".into()) } else { (Position::Right, Some(d.len()), "last".into()) }
    }
    fn check_meta(_t: &RazTree<E, Self>, _d: &[It]) -> Res { Ok(()) }
}
pub fn name_set(d: &[It]) -> BTreeSet<String> {
    bounds(d).into_iter().filter_map(|b| b.1).map(|n| format!("{:?}", n)).collect()
}
impl GenMeta for Names {
    const LABEL: &'static str = "meta:names";
    const NEEDS_NAMES: bool = true;
    fn gen_focus(g: &mut G, d: &[It]) -> (Position<Name>, Option<usize>, String) {
        let ns: Vec<(usize, Name)> = d.iter().enumerate().filter_map(|(k, i)| if let Bd(_, Some(n)) = i { Some((k, n.clone())) } else { None }).collect();
        match g.weighted(&[1, 1, 4]) {
            0 => (Position::Left, Some(0), "first".into()),
            1 => (Position::Right, Some(d.len()), "last".into()),
            _ => if ns.is_empty() { (Position::Left, Some(0), "first".into()) } else {
                let (k, n) = g.pick(&ns).clone();
                let s = format!("name {:?}", n);
                (Position::Center(n), Some(k), s)
            },
        }
    }
    fn check_meta(t: &RazTree<E, Self>, d: &[It]) -> Res {
        let got: BTreeSet<String> = t.meta().0.keys().map(|n| format!("{:?}", n)).collect();
        ensure_eq!(t.meta().0.len(), got.len(), "distinct names");
        ensure_eq!(got, name_set(d), "names recorded for {}", show(d));
        Ok(())
    }
}

thread_local! { pub static SEEN: RefCell<Vec<(Rec, Rec)>> = RefCell::new(vec![]); }

/// A user-defined, order-sensitive kind of metadata: remembers exactly the
/// elements below it and the level and name of the branch that asked for it.
/// Focusing goes by element offset, and every pair consulted is kept in SEEN.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec { pub elems: Vec<E>, pub lev: u32, pub name: Option<Name> }
#[derive(Clone, Debug, PartialEq)]
pub struct Off(pub usize);
impl FirstLast for Off {
    fn first() -> Self { Off(0) }
    fn last() -> Self { Off(usize::max_value()) }
}
impl RazMeta<E> for Rec {
    type Index = Off;
    fn from_none(lev: u32, name: Option<Name>) -> Self { Rec { elems: vec![], lev, name } }
    fn from_vec(vec: &Vec<E>, lev: u32, name: Option<Name>) -> Self { Rec { elems: vec.clone(), lev, name } }
    fn from_meta(l: &Self, r: &Self, lev: u32, name: Option<Name>) -> Self {
        let mut elems = l.elems.clone();
        elems.extend(r.elems.iter());
        Rec { elems, lev, name }
    }
    fn navigate(l: &Self, r: &Self, index: &Off) -> Navigation<Off> {
        SEEN.with(|s| s.borrow_mut().push((l.clone(), r.clone())));
        let (i, ll) = (index.0, l.elems.len());
        if i == usize::max_value() { Navigation::Right(Off(i)) }
        else if i > ll + r.elems.len() { Navigation::Nowhere }
        else if i > ll { Navigation::Right(Off(i - ll)) }
        else if i == ll { Navigation::Here }
        else { Navigation::Left(Off(i)) }
    }
    fn split_vec<'a>(vec: &'a Vec<E>, index: &Off) -> (&'a [E], &'a [E]) {
        if index.0 == usize::max_value() { vec.split_at(vec.len()) } else { vec.split_at(index.0) }
    }
}
impl GenMeta for Rec {
    const LABEL: &'static str = "meta:user-defined";
    const NEEDS_NAMES: bool = false;
    fn gen_focus(g: &mut G, d: &[It]) -> (Off, Option<usize>, String) {
        let (i, p, s) = <Count as GenMeta>::gen_focus(g, d);
        (Off(i), p, s)
    }
    fn check_meta(t: &RazTree<E, Self>, d: &[It]) -> Res {
        ensure_eq!(*t.meta(), Rec { elems: elems(d), lev: 0, name: None }, "metadata of the whole sequence {}", show(d));
        Ok(())
    }
}

// ------------------------------------------------------------ sessions

/// One edit on the real editor and on the model, comparing what they return
pub fn edit_step<M: GenMeta>(g: &mut G, r: &mut Raz<E, M>, s: &mut Sess, es: &mut Elems, nm: &mut Namer, how: Naming) -> Res {
    match g.weighted(&[5, 4, 4, 4, 2, 2, 3, 3, 2]) {
        0 => {
            let e = es.next(g);
            g.note(|| format!("push_left {}", e));
            ensure_eq!(r.push_left(e), s.push_left(e), "unarchived count returned by push_left");
        }
        1 => {
            let e = es.next(g);
            g.note(|| format!("push_right {}", e));
            ensure_eq!(r.push_right(e), s.push_right(e), "unarchived count returned by push_right");
        }
        2 => {
            let before = s.l.len();
            let (a, b) = (r.pop_left(), s.pop_left());
            if before > s.l.len() + 1 { g.label("pop across archive point"); }
            g.note(|| format!("pop_left -> {:?}", a));
            ensure_eq!(a, b, "pop_left");
        }
        3 => {
            let before = s.r.len();
            let (a, b) = (r.pop_right(), s.pop_right());
            if before > s.r.len() + 1 { g.label("pop across archive point"); }
            g.note(|| format!("pop_right -> {:?}", a));
            ensure_eq!(a, b, "pop_right");
        }
        4 => {
            let a = r.peek_left();
            g.note(|| format!("peek_left -> {:?}", a));
            ensure_eq!(a, s.peek_left(), "peek_left");
        }
        5 => {
            let a = r.peek_right();
            g.note(|| format!("peek_right -> {:?}", a));
            ensure_eq!(a, s.peek_right(), "peek_right");
        }
        6 => {
            let lev = gen_level(g);
            let n = maybe_name(g, nm, how);
            g.note(|| format!("archive_left {} {:?}", lev, n));
            s.archive_left(lev, n.as_ref().map(tname));
            r.archive_left(lev, n);
        }
        7 => {
            let lev = gen_level(g);
            let n = maybe_name(g, nm, how);
            g.note(|| format!("archive_right {} {:?}", lev, n));
            s.archive_right(lev, n.as_ref().map(tname));
            r.archive_right(lev, n);
        }
        _ => {
            // a burst of insertions on one side with archive points in between
            let left = g.bool();
            let (k, len) = match g.weighted(&[597, 2, 1]) {
                0 => (g.range(1, 3), 4),
                1 => { g.label("many archive points in a row"); (g.range(4, 130), 2) }
                _ => { g.label("long subsequence"); (g.range(1, 2), 2600) }
            };
            // levels as they come, or all the same, or ever higher, or ever lower
            let pattern = if k > 3 { g.upto(3) } else { 0 };
            let base = gen_level(g);
            for c in 0..k {
                let n = if len > 4 { len - g.upto(len - 1) } else { g.range(1, len) };
                for _ in 0..n {
                    let e = es.next(g);
                    if left { r.push_left(e); s.push_left(e); } else { r.push_right(e); s.push_right(e); }
                }
                let lev = match pattern { 0 if c == 0 => base, 0 => gen_level(g), 1 => base, 2 => 1 + c as u32, _ => (k - c) as u32 };
                let nme = maybe_name(g, nm, how);
                let m = nme.as_ref().map(tname);
                if left { r.archive_left(lev, nme); s.archive_left(lev, m); } else { r.archive_right(lev, nme); s.archive_right(lev, m); }
            }
            g.note(|| format!("burst {} {} chunks: session {} ^ {}", if left { "left" } else { "right" }, k, show(&s.l), { let mut x = s.r.clone(); x.reverse(); show(&x) }));
        }
    }
    Ok(())
}

/// unfocus, and settle which of the allowed sequences it produced
pub fn unfocus<M: GenMeta>(g: &mut G, r: Raz<E, M>, s: &Sess) -> Result<(RazTree<E, M>, Vec<It>), String> {
    let t = r.unfocus();
    let docs = s.docs();
    let doc = if docs.len() == 1 { docs[0].clone() } else {
        g.label("empty gap between archive points");
        let got = bounds(&tree_items(&t));
        match docs.iter().find(|d| bounds(d) == got) { Some(d) => d.clone(), None => docs[0].clone() }
    };
    g.note(|| format!("unfocus: {}", show(&doc)));
    Ok((t, doc))
}

pub fn refocus<M: GenMeta>(g: &mut G, t: RazTree<E, M>, d: &[It]) -> Result<(Raz<E, M>, Sess), String> {
    if g.chance(1, 8) {
        g.note(|| "focus_left".to_string());
        return Ok((t.focus_left(), Sess::at(d, 0)));
    }
    let (ix, pos, s) = M::gen_focus(g, d);
    g.note(|| format!("focus {}", s));
    let r = t.focus(ix);
    ensure!(r.is_some(), "focus {} failed on {}", s, show(d));
    Ok((r.unwrap(), Sess::at(d, if d.is_empty() { 0 } else { pos.expect("harness: focus position") })))
}

/// compare the whole session, element by element, on a consumed editor
pub fn drain<M: GenMeta>(g: &mut G, r: &mut Raz<E, M>, s: &mut Sess) -> Res {
    let left_first = g.bool();
    g.note(|| format!("drain {}", if left_first { "left, right" } else { "right, left" }));
    for side in 0..2 {
        loop {
            let (a, b, p) = if (side == 0) == left_first {
                let p = r.peek_left();
                (r.pop_left(), s.pop_left(), p)
            } else {
                let p = r.peek_right();
                (r.pop_right(), s.pop_right(), p)
            };
            ensure_eq!(a, b, "element while draining");
            ensure_eq!(p, b, "peek while draining");
            if b.is_none() { break; }
        }
    }
    ensure_eq!(r.pop_left(), None, "pop on an emptied sequence");
    ensure_eq!(r.pop_right(), None, "pop on an emptied sequence");
    Ok(())
}
