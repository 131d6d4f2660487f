//! Level trees, tree cursors, level generation.

use crate::model::*;
use adapton::engine::*;
use iodyn::level_tree::{gen_branch_level, good_levels, Tree};
use iodyn::raz::Raz;
use iodyn::raz_meta::Count;
use iodyn::tree_cursor::{Cursor, DeriveTreeUpdate, Force, TreeUpdate, UpResult};
use iodyn::trees::{Level, NegBin};
use pbt::{ensure, ensure_eq, Res, G};
use rand::{Rand, Rng};
use std::cell::RefCell;
use std::rc::Rc;

/// Data kept in the cursor's trees.  `all` is what is below a node in order,
/// recomputed (with the node's level and name) whenever the cursor rebuilds it,
/// so any rebuild with wrong arguments, or a missing one, shows.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct D { own: E, all: Vec<E>, lev: u32, name: Option<Name> }
impl D {
    fn of(l: Option<&D>, own: E, lev: u32, name: Option<Name>, r: Option<&D>) -> D {
        let mut all = l.map(|d| d.all.clone()).unwrap_or_default();
        all.push(own);
        if let Some(r) = r { all.extend(r.all.iter()); }
        D { own, all, lev, name }
    }
}
impl TreeUpdate for D {
    fn rebuild(l: Option<&Self>, old: &Self, lev: u32, name: Option<Name>, r: Option<&Self>) -> Self { D::of(l, old.own, lev, name, r) }
}

/// Reference tree
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct MT { lev: u32, name: Option<Name>, d: D, l: Link, r: Link }
type Link = Option<Rc<MT>>;
fn data(l: &Link) -> Option<&D> { l.as_ref().map(|t| &t.d) }
fn mk(lev: u32, name: Option<Name>, own: E, l: Link, r: Link) -> Rc<MT> {
    let d = D::of(data(&l), own, lev, name.clone(), data(&r));
    Rc::new(MT { lev, name, d, l, r })
}
type Node = (u32, Option<Name>, E);
/// the canonical tree of a sequence of nodes
fn canon(v: &[Node]) -> Link {
    if v.is_empty() { return None; }
    let mut b = 0;
    for i in 1..v.len() { if v[i].0 > v[b].0 { b = i; } }
    Some(mk(v[b].0, v[b].1.clone(), v[b].2, canon(&v[..b]), canon(&v[b + 1..])))
}
fn in_order(t: &Link, out: &mut Vec<Node>) {
    if let Some(t) = t { in_order(&t.l, out); out.push((t.lev, t.name.clone(), t.d.own)); in_order(&t.r, out); }
}
fn seq(t: &Link) -> Vec<Node> { let mut v = vec![]; in_order(t, &mut v); v }
fn brief(t: &Link) -> String {
    match t { None => ".".into(), Some(t) => if t.l.is_none() && t.r.is_none() { format!("{}@{}", t.d.own, t.lev) } else { format!("({} {}@{} {})", brief(&t.l), t.d.own, t.lev, brief(&t.r)) } }
}
fn real(t: &Link) -> Option<Tree<D>> {
    t.as_ref().map(|t| Tree::new(t.lev, t.name.clone(), t.d.clone(), real(&t.l), real(&t.r)).unwrap())
}
/// read a real tree back, through its public accessors
fn read(t: &Option<Tree<D>>) -> Link {
    t.as_ref().map(|t| Rc::new(MT { lev: t.level(), name: t.name(), d: t.peek(), l: read(&t.l_tree()), r: read(&t.r_tree()) }))
}

fn gen_nodes(g: &mut G, nm: &mut Namer, how: Naming, n: usize, next: &mut E) -> Vec<Node> {
    let tops = g.range(1, 6) as u32;
    // chains: levels all the same, ever higher or ever lower
    let chain = if n > 15 && g.chance(1, 3) { g.label("chain"); g.range(1, 4) } else { 0 };
    (0..n).map(|i| {
        let lev = match chain {
            1 => 3,
            2 => i as u32 / 2,
            3 => (n - i) as u32 / 2,
            // the way down alternates
            4 => (if i < n / 2 { n - 2 * i } else { (2 * i + 1).saturating_sub(n) }) as u32,
            _ => if g.chance(1, 6) { gen_level(g) } else { g.upto(tops as usize) as u32 },
        };
        *next += 1;
        (lev, maybe_name(g, nm, how), *next)
    }).collect()
}

// ---------------------------------------------------------------- model cursor

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dir { L, R }
/// Reference zipper: the path from the root (with what was pending at each
/// step), and the focused subtree
#[derive(Clone, Debug)]
struct MC { path: Vec<(Rc<MT>, Dir)>, tree: Link }
impl MC {
    fn root(mut self) -> Link { while self.up().is_some() {} self.tree }
    fn down(&mut self, d: Dir, f: Force) -> bool {
        let t = match self.tree { None => return false, Some(ref t) => t.clone() };
        let c = if d == Dir::L { t.l.clone() } else { t.r.clone() };
        if c.is_none() && f == Force::No { return false; }
        if f != Force::Discard { self.path.push((t, d)); }
        self.tree = c;
        true
    }
    fn up(&mut self) -> Option<Dir> {
        self.path.pop().map(|(p, d)| {
            let t = self.tree.take();
            self.tree = Some(match d {
                Dir::L => mk(p.lev, p.name.clone(), p.d.own, t, p.r.clone()),
                Dir::R => mk(p.lev, p.name.clone(), p.d.own, p.l.clone(), t),
            });
            d
        })
    }
    fn up_discard(&mut self) -> Option<Dir> { self.path.pop().map(|(p, d)| { self.tree = Some(p); d }) }
    /// nodes before and after the focused node (or gap)
    fn sides(&self) -> (Vec<Node>, Vec<Node>) {
        let (mut l, mut r) = match self.tree { None => (vec![], vec![]), Some(ref t) => (seq(&t.l), seq(&t.r)) };
        for (p, d) in self.path.iter().rev() {
            let n = (p.lev, p.name.clone(), p.d.own);
            match d {
                Dir::R => { let mut v = seq(&p.l); v.push(n); v.extend(l); l = v; }
                Dir::L => { r.push(n); r.extend(seq(&p.r)); }
            }
        }
        (l, r)
    }
}
fn dir(u: UpResult) -> Option<&'static str> { match u { UpResult::Fail => None, UpResult::Left => Some("left"), UpResult::Right => Some("right") } }
/// the model's direction of movement: leaving a right branch moves left
fn mdir(d: Option<Dir>) -> Option<&'static str> { d.map(|d| if d == Dir::R { "left" } else { "right" }) }

fn observe(c: &Cursor<D>, m: &MC) -> Res {
    ensure_eq!(c.peek(), data(&m.tree).cloned(), "data at the cursor");
    ensure_eq!(c.peek_level(), m.tree.as_ref().map(|t| t.lev), "level at the cursor");
    ensure_eq!(c.peek_name(), m.tree.as_ref().and_then(|t| t.name.clone()), "name at the cursor");
    Ok(())
}
fn observe_trees(c: &Cursor<D>, m: &MC) -> Res {
    ensure_eq!(read(&c.at_tree()), m.tree, "tree at the cursor");
    ensure_eq!(read(&c.left_tree()), m.tree.as_ref().and_then(|t| t.l.clone()), "left branch at the cursor");
    ensure_eq!(read(&c.right_tree()), m.tree.as_ref().and_then(|t| t.r.clone()), "right branch at the cursor");
    Ok(())
}

/// one move; Err on disagreement
fn step(g: &mut G, c: &mut Cursor<D>, m: &mut MC, discard: bool, up_discard: bool) -> Res {
    let f = match g.weighted(if discard { &[6, 2, 1] } else { &[6, 2, 0] }) { 0 => Force::No, 1 => Force::Yes, _ => Force::Discard };
    let ft = match f { Force::No => "", Force::Yes => " (forced)", Force::Discard => " (discard)" };
    match g.weighted(&[4, 4, 4, 1]) {
        0 => {
            g.note(|| format!("down left{}", ft));
            let a = if f == Force::No && g.bool() { c.down_left() } else { c.down_left_force(f) };
            ensure_eq!(a, m.down(Dir::L, f), "whether down left moved");
        }
        1 => {
            g.note(|| format!("down right{}", ft));
            let a = if f == Force::No && g.bool() { c.down_right() } else { c.down_right_force(f) };
            ensure_eq!(a, m.down(Dir::R, f), "whether down right moved");
        }
        2 => {
            g.note(|| "up".to_string());
            ensure_eq!(dir(c.up()), mdir(m.up()), "direction of up");
        }
        _ => {
            if !up_discard { return Ok(()); }
            g.note(|| "up, discarding changes".to_string());
            ensure_eq!(dir(c.up_discard()), mdir(m.up_discard()), "direction of up_discard");
        }
    }
    if m.tree.is_none() { g.label("at an empty branch"); }
    observe(c, m)
}

/// far down one side, or zigzag
fn dive(g: &mut G, c: &mut Cursor<D>, m: &mut MC) -> Res {
    let (k, way) = (g.upto(200), g.upto(3));
    g.note(|| format!("dive {} {}", k, ["left", "right", "alternating", "at random"][way]));
    for i in 0..k {
        let d = match way { 0 => Dir::L, 1 => Dir::R, 2 => if i % 2 == 0 { Dir::L } else { Dir::R }, _ => if g.bool() { Dir::L } else { Dir::R } };
        let a = if d == Dir::L { c.down_left() } else { c.down_right() };
        ensure_eq!(a, m.down(d, Force::No), "whether the cursor moved down");
        if !a && way < 2 { break; }
    }
    observe(c, m)
}

fn climb(c: &mut Cursor<D>) -> Res {
    for _ in 0..10_000 { if c.up() == UpResult::Fail { return Ok(()); } }
    Err("up never reaches the root".into())
}

// ---------------------------------------------------------------- P16

fn cursor_engine(g: &mut G) -> Naming {
    // copies of named structure are only independent under the plain engine
    if pick_mode(g) == Mode::Dcg { Naming::None } else { gen_naming(g) }
}

/// data that leaves its rebuilding to the library
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Plain(E);
impl DeriveTreeUpdate for Plain {}
fn plain_real(t: &Link) -> Option<Tree<Plain>> {
    t.as_ref().map(|t| Tree::new(t.lev, t.name.clone(), Plain(t.d.own), plain_real(&t.l), plain_real(&t.r)).unwrap())
}
fn plain_read(t: &Option<Tree<Plain>>) -> Link {
    t.as_ref().map(|t| mk(t.level(), t.name(), t.peek().0, plain_read(&t.l_tree()), plain_read(&t.r_tree())))
}
fn p16_plain(g: &mut G, t: Link) -> Res {
    g.label("data without its own update");
    let mut c: Cursor<Plain> = match plain_real(&t) { Some(t) => Cursor::from(t), None => Cursor::new() };
    let mut m = MC { path: vec![], tree: t };
    let k = g.len(25, 120);
    let mut far = 0;
    for _ in 0..k {
        let f = match g.weighted(&[5, 2, 2]) { 0 => Force::No, 1 => Force::Yes, _ => Force::Discard };
        match g.upto(2) {
            0 => ensure_eq!(c.down_left_force(f), m.down(Dir::L, f), "whether down left moved"),
            1 => ensure_eq!(c.down_right_force(f), m.down(Dir::R, f), "whether down right moved"),
            _ => { far += 1; ensure_eq!(dir(c.up()), mdir(m.up()), "direction of up") }
        }
        ensure_eq!(c.peek().map(|d| d.0), data(&m.tree).map(|d| d.own), "data at the cursor");
    }
    if far >= 3 && k >= 10 { g.nontrivial(); }
    for _ in 0..10_000 { if c.up() == UpResult::Fail { break; } }
    ensure_eq!(plain_read(&c.at_tree()), m.root(), "whole tree after the moves");
    Ok(())
}

pub fn p16(g: &mut G) -> Res {
    let how = cursor_engine(g);
    let mut nm = Namer(0);
    let mut next = 0;
    let n = g.len(14, 70);
    let nodes = gen_nodes(g, &mut nm, how, n, &mut next);
    let t = canon(&nodes);
    g.note(|| format!("tree {}", brief(&t)));
    if g.chance(1, 10) { return p16_plain(g, t); }
    let mut c = match real(&t) { Some(t) => Cursor::from(t), None => if g.bool() { Cursor::new() } else { Cursor::with_depth(g.upto(40)) } };
    let mut m = MC { path: vec![], tree: t };
    observe(&c, &m)?;
    let k = g.len(25, 120);
    let (mut far, mut clean) = (0, 0);
    for _ in 0..k {
        let d = m.path.len();
        if n > 15 && g.chance(1, 20) { dive(g, &mut c, &mut m)?; }
        step(g, &mut c, &mut m, true, true)?;
        if m.path.len() < d { far += 1; }
        if g.chance(1, 6) { observe_trees(&c, &m)?; clean += 1; }
    }
    let _ = clean;
    if n >= 5 && far >= 3 && k >= 10 { g.nontrivial(); }
    observe_trees(&c, &m)?;
    // copies go their own way
    let mut c2 = c.clone();
    climb(&mut c2)?;
    let root = m.clone().root();
    ensure_eq!(read(&c2.at_tree()), root, "whole tree after the moves");
    observe_trees(&c, &m)?;
    let _ = c;
    Ok(())
}

// ---------------------------------------------------------------- P17

fn whole(c: &Cursor<D>) -> Result<Link, String> {
    let mut c = c.clone();
    climb(&mut c)?;
    Ok(read(&c.at_tree()))
}
fn all_data(t: &Link, out: &mut Vec<D>) {
    if let Some(t) = t { all_data(&t.l, out); out.push(t.d.clone()); all_data(&t.r, out); }
}
/// data right of the cursor, in a tree nothing was changed in
fn data_right(m: &MC) -> Vec<D> {
    let mut out = vec![];
    if let Some(ref t) = m.tree { all_data(&t.r, &mut out); }
    for (p, d) in m.path.iter().rev() { if *d == Dir::L { out.push(p.d.clone()); all_data(&p.r, &mut out); } }
    out
}
/// returns whether anything may have been changed
fn wander(g: &mut G, c: &mut Cursor<D>, m: &mut MC, k: usize) -> Result<bool, String> {
    let k = g.upto(k);
    // (after a join, up_discard would also discard the join)
    let discard = g.chance(1, 3);
    if k > 8 && g.bool() { dive(g, c, m)?; }
    for _ in 0..k { step(g, c, m, discard, false)?; }
    Ok(discard)
}
fn owns(v: &[Node]) -> Vec<E> { v.iter().map(|n| n.2).collect() }

pub fn p17(g: &mut G) -> Res {
    let how = cursor_engine(g);
    let mut nm = Namer(0);
    let mut next = 0;
    let big = g.chance(1, 30);
    let n = if big { if g.chance(1, 30) { g.label("deep or very large"); g.upto(400) } else { g.upto(80) } } else { g.upto(12) };
    let nodes = gen_nodes(g, &mut nm, how, n, &mut next);
    let t = canon(&nodes);
    g.note(|| format!("tree {}", brief(&t)));
    let mut c: Cursor<D> = match real(&t) { Some(t) => Cursor::from(t), None => Cursor::new() };
    let mut m = MC { path: vec![], tree: t };
    // a large tree is walked for long
    let far = if big { 60 } else { 8 };
    let mut joins = 0;
    for _ in 0..g.range(1, 6) {
        let changed = wander(g, &mut c, &mut m, far)? || joins > 0;
        let (l, r) = m.sides();
        let here = m.tree.as_ref().map(|t| (t.lev, t.name.clone(), t.d.own));
        // everything to the right, in order
        if g.chance(1, 2) {
            let (_, at, it) = c.clone().into_iters();
            ensure_eq!(at.map(|t| t.peek()), data(&m.tree).cloned(), "tree at the cursor given by into_iters");
            let full: Vec<D> = if g.bool() {
                it.take(r.len() + 5).collect()
            } else {
                g.label("fold_out");
                fresh_ns(|| it.fold_out(vec![], Rc::new(|mut a: Vec<D>, d: D| { a.push(d); a })))
            };
            let got: Vec<E> = full.iter().map(|d| d.own).collect();
            if !changed {
                g.label("iteration over an unchanged tree");
                ensure_eq!(full, data_right(&m), "data to the right of the cursor");
            }
            g.note(|| format!("iterate rightwards: {:?}", got));
            ensure_eq!(got, owns(&r), "elements to the right of the cursor");
        }
        // split
        let (mut lc, at, mut rc) = c.split();
        g.note(|| format!("split: {:?} {:?} {:?}", owns(&l), here.as_ref().map(|h| h.2), owns(&r)));
        ensure_eq!(read(&at), m.tree, "tree returned by split");
        ensure_eq!(read(&lc.at_tree()), m.tree.as_ref().and_then(|t| t.l.clone()), "left cursor after split");
        ensure_eq!(read(&rc.at_tree()), m.tree.as_ref().and_then(|t| t.r.clone()), "right cursor after split");
        let (wl, wr) = (canon(&l), canon(&r));
        ensure_eq!(whole(&lc)?, wl, "everything left of the split");
        ensure_eq!(whole(&rc)?, wr, "everything right of the split");
        // move about in the parts
        let mut both: Vec<(&mut Cursor<D>, Link)> = vec![(&mut lc, wl), (&mut rc, wr)];
        for (c, w) in both.iter_mut() {
            for _ in 0..g.upto(3) {
                match g.upto(4) {
                    4 => { c.down_right_force(Force::Yes); }
                    0 => { c.down_left(); }
                    1 => { c.down_right(); }
                    2 => { c.up(); }
                    _ => { c.down_left_force(Force::Yes); }
                }
            }
            if big && g.chance(1, 3) { let k = g.upto(200); let right = g.bool(); for _ in 0..k { if !(if right { c.down_right() } else { c.down_left() }) { break; } } }
            if g.chance(1, 4) { climb(c)?; }
            ensure_eq!(whole(c)?, *w, "part after moving in it");
        }
        // join, with the old node or a new one, in either order of the parts
        let swap = g.chance(1, 6);
        let node = match g.weighted(&[2, 3]) {
            0 if here.is_some() => here.clone().unwrap(),
            _ => { let lev = if g.bool() { g.upto(6) as u32 } else { gen_level(g) }; next += 1; (lev, maybe_name(g, &mut nm, how), next) }
        };
        let (lc, rc, l, r) = if swap { g.label("parts swapped"); (rc, lc, r, l) } else { (lc, rc, l, r) };
        g.note(|| format!("join around {:?}{}", node, if swap { ", parts swapped" } else { "" }));
        c = Cursor::join(lc, node.0, node.1.clone(), D { own: node.2, all: vec![], lev: 0, name: None }, rc);
        let mut all = l.clone();
        all.push(node.clone());
        all.extend(r.clone());
        let want = canon(&all);
        ensure_eq!(c.peek().map(|d| d.own), Some(node.2), "cursor after join");
        ensure_eq!(c.peek_level(), Some(node.0), "level at the cursor after join");
        ensure_eq!(c.peek_name(), node.1.clone(), "name at the cursor after join");
        let w = whole(&c)?;
        ensure_eq!(seq(&w), all, "sequence after join");
        ensure_eq!(w, want, "canonical tree after join");
        joins += 1;
        if all.len() > 4 && joins >= 2 { g.nontrivial(); }
        let mut m2 = MC { path: vec![], tree: want };
        // go to the joined node in the model
        loop {
            let (o, here) = match m2.tree { None => return Err("harness: lost node".into()), Some(ref t) => (t.d.own, seq(&t.l).iter().any(|n| n.2 == node.2)) };
            if o == node.2 { break; }
            m2.down(if here { Dir::L } else { Dir::R }, Force::No);
        }
        m = m2;
        observe_trees(&c, &m)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

/// any tree shape with any levels
fn gen_tree(g: &mut G, nm: &mut Namer, how: Naming, n: usize, next: &mut E) -> Link {
    if n == 0 { return None; }
    let l = g.upto(n - 1);
    *next += 1;
    let own = if g.chance(1, 4) { g.below(3) as E } else { *next };
    let lev = g.upto(5) as u32;
    let name = maybe_name(g, nm, how);
    let a = gen_tree(g, nm, how, l, next);
    let b = gen_tree(g, nm, how, n - 1 - l, next);
    Some(mk(lev, name, own, a, b))
}
/// change some data, drop or graft some branches; names of what stays are kept
fn mutate(g: &mut G, t: &Link, nm: &mut Namer, how: Naming, next: &mut E) -> Link {
    match t {
        None => if g.chance(1, 8) { gen_tree(g, nm, how, g_small(next), next) } else { None },
        Some(t) => {
            if g.chance(1, 12) { return None; }
            let own = if g.chance(1, 5) { *next += 1; *next } else { t.d.own };
            let mut l = mutate(g, &t.l, nm, how, next);
            let mut r = mutate(g, &t.r, nm, how, next);
            let lev = if g.chance(1, 12) { g.upto(5) as u32 } else { t.lev };
            // parts change places, keeping their names
            match g.weighted(&[20, 1, 1]) {
                1 => std::mem::swap(&mut l, &mut r),
                2 => if let Some(c) = l.clone() {
                    let low = mk(lev, t.name.clone(), own, c.r.clone(), r);
                    return Some(mk(c.lev, c.name.clone(), c.d.own, c.l.clone(), Some(low)));
                },
                _ => {}
            }
            Some(mk(lev, t.name.clone(), own, l, r))
        }
    }
}
fn g_small(next: &E) -> usize { (*next % 3) as usize + 1 }
fn plain(t: &Link) -> Option<Tree<E>> {
    t.as_ref().map(|t| Tree::new(t.lev, t.name.clone(), t.d.own, plain(&t.l), plain(&t.r)).unwrap())
}
fn levels_good(t: &Link) -> bool {
    match t { None => true, Some(t) => t.l.as_ref().map(|l| l.lev < t.lev).unwrap_or(true) && t.r.as_ref().map(|r| r.lev <= t.lev).unwrap_or(true) && levels_good(&t.l) && levels_good(&t.r) }
}
fn show_meta(t: &MT) -> String {
    let s = |x: &Link| x.as_ref().map(|t| show_meta(t)).unwrap_or("-".into());
    format!("[{} {}@{}:{:?} {}]", s(&t.l), t.d.own, t.lev, t.name, s(&t.r))
}
/// what a left-to-right fold is told: a leaf gets the name of the branch before it
fn lr_events(t: &Link, start: Option<Name>) -> Vec<(E, u32, Option<Name>)> {
    fn go(t: &MT, prev: &mut Option<Name>, out: &mut Vec<(E, u32, Option<Name>)>) {
        if let Some(l) = &t.l { go(l, prev, out); }
        if t.l.is_none() && t.r.is_none() { out.push((t.d.own, t.lev, prev.clone())); }
        else { out.push((t.d.own, t.lev, t.name.clone())); *prev = t.name.clone(); }
        if let Some(r) = &t.r { go(r, prev, out); }
    }
    let mut out = vec![];
    let mut p = start;
    if let Some(t) = t { go(t, &mut p, &mut out); }
    out
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct R { v: u64, lev: u32, name: Option<Name>, l: Option<u64>, r: Option<u64> }
fn mapped(t: &Link) -> Option<(R, Vec<R>)> {
    t.as_ref().map(|t| {
        let (l, r) = (mapped(&t.l), mapped(&t.r));
        let v = t.d.own as u64 * 3 + l.as_ref().map(|x| x.0.v * 2).unwrap_or(1) + r.as_ref().map(|x| x.0.v * 5).unwrap_or(2);
        let me = R { v: v % 1_000_003, lev: t.lev, name: t.name.clone(), l: l.as_ref().map(|x| x.0.v), r: r.as_ref().map(|x| x.0.v) };
        let mut all = l.map(|x| x.1).unwrap_or_default();
        all.push(me.clone());
        all.extend(r.map(|x| x.1).unwrap_or_default());
        (me, all)
    })
}
fn read_map(t: &Option<Tree<R>>, out: &mut Vec<R>, heads: &mut Vec<(u32, Option<Name>)>) {
    if let Some(t) = t { read_map(&t.l_tree(), out, heads); out.push(t.peek()); heads.push((t.level(), t.name())); read_map(&t.r_tree(), out, heads); }
}

fn tree_computations(g: &mut G, t: &Link) -> Res {
    let m = match t { None => return Ok(()), Some(m) => m.clone() };
    let tree = plain(t).unwrap();
    let n = |s: &str| name_of_string(format!("p18-{}", s));
    ensure_eq!((tree.level(), tree.name(), tree.peek()), (m.lev, m.name.clone(), m.d.own), "root of the tree");
    let skip = g.upto(12);
    if skip != 1 {
        let r = ns(n("up"), || tree.clone().fold_up(Rc::new(|l: Option<Vec<E>>, e: E, r: Option<Vec<E>>| { let mut a = l.unwrap_or_default(); a.push(e); a.extend(r.unwrap_or_default()); a })));
        ensure_eq!(r, m.d.all, "fold_up over {}", brief(t));
    }
    if skip != 2 {
        let r = ns(n("meta"), || tree.clone().fold_up_meta(Rc::new(|l: Option<String>, e: E, lev, name: Option<Name>, r: Option<String>|
            format!("[{} {}@{}:{:?} {}]", l.unwrap_or("-".into()), e, lev, name, r.unwrap_or("-".into())))));
        ensure_eq!(r, show_meta(&m), "fold_up_meta");
    }
    if skip != 3 {
        let r = ns(n("lr"), || tree.clone().fold_lr(vec![9], Rc::new(|mut a: Vec<E>, e: E| { a.push(e); a })));
        let mut want = vec![9];
        want.extend(m.d.all.iter());
        ensure_eq!(r, want, "fold_lr over {}", brief(t));
    }
    if skip != 4 {
        let start = if g.bool() { Some(name_of_string("begin".into())) } else { None };
        let r = ns(n("lrmeta"), || tree.clone().fold_lr_meta(start.clone(), vec![], Rc::new(|mut a: Vec<(E, u32, Option<Name>)>, e: E, l, n| { a.push((e, l, n)); a })));
        ensure_eq!(r, lr_events(t, start), "fold_lr_meta over {}", brief(t));
    }
    if skip != 5 {
        let (all, heads) = ns(n("map"), || {
            let r: Tree<R> = tree.clone().map(Rc::new(|e: E, lev, name, l: Option<&Tree<R>>, r: Option<&Tree<R>>| {
                let (l, r) = (l.map(|t| t.peek().v), r.map(|t| t.peek().v));
                let v = e as u64 * 3 + l.map(|x| x * 2).unwrap_or(1) + r.map(|x| x * 5).unwrap_or(2);
                R { v: v % 1_000_003, lev, name, l, r }
            }));
            let (mut a, mut h) = (vec![], vec![]);
            read_map(&Some(r), &mut a, &mut h);
            (a, h)
        });
        ensure_eq!(all, mapped(t).unwrap().1, "map over {}", brief(t));
        ensure_eq!(heads, seq(t).into_iter().map(|n| (n.0, n.1)).collect::<Vec<_>>(), "levels and names after map");
    }
    if skip != 6 && skip != 7 {
        // folding out of a cursor, at the left end or somewhere in the tree
        let left = g.bool();
        let steps: Vec<bool> = (0..g.upto(4)).map(|_| g.bool()).collect();
        let mut at = MC { path: vec![], tree: t.clone() };
        let mut walk = |c: &mut Cursor<D>| {
            if left { while c.down_left() {} return; }
            for right in &steps { if !(if *right { c.down_right() } else { c.down_left() }) { break; } }
        };
        if left { loop { if at.tree.as_ref().map(|t| t.l.is_none()).unwrap_or(true) { break; } at.down(Dir::L, Force::No); } }
        else { for right in &steps { if !at.down(if *right { Dir::R } else { Dir::L }, Force::No) { break; } } }
        let r = ns(n("out"), || {
            let mut c: Cursor<D> = Cursor::from(real(t).unwrap());
            walk(&mut c);
            let (_, _, it) = c.into_iters();
            it.fold_out(vec![77], Rc::new(|mut a: Vec<E>, d: D| { a.push(d.own); a }))
        });
        let mut want = vec![77];
        want.extend(owns(&at.sides().1));
        ensure_eq!(r, want, "fold_out to the right of {:?} in {}", data(&at.tree).map(|d| d.own), brief(t));
    }
    let good = good_levels(&tree);
    ensure_eq!(good, levels_good(t), "good_levels of {}", brief(t));
    g.label(if good { "levels in order" } else { "levels out of order" });
    // and nothing of this changed the tree
    let r = fresh_ns(|| tree.fold_lr(vec![], Rc::new(|mut a: Vec<E>, e: E| { a.push(e); a })));
    ensure_eq!(r, m.d.all, "tree after the computations");
    Ok(())
}

pub fn p18(g: &mut G) -> Res {
    let mode = pick_mode(g);
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let mut next = 0;
    let n = g.len(12, 60);
    let mut t = if g.bool() {
        let v = gen_nodes(g, &mut nm, how, n, &mut next);
        canon(&v)
    } else { gen_tree(g, &mut nm, how, n, &mut next) };
    g.note(|| format!("tree {}", brief(&t)));
    if seq(&t).len() >= 4 { g.nontrivial(); }
    tree_computations(g, &t)?;
    if mode == Mode::Dcg {
        // the same structure, edited in place by name, computed over again
        for _ in 0..g.upto(4) {
            t = mutate(g, &t, &mut nm, how, &mut next);
            g.note(|| format!("edited tree {}", brief(&t)));
            g.label("recomputed after edits");
            tree_computations(g, &t)?;
        }
    }
    Ok(())
}

pub fn p13_tree(g: &mut G) -> Res {
    let how = cursor_engine(g);
    let mut nm = Namer(0);
    let mut next = 0;
    let n = g.len(12, 60);
    let nodes = gen_nodes(g, &mut nm, how, n, &mut next);
    let t = canon(&nodes);
    g.note(|| format!("tree {}", brief(&t)));
    let kept = real(&t);
    let c = match kept.clone() { Some(t) => Cursor::from(t), None => Cursor::new() };
    let mut pool = vec![(c, MC { path: vec![], tree: t.clone() })];
    let mut saved: Vec<(Option<Tree<D>>, Link)> = vec![(kept, t)];
    for _ in 0..g.len(30, 100) {
        let i = g.upto(pool.len() - 1);
        match g.weighted(&[8, 2, 1]) {
            0 => {
                g.note(|| format!("cursor {}:", i));
                let (c, m) = &mut pool[i];
                step(g, c, m, true, true)?;
            }
            1 => if pool.len() < 7 {
                g.note(|| format!("clone cursor {} -> {}", i, pool.len()));
                let c = pool[i].clone();
                pool.push(c);
            },
            _ => {
                g.note(|| format!("keep the tree at cursor {}", i));
                let x = (pool[i].0.at_tree(), pool[i].1.tree.clone());
                saved.push(x);
            }
        }
    }
    if pool.len() >= 3 && n >= 5 { g.nontrivial(); g.label("trees and cursors"); }
    for (i, (c, m)) in pool.iter().enumerate() {
        observe_trees(c, m)?;
        ensure_eq!(whole(c)?, m.clone().root(), "whole tree of cursor {}", i);
    }
    for (i, (t, m)) in saved.iter().enumerate() { ensure_eq!(read(t), *m, "kept tree {}", i); }
    Ok(())
}

// ---------------------------------------------------------------- P20

struct Fixed(Vec<u64>, usize);
impl Rng for Fixed {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let v = self.0[self.1 % self.0.len()]; self.1 += 1; v }
}
struct Mix(u64);
impl Rng for Mix {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// within 9 standard deviations (and a bit) of halving from level to level
fn halving(what: &str, ls: &[u32]) -> Res {
    let n = ls.len() as f64;
    for k in 1..8u32 {
        let c = ls.iter().filter(|l| **l == k).count() as f64;
        let p = 0.5f64.powi(k as i32);
        let (mean, sd) = (n * p, (n * p * (1.0 - p)).sqrt());
        ensure!((c - mean).abs() <= 9.0 * sd + 6.0, "{}: {} of {} are level {}, expected about {}", what, c, n, k, mean);
    }
    Ok(())
}

/// Random words with their low (or high) bits zero. Where one of the two families reaches only
/// levels above 8 when 8 bits are zero, the level is read off that end of the word, and k zero
/// bits make it a random level above k: those must halve too.
fn rare<F: Fn(&mut Fixed) -> u32>(what: &str, seed: u64, k: u32, gen: F) -> Res {
    for low in &[true, false] {
        let sample = |k: u32| -> Vec<u32> {
            let mut rng = Mix(seed);
            (0..1500).map(|_| { let w = rng.next_u64(); gen(&mut Fixed(vec![if *low { w << k } else { w >> k }], 0)) }).collect()
        };
        if sample(8).iter().any(|l| *l <= 8) { continue; }
        let ls = sample(k);
        ensure!(ls.iter().all(|l| *l > k && *l <= 64), "{}: from words with {} zero bits: levels {:?}", what, k, ls.iter().filter(|l| **l <= k || **l > 64).take(5).collect::<Vec<_>>());
        halving(what, &ls.iter().map(|l| l - k).collect::<Vec<_>>())?;
    }
    Ok(())
}

pub fn p20(g: &mut G) -> Res {
    engine(Mode::Naive);
    match g.weighted(&[4, 2, 2, 2, 2]) {
        4 => {
            g.label("rare levels");
            g.nontrivial();
            let (s, k) = (g.u64(), g.range(1, 48) as u32);
            g.note(|| format!("levels above {} (random words from seed {:x})", k, s));
            rare("generated levels", s, k, |r| gen_branch_level(r))?;
            rare("generated levels (NegBin)", s, k, |r| NegBin::rand(r).0 as u32)?;
        }
        0 => {
            g.label("chosen random words");
            let v: Vec<u64> = (0..g.range(1, 8)).map(|_| match g.weighted(&[1, 2, 2, 1, 2]) {
                0 => 0,
                1 => 1u64 << g.upto(63),
                2 => u64::max_value() << g.upto(63),
                3 => u64::max_value() >> g.upto(63),
                _ => g.u64(),
            }).collect();
            g.note(|| format!("random words {:x?}", v));
            if v.len() >= 3 { g.nontrivial(); }
            let n = v.len();
            let mut rng = Fixed(v.clone(), 0);
            for _ in 0..n { let l = gen_branch_level(&mut rng); ensure!(l >= 1 && l <= 64, "generated level {} from {:x?}", l, v); }
            let mut rng = Fixed(v.clone(), 0);
            for _ in 0..n { let l = NegBin::rand(&mut rng); ensure!(l.0 >= 1 && l.0 <= 64 && l > NegBin::l_min() && l < NegBin::l_max(), "generated level {:?} from {:x?}", l, v); }
            // the same words give the same level
            let run = || { let mut rng = Fixed(v.clone(), 0); (0..n).map(|_| gen_branch_level(&mut rng)).collect::<Vec<_>>() };
            let (a, b) = (run(), run());
            ensure_eq!(b, a, "levels for the same random words");
            let run = || { let mut rng = Fixed(v.clone(), 0); (0..n).map(|_| NegBin::rand(&mut rng).0).collect::<Vec<_>>() };
            let (a, b) = (run(), run());
            ensure_eq!(b, a, "levels (NegBin) for the same random words");
        }
        1 => {
            g.label("distribution");
            g.nontrivial();
            let s = g.u64();
            g.note(|| format!("2000 levels from seed {:x}", s));
            let mut rng = Mix(s);
            let ls: Vec<u32> = (0..2000).map(|_| gen_branch_level(&mut rng)).collect();
            ensure!(ls.iter().all(|l| *l >= 1 && *l <= 64), "level out of range");
            halving("generated levels", &ls)?;
            let ls: Vec<u32> = (0..2000).map(|_| NegBin::rand(&mut rng).0 as u32).collect();
            ensure!(ls.iter().all(|l| *l >= 1 && *l <= 64), "level out of range");
            halving("generated levels (NegBin)", &ls)?;
        }
        2 => {
            g.label("inc_level");
            g.nontrivial();
            let s = g.u64();
            g.note(|| format!("2000 levels from inc_level (case {:x})", s));
            let ls: Vec<u32> = (0..2000).map(|_| iodyn::inc_level()).collect();
            ensure!(ls.iter().all(|l| *l >= 1 && *l <= 64), "level out of range");
            halving("inc_level", &ls)?;
        }
        _ => {
            g.label("depth");
            g.nontrivial();
            let s = g.u64();
            let n = g.range(2, 400);
            g.note(|| format!("sequence with {} archive points at levels from seed {:x}", n, s));
            let mut rng = Mix(s);
            let mut r: Raz<E, Count> = Raz::new();
            for i in 0..n { r.push_left(i as E); r.archive_left(gen_branch_level(&mut rng), None); }
            r.push_left(n as E);
            let t = r.unfocus();
            let d = depth(&tree_shape(&t).unwrap());
            let lim = 8.0 * (n as f64 + 1.0).log2() + 45.0;
            ensure!((d as f64) <= lim, "depth {} for {} archive points", d, n);
        }
    }
    Ok(())
}

/// from scratch, a computation over a level tree runs its function once per node
pub fn calls(g: &mut G) -> Res {
    g.label("level tree");
    let how = gen_naming(g);
    let (mut nm, mut next) = (Namer(0), 0);
    let n = g.len(12, 60);
    let t = if g.bool() { let v = gen_nodes(g, &mut nm, how, n, &mut next); canon(&v) } else { gen_tree(g, &mut nm, how, n, &mut next) };
    g.note(|| format!("tree {}", brief(&t)));
    let tree = match plain(&t) { None => return Ok(()), Some(t) => t };
    let nodes = seq(&t);
    if nodes.len() >= 4 { g.nontrivial(); }
    let want: Vec<(E, u32)> = nodes.iter().map(|n| (n.2, n.0)).collect();
    let mut sorted = want.clone();
    sorted.sort();
    let log: Rc<RefCell<Vec<(E, u32)>>> = Rc::new(RefCell::new(vec![]));
    let run = || { let mut v = log.replace(vec![]); v.sort(); v };
    let l = log.clone();
    fresh_ns(|| tree.clone().fold_up_meta(Rc::new(move |a: Option<E>, e: E, lev, _: Option<Name>, b: Option<E>| { l.borrow_mut().push((e, lev)); a.unwrap_or(0).max(b.unwrap_or(0)) })));
    ensure_eq!(run(), sorted, "calls of fold_up_meta over {}", brief(&t));
    let l = log.clone();
    fresh_ns(|| tree.clone().fold_up(Rc::new(move |a: Option<E>, e: E, b: Option<E>| { l.borrow_mut().push((e, 0)); a.unwrap_or(0).max(b.unwrap_or(0)) })));
    let plainly: Vec<E> = { let mut v: Vec<E> = want.iter().map(|w| w.0).collect(); v.sort(); v };
    ensure_eq!(run().into_iter().map(|w| w.0).collect::<Vec<_>>(), plainly, "calls of fold_up over {}", brief(&t));
    let l = log.clone();
    fresh_ns(|| tree.clone().map(Rc::new(move |e: E, lev, _: Option<Name>, _: Option<&Tree<E>>, _: Option<&Tree<E>>| { l.borrow_mut().push((e, lev)); e / 2 })));
    ensure_eq!(run(), sorted, "calls of map over {}", brief(&t));
    let l = log.clone();
    fresh_ns(|| tree.clone().fold_lr_meta(None, 0, Rc::new(move |_: E, e: E, lev, _| { l.borrow_mut().push((e, lev)); 0 })));
    ensure_eq!(log.replace(vec![]), want, "calls of fold_lr_meta over {}", brief(&t));
    Ok(())
}
