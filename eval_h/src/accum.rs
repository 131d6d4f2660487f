//! P21: the accumulators of the evaluation suite are stacks.
use crate::model::*;
use adapton::engine::*;
use eval::accum_lists::{List, RcList, RcVecList, VecList};
use eval::interface::{IFaceArchive, IFaceNew, IFaceSeq};
use iodyn::archive_stack::AStack;
use iodyn::IRaz;
use pbt::{ensure_eq, Res, G};
use std::rc::Rc;

pub type Ar = (u32, Option<Name>);

/// empties an accumulator, from the top
pub fn empty<A: IFaceSeq<T>, T>(mut a: A, most: usize) -> Vec<T> {
    let mut v = vec![];
    loop {
        let (x, b) = a.seq_pop();
        a = b;
        match x { Some(x) => v.push(x), None => break }
        if v.len() > most { break; }
    }
    v
}

fn run<A>(g: &mut G, mode: Mode, label: &'static str) -> Res
where A: IFaceNew + IFaceSeq<E> + IFaceArchive<Ar> + Clone
{
    g.label(label);
    g.note(|| label.to_string());
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let mut es = Elems::gen(g);
    let mut a = A::new();
    // model: the elements, and where archives were made
    let mut m: Vec<E> = vec![];
    let mut marks: Vec<usize> = vec![];
    let (mut made, mut crossed) = (0, 0);
    let mut old: Vec<(A, Vec<E>)> = vec![];
    // copies are independent only where no named cell is shared and rewritten
    let copies = mode == Mode::Naive || how == Naming::None;
    for _ in 0..g.len(30, 200) {
        match g.weighted(&[6, 4, 3, 1]) {
            0 => {
                let e = es.next(g);
                g.note(|| format!("push {}", e));
                a = a.seq_push(e);
                m.push(e);
            }
            1 => {
                let (x, b) = a.seq_pop();
                a = b;
                g.note(|| format!("pop -> {:?}", x));
                ensure_eq!(x, m.pop(), "pop");
                while marks.last().map(|k| *k > m.len()).unwrap_or(false) { marks.pop(); crossed += 1; }
            }
            2 => {
                let l = gen_level(g);
                let n = maybe_name(g, &mut nm, how);
                g.note(|| format!("archive {} {:?}", l, n));
                a = a.archive((l, n));
                marks.push(m.len());
                made += 1;
            }
            _ => if copies && old.len() < 5 {
                g.note(|| format!("keep a copy of {:?}", m));
                old.push((a.clone(), m.clone()));
            },
        }
    }
    if made >= 2 && crossed >= 1 { g.nontrivial(); }
    for (i, (o, om)) in old.into_iter().enumerate() {
        let mut want = om.clone();
        want.reverse();
        ensure_eq!(empty(o, om.len() + 2), want, "kept copy {}", i);
    }
    let mut want = m.clone();
    want.reverse();
    let most = m.len() + 2;
    ensure_eq!(empty(a.clone(), most), want, "emptying");
    // an emptied accumulator can be filled again
    let mut b = a;
    for _ in 0..m.len() { b = b.seq_pop().1; }
    let (x, c) = b.seq_pop();
    ensure_eq!(x, None, "pop of an emptied accumulator");
    let n = maybe_name(g, &mut nm, how);
    let c = c.seq_push(4001).archive((1, n)).seq_push(4002);
    ensure_eq!(empty(c, 4), vec![4002, 4001], "filling an emptied accumulator");
    Ok(())
}

pub fn p21(g: &mut G) -> Res {
    let mode = pick_mode(g);
    match g.upto(8) {
        0 => run::<List<E>>(g, mode, "list"),
        1 => run::<RcList<E>>(g, mode, "shared list"),
        2 => run::<VecList<E>>(g, mode, "list of vectors"),
        3 => run::<RcVecList<E>>(g, mode, "shared list of vectors"),
        4 => run::<IRaz<E>>(g, mode, "sequence editor"),
        5 => run::<AStack<E, u32>>(g, mode, "archive stack"),
        6 => run::<AStack<E, ()>>(g, mode, "archive stack without metadata"),
        7 => run::<Vec<E>>(g, mode, "vector"),
        _ => match g.upto(6) {
            0 => kept_bounds::<()>(g),
            1 => kept_bounds::<u32>(g),
            2 => kept_in_editor(g),
            3 => kept_names::<List<E>>(g),
            4 => kept_names::<RcList<E>>(g),
            5 => kept_names::<VecList<E>>(g),
            _ => kept_names::<RcVecList<E>>(g),
        },
    }
}

/// what an archive stack keeps of the level given with an archive point
pub trait Keeps: Sized + Eq + Clone + std::fmt::Debug + std::hash::Hash + 'static { fn of(l: u32) -> Self; }
impl Keeps for u32 { fn of(l: u32) -> u32 { l } }
impl Keeps for () { fn of(_: u32) {} }

/// archive stacks keep the boundaries they were given
fn kept_bounds<M: Keeps>(g: &mut G) -> Res
where AStack<E, M>: IFaceNew + IFaceSeq<E> + IFaceArchive<Ar>
{
    g.label("archive stack boundaries");
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let mut es = Elems::gen(g);
    let mut a: AStack<E, M> = IFaceNew::new();
    let mut d: Vec<It> = vec![];
    // (popping an archived element opens its archive; archiving an empty active part does nothing)
    for _ in 0..g.upto(36) {
        match g.weighted(&[5, 3, 3]) {
            0 => { let e = es.next(g); a = a.seq_push(e); d.push(El(e)); }
            1 => {
                let (x, b) = a.seq_pop();
                a = b;
                if let Some(Bd(..)) = d.last() { d.pop(); g.label("pop opens an archive"); }
                let y = match d.pop() { Some(El(e)) => Some(e), _ => None };
                ensure_eq!(x, y, "pop");
            }
            _ => {
                let l = gen_level(g);
                let n = maybe_name(g, &mut nm, how);
                let some = matches!(d.last(), Some(El(_)));
                a = IFaceArchive::<Ar>::archive(a, (l, n.clone()));
                if some { d.push(Bd(l, n)); }
            }
        }
    }
    g.note(|| show(&d));
    if bounds(&d).len() >= 2 { g.nontrivial(); }
    let mut got: Vec<(Vec<E>, Option<M>, Option<Name>)> = vec![];
    loop {
        let n = a.name();
        match a.next_archive() { None => break, Some((v, l)) => got.push((v, l, n)) }
    }
    // the model, from the top
    let cs: Vec<Vec<E>> = { let mut out = vec![vec![]]; for i in &d { match i { El(e) => out.last_mut().unwrap().push(*e), Bd(..) => out.push(vec![]) } } out };
    let bs = bounds(&d);
    let mut want = vec![];
    if !d.is_empty() {
        for k in (0..cs.len()).rev() { want.push((cs[k].clone(), if k > 0 { Some(M::of(bs[k - 1].0)) } else { None }, if k > 0 { bs[k - 1].1.clone() } else { None })); }
    }
    ensure_eq!(got, want, "archives of the stack, from the top");
    Ok(())
}

/// the sequence editor, used as an accumulator, keeps its archive points
fn kept_in_editor(g: &mut G) -> Res {
    g.label("sequence editor boundaries");
    let how = gen_naming(g);
    let mut nm = Namer(0);
    let mut es = Elems::gen(g);
    let mut a: IRaz<E> = IFaceNew::new();
    let mut s = Sess::new();
    for _ in 0..g.upto(20) {
        match g.weighted(&[4, 2, 3]) {
            0 => { let e = es.next(g); a = a.seq_push(e); s.push_left(e); }
            1 => { let (x, b) = a.seq_pop(); a = b; ensure_eq!(x, s.pop_left(), "pop"); }
            _ => {
                let l = gen_level(g);
                let n = maybe_name(g, &mut nm, how);
                a = a.archive((l, n.clone()));
                s.archive_left(l, n.as_ref().map(tname));
            }
        }
    }
    g.note(|| show(&s.l));
    if bounds(&s.l).len() >= 2 { g.nontrivial(); }
    let docs = s.docs();
    let got = tree_items(&a.unfocus());
    ensure_eq!(got, docs[0], "contents and archive points of the editor");
    Ok(())
}

/// a linked accumulator seen as what it links: elements, and the names of its named archives
pub trait Linked: IFaceNew + IFaceSeq<E> + IFaceArchive<Ar> { fn links(&self) -> Vec<It>; }
macro_rules! linked { ($t:ident, $force:expr, |$v:ident, $out:ident| $cons:expr) => {
    impl Linked for $t<E> {
        fn links(&self) -> Vec<It> {
            let mut out: Vec<It> = vec![];
            let mut cur: $t<E> = self.clone();
            loop {
                let next: $t<E> = match &cur {
                    $t::Nil => break,
                    $t::Cons($v, l) => { let $out = &mut out; $cons; (**l).clone() }
                    $t::Name(n, l) => { out.push(Bd(0, Some(n.clone()))); (**l).clone() }
                    $t::Art(a) => $force(a),
                };
                cur = next;
            }
            out.reverse();
            out
        }
    }
} }
linked!(List, |a| force(a), |v, out| out.push(El(*v)));
linked!(RcList, |a: &Art<Rc<RcList<E>>>| (*force(a)).clone(), |v, out| out.push(El(*v)));
linked!(VecList, |a| force(a), |v, out| out.extend(v.iter().rev().map(|e| El(*e))));
linked!(RcVecList, |a: &Art<Rc<RcVecList<E>>>| (*force(a)).clone(), |v, out| out.extend(v.iter().rev().map(|e| El(*e))));

/// linked accumulators keep a name where a named archive was made
fn kept_names<A: Linked>(g: &mut G) -> Res {
    g.label("names in linked accumulators");
    let how = if g.bool() { Naming::All } else { Naming::Some };
    let mut nm = Namer(0);
    let mut es = Elems::gen(g);
    let mut a = A::new();
    let mut d: Vec<It> = vec![];
    for _ in 0..g.upto(20) {
        match g.weighted(&[4, 2, 3]) {
            0 => { let e = es.next(g); a = a.seq_push(e); d.push(El(e)); }
            1 => {
                let (x, b) = a.seq_pop();
                a = b;
                let y = loop { match d.pop() { Some(El(e)) => break Some(e), Some(_) => {}, None => break None } };
                ensure_eq!(x, y, "pop");
            }
            _ => {
                let n = maybe_name(g, &mut nm, how);
                a = a.archive((gen_level(g), n.clone()));
                if n.is_some() { d.push(Bd(0, n)); }
            }
        }
    }
    g.note(|| show(&d));
    if bounds(&d).len() >= 2 { g.nontrivial(); }
    ensure_eq!(a.links(), d, "elements and named archives, from the bottom");
    Ok(())
}
