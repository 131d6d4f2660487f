//! P23: the evaluation pipelines, rerun after edits, agree with plain computations.
use crate::accum::{empty, Ar};
use crate::measured::{gauges, items, rng_of, FoldE, FoldM, Measured, Mix};
use crate::model::*;
use adapton::engine::*;
use eval::accum_lists::{List, RcList, RcVecList, VecList};
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::interface::{IFaceArchive, IFaceNew, IFaceSeq};
use eval::primitives::*;
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::memo::MemoFrom;
use iodyn::{IRaz, IRazTree};
use pbt::{ensure_eq, Res, G};
use rand::{Rand, Rng, StdRng};
use std::collections::BTreeSet;
use std::rc::Rc;
use time::Duration;

fn nm(s: &str) -> Name { name_of_string(s.to_string()) }

// ------------------------------------------------------------ the little language of the adder

/// a character of the language
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ch(pub char);
impl Rand for Ch {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        let k = rng.next_u32() as usize % 17;
        Ch(b"0123456789,,,,+++"[k] as char)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Token { Num(u32), Plus }

fn tok_step<A: IFaceSeq<Token>>((ts, part): (A, Option<u32>), c: &Ch) -> (A, Option<u32>) {
    if let Some(num) = c.0.to_digit(10) {
        let bigger = part.map_or(num, |p| p * 10 + num);
        let (ts, bigger) = if bigger > 99999 { (ts.seq_push(Token::Num(bigger)), num) } else { (ts, bigger) };
        (ts, Some(bigger))
    } else {
        let ts = if let Some(num) = part { ts.seq_push(Token::Num(num)) } else { ts };
        let ts = if c.0 == '+' { ts.seq_push(Token::Plus) } else { ts };
        (ts, None)
    }
}
fn tok_meta<A: IFaceArchive<Ar>>((ts, part): (A, Option<u32>), (l, n): Ar) -> (A, Option<u32>) { (ts.archive((l, n)), part) }
fn tok_final<A: IFaceSeq<Token>>((ts, part): (A, Option<u32>)) -> A {
    if let Some(num) = part { ts.seq_push(Token::Num(num)) } else { ts }
}
fn parse_step<A: IFaceSeq<u32>>(n: A, t: &Token) -> A {
    match *t {
        Token::Num(a) => n.seq_push(a),
        Token::Plus => {
            let (b, n) = n.seq_pop();
            if let Some(b) = b {
                let (a, n) = n.seq_pop();
                if let Some(a) = a { n.seq_push(a.wrapping_add(b)) } else { n.seq_push(b) }
            } else { n }
        }
    }
}
fn push_meta<A: IFaceArchive<Ar>>(a: A, (l, n): Ar) -> A { a.archive((l, n)) }

/// the same two stages, on plain vectors and without the harness's traits
fn ref_tokens(s: &[Ch]) -> Vec<Token> {
    let mut out = vec![];
    let mut part: Option<u32> = None;
    for c in s {
        match c.0.to_digit(10) {
            Some(d) => {
                let b = part.map(|p| p * 10 + d).unwrap_or(d);
                if b > 99999 { out.push(Token::Num(b)); part = Some(d); } else { part = Some(b); }
            }
            None => {
                if let Some(p) = part.take() { out.push(Token::Num(p)); }
                if c.0 == '+' { out.push(Token::Plus); }
            }
        }
    }
    if let Some(p) = part { out.push(Token::Num(p)); }
    out
}
fn ref_parse(ts: &[Token]) -> Vec<u32> {
    let mut st: Vec<u32> = vec![];
    for t in ts {
        match t {
            Token::Num(a) => st.push(*a),
            Token::Plus => if st.len() >= 2 { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(a.wrapping_add(b)); },
        }
    }
    st
}

// ------------------------------------------------------------ pipelines over numbers

/// a random edit through the suite's editors, if the sequence allows it
fn edit<D: EditInsert + EditAppend>(g: &mut G, d: D, can_insert: bool, rng: &mut StdRng) -> D {
    let n = match g.weighted(&[3, 3, 1]) { 0 => 1, 1 => g.upto(5), _ => g.len(10, 40) };
    match if can_insert { g.weighted(&[5, 2, 1]) } else { g.range(1, 2) } {
        0 => { g.note(|| format!("BatchInsert({})", n)); Editor::<Duration, D>::edit(&mut BatchInsert(n), d, rng).1 }
        1 => { g.note(|| format!("BatchAppend({})", n)); Editor::<Duration, D>::edit(&mut BatchAppend(n), d, rng).1 }
        _ => { g.note(|| "SingleAppend".to_string()); Editor::<Duration, D>::edit(&mut SingleAppend, d, rng).1 }
    }
}

/// runs a pipeline over a measured sequence of numbers, again after every edit
fn over<D, F>(g: &mut G, label: &'static str, mut pipe: F) -> Res
where D: Measured, F: FnMut(&mut G, &D, &[It], &mut StdRng) -> Res
{
    g.label(label);
    pick_mode(g);
    let coord = Mix::gen(g);
    let (mut rng, _) = rng_of(g);
    let (dg, ng) = gauges(g);
    let size = g.len(40, 300);
    g.note(|| format!("{}: init {} coord {:?}, datagauge {}, namegauge {}", label, size, coord, dg, ng));
    let mut d: D = IncrementalInit { size, datagauge: dg, namegauge: ng, coord }.create(&mut rng).1;
    let rounds = g.range(1, 6);
    for k in 0..rounds {
        let doc = items(&d);
        g.note(|| format!("run {} over {}", k, show(&doc)));
        pipe(g, &d, &doc, &mut rng)?;
        if bounds(&doc).len() >= 2 && k > 0 { g.nontrivial(); }
        if k + 1 < rounds {
            let can = if D::BY_NAME { bounds(&doc).iter().any(|b| b.1.is_some()) } else { !elems(&doc).is_empty() };
            d = edit(g, d, can, &mut rng);
        }
    }
    Ok(())
}

fn push_e<A: IFaceSeq<E>>(a: A, e: &E) -> A { a.seq_push(*e) }

fn push_few<A: IFaceSeq<E>>(a: A, e: &E) -> A { if e % 7 == 1 { a.seq_push(*e) } else { a } }

fn to_list<D, A>(g: &mut G, label: &'static str) -> Res
where
    D: Measured + CompFoldMeta<E, A, Ar, FoldE<A>, FoldM<A>, Target = A>,
    A: IFaceNew + IFaceSeq<E> + IFaceArchive<Ar> + Clone,
{
    // all elements, or a few only: then archives follow one another directly
    let few = g.chance(1, 3);
    if few { g.label("list of few elements"); }
    over::<D, _>(g, label, |_, d, doc, rng| {
        let mut c = MFolder::new(nm("to_list"), A::new(), if few { push_few::<A> } else { push_e::<A> } as FoldE<A>, push_meta::<A> as FoldM<A>, |a: A| a);
        let (times, a): (Vec<Duration>, A) = Computor::<(Vec<Duration>, A), D>::compute(&mut c, d, rng);
        ensure_eq!(times.len(), 1, "times reported");
        let mut want = elems(doc);
        if few { want.retain(|e| e % 7 == 1); }
        want.reverse();
        ensure_eq!(empty(a, want.len() + 2), want, "list built from {}", show(doc));
        Ok(())
    })
}

fn unique<D>(g: &mut G, label: &'static str) -> Res
where D: Measured + CompFoldArchive<E, Skiplist<E, ()>, u32, FoldE<Skiplist<E, ()>>, fn(Skiplist<E, ()>, Option<Name>) -> Skiplist<E, ()>, fn(Skiplist<E, ()>, u32) -> Skiplist<E, ()>, Target = Skiplist<E, ()>>
{
    type S = Skiplist<E, ()>;
    fn put(mut a: S, e: &E) -> S { a.put(*e, ()); a }
    fn fin(mut a: S, n: Option<Name>) -> S { if let Some(n) = n { a.archive(n); } a }
    fn pt(a: S, _l: u32) -> S { a }
    let bits = *g.pick(&[32usize, 24, 40]);
    let mut gone: BTreeSet<E> = BTreeSet::new();
    over::<D, _>(g, label, move |g, d, doc, rng| {
        let start = { let mut t: S = Skiplist::emp(bits, name_unit()); t.archive(name_unit()); t };
        let mut c = HFolder::new(nm("fill"), start, put as FoldE<S>, fin as fn(S, Option<Name>) -> S, pt as fn(S, u32) -> S, |a: S| a);
        let s: S = Computor::<(Vec<Duration>, S), D>::compute(&mut c, d, rng).1;
        let v: BTreeSet<E> = elems(doc).into_iter().collect();
        for e in &v { ensure_eq!(s.get(*e), Some(()), "element {} among the unique elements of {}", e, show(doc)); }
        for _ in 0..3 {
            let e = if gone.is_empty() || g.bool() { g.upto(6) as E } else { *g.pick(&gone.iter().cloned().collect::<Vec<_>>()) };
            ensure_eq!(s.get(e).is_some(), v.contains(&e), "element {} among the unique elements of {}", e, show(doc));
        }
        gone.extend(v.iter().take(3));
        gone.extend(v.iter().map(|e| e.wrapping_add(1)).take(3));
        Ok(())
    })
}

/// the last element stored under each of a few keys, some of them removed again
fn table<D>(g: &mut G, label: &'static str) -> Res
where D: Measured + CompFoldArchive<E, Skiplist<E, E>, u32, FoldE<Skiplist<E, E>>, fn(Skiplist<E, E>, Option<Name>) -> Skiplist<E, E>, fn(Skiplist<E, E>, u32) -> Skiplist<E, E>, Target = Skiplist<E, E>>
{
    type S = Skiplist<E, E>;
    fn put(mut a: S, e: &E) -> S {
        // what the map answers while it is filled decides what is stored, too
        match e % 5 { 0 => { a.rem(e / 5 % 9); } 1 => { let old = a.ext(e / 5 % 9, Some(*e)); if let Some(o) = old { a.put(100 + o % 4, o); } } _ => a.put(e / 5 % 9, *e) }
        a
    }
    fn model(m: &mut std::collections::BTreeMap<E, E>, e: E) {
        match e % 5 { 0 => { m.remove(&(e / 5 % 9)); } 1 => { if let Some(o) = m.insert(e / 5 % 9, e) { m.insert(100 + o % 4, o); } } _ => { m.insert(e / 5 % 9, e); } }
    }
    fn fin(mut a: S, n: Option<Name>) -> S { if let Some(n) = n { a.archive(n); } a }
    fn pt(a: S, _l: u32) -> S { a }
    let bits = *g.pick(&[1usize, 2, 3, 5, 8, 16, 32, 40, 60]);
    over::<D, _>(g, label, move |_, d, doc, rng| {
        let start = { let mut t: S = Skiplist::emp(bits, name_unit()); t.archive(name_unit()); t };
        let mut c = HFolder::new(nm("table"), start, put as FoldE<S>, fin as fn(S, Option<Name>) -> S, pt as fn(S, u32) -> S, |a: S| a);
        let s: S = Computor::<(Vec<Duration>, S), D>::compute(&mut c, d, rng).1;
        let mut m = std::collections::BTreeMap::new();
        for e in elems(doc) { model(&mut m, e); }
        for k in (0..9).chain(100..104) { ensure_eq!(s.get(k), m.get(&k).cloned(), "stored under {} by {} ({} bits)", k, show(doc), bits); }
        Ok(())
    })
}

fn by_leaf(v: &Vec<E>, f: fn(&mut Vec<E>)) -> IRazTree<E> {
    let mut c = v.clone();
    f(&mut c);
    IRazTree::from_vec(c).unwrap_or_else(|| IRazTree::empty())
}
fn tree_fold(g: &mut G) -> Res {
    let which = g.upto(3);
    over::<EvalIRaz<E, Mix>, _>(g, ["filter", "reverse", "leaf maxima", "fold with levels"][which], |_, d, doc, rng| {
        let v = elems(doc);
        let joined = |name: &'static str, flip: bool| move |a: IRazTree<E>, l: u32, n: Option<Name>, b: IRazTree<E>| -> IRazTree<E> {
            match (a.is_empty(), b.is_empty()) {
                (true, true) => IRazTree::empty(),
                (false, true) => a,
                (true, false) => b,
                (false, false) => ns(nm(name), || if flip { IRazTree::join(b, l, n, a) } else { IRazTree::join(a, l, n, b) }.unwrap()),
            }
        };
        match which {
            0 => {
                let r = ns(nm("do-filter"), || d.comp_tfoldg(Rc::new(|v: &Vec<E>| by_leaf(v, |c| c.retain(|e| e % 2 == 0))), Rc::new(joined("filter", false)), rng).1);
                let want: Vec<E> = v.iter().cloned().filter(|e| e % 2 == 0).collect();
                ensure_eq!(r.is_none(), v.is_empty(), "a result exists");
                let t = r.unwrap_or_else(|| IRazTree::empty());
                ensure_eq!(t.meta().0, want.len(), "count of what was kept of {}", show(doc));
                ensure_eq!(tree_elems(&t), want, "even elements of {}", show(doc));
            }
            1 => {
                let r = ns(nm("do-reverse"), || d.comp_tfoldg(Rc::new(|v: &Vec<E>| by_leaf(v, |c| c.reverse())), Rc::new(joined("reverse", true)), rng).1);
                let mut want = doc.to_vec();
                want.reverse();
                let t = r.unwrap_or_else(|| IRazTree::empty());
                ensure_eq!(t.meta().0, v.len(), "count of the reversal of {}", show(doc));
                ensure_eq!(elems(&tree_items(&t)), elems(&want), "reversal of {}", show(doc));
                ensure_eq!(bounds(&tree_items(&t)).iter().map(|b| b.0).collect::<Vec<_>>(), bounds(&want).iter().map(|b| b.0).collect::<Vec<_>>(), "levels of the reversal of {}", show(doc));
            }
            2 => {
                let r = ns(nm("do-max"), || d.comp_tfoldg(Rc::new(|v: &Vec<E>| *v.iter().max().unwrap()), Rc::new(|a: E, _l: u32, _n: Option<Name>, b: E| a.max(b)), rng).1);
                ensure_eq!(r, v.iter().cloned().max(), "maximum of {}", show(doc));
            }
            _ => {
                let r = ns(nm("do-nl"), || d.comp_tfoldnl(Rc::new(|e: &E| (*e as u64, 0u64)), Rc::new(|a: (u64, u64), b: (u64, u64)| (a.0 + b.0, a.1 + b.1)),
                    Rc::new(|a: (u64, u64), l: u32, n: Option<Name>, b: (u64, u64)| (a.0 + b.0, a.1 + b.1 + l as u64 * 2 + n.is_some() as u64)), rng).1);
                let want = (v.iter().map(|e| *e as u64).sum(), bounds(doc).iter().map(|b| b.0 as u64 * 2 + b.1.is_some() as u64).sum());
                ensure_eq!(r, if v.is_empty() { None } else { Some(want) }, "sums over {}", show(doc));
            }
        }
        Ok(())
    })
}

thread_local! { static LOG: std::cell::RefCell<Vec<(u8, E)>> = std::cell::RefCell::new(vec![]); }
fn log(k: u8, e: E) { LOG.with(|l| l.borrow_mut().push((k, e))); }
fn logged(k: u8) -> Vec<E> { LOG.with(|l| l.borrow().iter().filter(|x| x.0 == k).map(|x| x.1).collect()) }
fn sorted(mut v: Vec<E>) -> Vec<E> { v.sort(); v }

/// the computors that report only their time still do the computation they are made of: seen by what
/// they call, in a namespace without earlier results
fn timed<D>(g: &mut G, label: &'static str) -> Res
where D: Measured
    + CompMap<E, u64, fn(&E) -> u64>
    + CompTreeFold<E, u32, fn(&E) -> u32, fn(u32, u32) -> u32>
{
    fn f0(e: &E) -> u64 { log(0, *e); *e as u64 }
    fn f1(e: &E) -> u64 { log(1, *e); *e as u64 + 1 }
    fn i2(e: &E) -> u32 { log(2, *e); *e }
    fn b3(a: u32, b: u32) -> u32 { log(3, 0); a.wrapping_add(b) }
    fn s4(a: u32, e: &E) -> u32 { log(4, *e); a.wrapping_mul(31).wrapping_add(*e) }
    fn s5(a: u32, e: &E) -> u32 { log(5, *e); a.wrapping_mul(31).wrapping_add(*e) }
    fn fin(a: u32) -> u32 { log(6, a); a }
    over::<D, _>(g, label, |g, d, doc, rng| {
        let v = elems(doc);
        LOG.with(|l| l.borrow_mut().clear());
        let ran: Vec<bool> = (0..5).map(|_| g.chance(2, 3)).collect();
        fresh_ns(|| {
            let mut t: Vec<Duration> = vec![];
            // two maps side by side: their names keep them apart
            if ran[0] { t.push(Mapper::new(nm("m0"), f0 as fn(&E) -> u64).compute(d, rng)); }
            if ran[1] { t.push(Mapper::new(nm("m1"), f1 as fn(&E) -> u64).compute(d, rng)); }
            if ran[2] { t.push(ns(nm("t"), || TreeFold::new(i2 as fn(&E) -> u32, b3 as fn(u32, u32) -> u32).compute(d, rng))); }
            if ran[3] { t.push(ns(nm("f"), || Folder::new(7, s4 as fn(u32, &E) -> u32).compute(d, rng))); }
            if ran[4] { t.push(ns(nm("ff"), || FFolder::new(7, s5 as fn(u32, &E) -> u32, fin as fn(u32) -> u32).compute(d, rng))); }
        });
        let want = |k: usize| if ran[k] { v.clone() } else { vec![] };
        for k in 0..3 { ensure_eq!(sorted(logged(k as u8)), sorted(want(k)), "elements computed on by computor {} over {}", k, show(doc)); }
        ensure_eq!(logged(3).len(), if ran[2] && v.len() > 0 { v.len() - 1 } else { 0 }, "combinations made by a tree fold over {}", show(doc));
        ensure_eq!(logged(4), want(3), "elements folded over {}", show(doc));
        ensure_eq!(logged(5), want(4), "elements folded over {}", show(doc));
        let all = v.iter().fold(7u32, |a, e| a.wrapping_mul(31).wrapping_add(*e));
        ensure_eq!(logged(6), if ran[4] { vec![all] } else { vec![] }, "what the fold over {} ends with", show(doc));
        Ok(())
    })
}

/// the same for the computors only the sequence with counts, and the plain vector, have
fn timed_more(g: &mut G) -> Res {
    fn i0(e: &E) -> u32 { log(0, *e); *e }
    fn b1(a: u32, b: u32) -> u32 { log(1, 0); a.wrapping_add(b) }
    fn n2(a: u32, l: u32, _n: Option<Name>, b: u32) -> u32 { log(2, l); a.wrapping_add(b) }
    fn v3(v: &Vec<E>) -> u32 { for e in v { log(3, *e); } log(5, v.len() as u32); 1 }
    fn n4(a: u32, l: u32, _n: Option<Name>, b: u32) -> u32 { log(4, l); a.wrapping_add(b) }
    if g.chance(1, 4) {
        g.label("time only: vector");
        let coord = Mix::gen(g);
        let (mut rng, _) = rng_of(g);
        let d: EvalVec<E, Mix> = IncrementalInit { size: g.len(30, 100), datagauge: 1, namegauge: 1, coord }.create(&mut rng).1;
        let v = d.comp_native(Rc::new(|v: &Vec<E>| v.clone()), &mut rng).1;
        LOG.with(|l| l.borrow_mut().clear());
        let _: Duration = Native::new(|v: &Vec<E>| { v3(v) }).compute(&d, &mut rng);
        let _: Duration = Folder::new(0u32, |a: u32, e: &E| { log(6, *e); a }).compute(&d, &mut rng);
        let _: Duration = Mapper::new(nm("m"), |e: &E| { log(7, *e); 0u8 }).compute(&d, &mut rng);
        let _: Duration = FindMax.compute(&d, &mut rng);
        let _: Duration = Reverse.compute(&d, &mut rng);
        for k in [3u8, 6, 7].iter() { ensure_eq!(logged(*k), v, "elements computed on by computor {}", k); }
        ensure_eq!(logged(5), vec![v.len() as u32], "vector given to the native computation");
        return Ok(());
    }
    over::<EvalIRaz<E, Mix>, _>(g, "time only, with levels", |_, d, doc, rng| {
        let v = elems(doc);
        LOG.with(|l| l.borrow_mut().clear());
        fresh_ns(|| {
            let _: Duration = ns(nm("nl"), || TreeFoldNL::new(i0 as fn(&E) -> u32, b1 as fn(u32, u32) -> u32, n2 as fn(u32, u32, Option<Name>, u32) -> u32).compute(d, rng));
            let _: Duration = ns(nm("g"), || TreeFoldG::new(v3 as fn(&Vec<E>) -> u32, n4 as fn(u32, u32, Option<Name>, u32) -> u32).compute(d, rng));
            let _: Duration = ns(nm("max"), || FindMax.compute(d, rng));
        });
        let levels: Vec<u32> = sorted(bounds(doc).iter().map(|b| b.0).collect());
        // (an archive point at either end of the sequence is not part of a tree)
        ensure_eq!(sorted(logged(0)), sorted(v.clone()), "elements folded over {}", show(doc));
        ensure_eq!(sorted(logged(2)), levels, "levels given to the fold over {}", show(doc));
        ensure_eq!(logged(1).len() + levels.len(), v.len().saturating_sub(1), "combinations made by the fold over {}", show(doc));
        ensure_eq!(sorted(logged(3)), sorted(v.clone()), "elements of the subsequences of {}", show(doc));
        ensure_eq!(sorted(logged(4)), levels, "levels given to the fold by subsequence over {}", show(doc));
        ensure_eq!(logged(5).len(), if v.is_empty() { 0 } else { levels.len() + 1 }, "subsequences of {}", show(doc));
        Ok(())
    })
}

/// several computations over one sequence, whose finishing steps make cells of the same names: only
/// the name given to each computation keeps them apart
fn side_by_side<D>(g: &mut G, label: &'static str) -> Res
where D: Measured
    + CompFoldMeta<E, AStack<E, u32>, Ar, FoldE<AStack<E, u32>>, FoldM<AStack<E, u32>>, Target = AStack<E, u32>>
    + CompFoldArchive<E, AStack<E, u32>, u32, FoldE<AStack<E, u32>>, fn(AStack<E, u32>, Option<Name>) -> AStack<E, u32>, fn(AStack<E, u32>, u32) -> AStack<E, u32>, Target = AStack<E, u32>>
{
    type S = AStack<E, u32>;
    fn same(mut a: S, e: &E) -> S { a.push(*e); a }
    fn more(mut a: S, e: &E) -> S { a.push(e.wrapping_add(1000)); a }
    fn twice(mut a: S, e: &E) -> S { a.push(*e); a.push(e.wrapping_mul(3)); a }
    fn fin(mut a: S, n: Option<Name>) -> S { AStack::archive(&mut a, n, 1); a }
    fn pt(a: S, _l: u32) -> S { a }
    fn tree(a: S) -> IRazTree<E> { IRazTree::memo_from(&AtTail(a)) }
    let steps: [(FoldE<S>, fn(E) -> Vec<E>); 3] = [(same, |e| vec![e]), (more, |e| vec![e.wrapping_add(1000)]), (twice, |e| vec![e, e.wrapping_mul(3)])];
    let names = ["first", "second", "third"];
    let many = g.range(2, 3);
    let with: Vec<usize> = (0..many).map(|_| g.upto(2)).collect();
    let kind: Vec<usize> = (0..many).map(|_| g.upto(3)).collect();
    g.note(|| format!("computations {:?} by {:?}", with, kind));
    over::<D, _>(g, label, move |g, d, doc, rng| {
        let mut results: Vec<IRazTree<E>> = vec![];
        for c in 0..many {
            let step = steps[with[c]].0;
            let kept: std::cell::RefCell<Option<IRazTree<E>>> = std::cell::RefCell::new(None);
            let keep = |a: S| { let t = tree(a); *kept.borrow_mut() = Some(t.clone()); t };
            let mut start: S = AStack::new();
            if kind[c] >= 2 { AStack::archive(&mut start, None, 0); }
            let t = match kind[c] {
                0 => Computor::<(Vec<Duration>, IRazTree<E>), D>::compute(&mut MFolder::new(nm(names[c]), start, step, push_meta::<S> as FoldM<S>, tree), d, rng).1,
                1 => { let _: Duration = Computor::<Duration, D>::compute(&mut MFolder::new(nm(names[c]), start, step, push_meta::<S> as FoldM<S>, keep), d, rng); kept.borrow_mut().take().unwrap() }
                2 => Computor::<(Vec<Duration>, IRazTree<E>), D>::compute(&mut HFolder::new(nm(names[c]), start, step, fin as fn(S, Option<Name>) -> S, pt as fn(S, u32) -> S, tree), d, rng).1,
                _ => { let _: Duration = Computor::<Duration, D>::compute(&mut HFolder::new(nm(names[c]), start, step, fin as fn(S, Option<Name>) -> S, pt as fn(S, u32) -> S, keep), d, rng); kept.borrow_mut().take().unwrap() }
            };
            results.push(t);
        }
        let mut order: Vec<usize> = (0..many).collect();
        if g.bool() { order.reverse(); }
        for c in order {
            let want: Vec<E> = elems(doc).into_iter().flat_map(|e| (steps[with[c]].1)(e)).collect();
            ensure_eq!(tree_elems(&results[c]), want, "result of the {} computation over {}", names[c], show(doc));
        }
        Ok(())
    })
}

/// folds, maps and maxima through the suite's computors
fn small<D>(g: &mut G, label: &'static str) -> Res
where D: Measured + CompFold<E, (u32, u32), FoldE<(u32, u32)>, Target = (u32, u32)> + CompTreeFold<E, u64, fn(&E) -> u64, fn(u64, u64) -> u64, Target = Option<u64>>
{
    fn step((a, b): (u32, u32), e: &E) -> (u32, u32) { (a.wrapping_mul(5).wrapping_add(*e), b | 1 << (e % 8)) }
    over::<D, _>(g, label, |g, d, doc, rng| {
        let v = elems(doc);
        let want = v.iter().fold((1, 0), step);
        if g.bool() {
            let r: (Duration, Option<E>) = ns(nm("max"), || Computor::<(Duration, Option<E>), D>::compute(&mut FindMax, d, rng));
            ensure_eq!(r.1, v.iter().cloned().max(), "FindMax over {}", show(doc));
        }
        if g.bool() {
            let mut f = Folder::new((1, 0), step as FoldE<(u32, u32)>);
            let r: (Vec<Duration>, (u32, u32)) = ns(nm("fold"), || Computor::<(Vec<Duration>, (u32, u32)), D>::compute(&mut f, d, rng));
            ensure_eq!(r.1, want, "Folder over {}", show(doc));
            ensure_eq!(r.0.len(), 1, "times reported");
        }
        if g.bool() {
            let mut f = Folder::new((1, 0), step as FoldE<(u32, u32)>);
            let r: (Duration, (u32, u32)) = ns(nm("fold"), || Computor::<(Duration, (u32, u32)), D>::compute(&mut f, d, rng));
            ensure_eq!(r.1, want, "Folder over {}", show(doc));
        }
        if g.bool() {
            let mut f = FFolder::new((1, 0), step as FoldE<(u32, u32)>, |r: (u32, u32)| (r.1, r.0));
            let r: (Vec<Duration>, (u32, u32)) = ns(nm("ffold"), || Computor::<(Vec<Duration>, (u32, u32)), D>::compute(&mut f, d, rng));
            ensure_eq!(r.1, (want.1, want.0), "FFolder over {}", show(doc));
        }
        if g.bool() {
            let r = ns(nm("tfold"), || d.comp_tfold(Rc::new((|e: &E| *e as u64) as fn(&E) -> u64), Rc::new((|a, b| a + b) as fn(u64, u64) -> u64), rng).1);
            ensure_eq!(r, if v.is_empty() { None } else { Some(v.iter().map(|e| *e as u64).sum()) }, "sum of {}", show(doc));
        }
        if g.bool() {
            let got = d.items_of_map_in("map", rng);
            ensure_eq!(got, doc.to_vec(), "map of {}", show(doc));
        }
        Ok(())
    })
}

// ------------------------------------------------------------ the adder

fn adder<S, A>(g: &mut G, label: &'static str) -> Res
where
    S: 'static + IFaceNew + IFaceSeq<u32> + IFaceArchive<Ar> + Clone + Eq + std::hash::Hash + std::fmt::Debug,
    A: 'static + Two<S>,
{
    g.label(label);
    pick_mode(g);
    let mut coord = Mix::gen(g);
    coord.dom = 0;
    let (mut rng, _) = rng_of(g);
    let (dg, ng) = gauges(g);
    let size = g.len(40, 200);
    let name_to_tree = nm("to_tree");
    g.note(|| format!("{}: init {} coord {:?}, datagauge {}, namegauge {}", label, size, coord, dg, ng));
    let mut d: EvalIRaz<Ch, Mix> = IncrementalInit { size, datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng).1;
    let rounds = g.range(1, 6);
    for k in 0..rounds {
        let chars: Vec<Ch> = fresh_ns(|| d.comp_fold(vec![], Rc::new(|mut v: Vec<Ch>, c: &Ch| { v.push(*c); v }), &mut rng).1);
        let points = fresh_ns(|| d.comp_fold_meta(0usize, Rc::new(|a: usize, _: &Ch| a), Rc::new(|a: usize, _: (u32, Option<Name>)| a + 1), &mut rng).1);
        g.note(|| format!("run {} over {}", k, chars.iter().map(|c| c.0).collect::<String>()));
        let toks = ref_tokens(&chars);
        let (got_t, mut got): (Option<Vec<Token>>, Vec<u32>) = A::run(&d, dg, ng, &coord, &name_to_tree, &mut rng);
        if let Some(t) = got_t { ensure_eq!(t, toks, "tokens of {:?}", chars.iter().map(|c| c.0).collect::<String>()); }
        got.reverse();
        ensure_eq!(got, ref_parse(&toks), "numbers computed from {:?}", chars.iter().map(|c| c.0).collect::<String>());
        if points >= 2 && k > 0 { g.nontrivial(); }
        if k + 1 < rounds { d = edit(g, d, !chars.is_empty(), &mut rng); }
    }
    Ok(())
}
/// how the first stage hands its tokens to the second
pub trait Two<S> {
    fn run(d: &EvalIRaz<Ch, Mix>, dg: usize, ng: usize, coord: &Mix, to_tree: &Name, rng: &mut StdRng) -> (Option<Vec<Token>>, Vec<u32>);
}
/// through an archive stack, converted to a sequence (as the example does)
pub struct ByStack;
/// through a sequence editor
pub struct ByRaz;
macro_rules! two { ($t:ident, $acc:ty, $wrap:expr, $peek:expr) => {
    impl<S> Two<S> for $t
    where S: 'static + IFaceNew + IFaceSeq<u32> + IFaceArchive<Ar> + Clone + Eq + std::hash::Hash + std::fmt::Debug
    {
        fn run(d: &EvalIRaz<Ch, Mix>, dg: usize, ng: usize, coord: &Mix, to_tree: &Name, rng: &mut StdRng) -> (Option<Vec<Token>>, Vec<u32>) {
            let toks: std::cell::RefCell<Option<Vec<Token>>> = std::cell::RefCell::new(None);
            let s: S = {
                let mut rng2 = rng.clone();
                let mut c = Compute2::<_, _, EvalIRaz<Ch, Mix>, EvalIRaz<Token, Mix>, S>::new(
                    MFolder::new(nm("tokenize"), (<$acc as IFaceNew>::new(), None), tok_step::<$acc>, tok_meta::<$acc>,
                        |a| {
                            let ts = tok_final(a);
                            let e: EvalIRaz<Token, Mix> = ns(to_tree.clone(), || IncrementalFrom { data: $wrap(ts), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng.clone()).1);
                            *toks.borrow_mut() = $peek(&e);
                            e
                        }),
                    MFolder::new(nm("parse"), S::new(), parse_step::<S>, push_meta::<S>, |a: S| a));
                Computor::<(Vec<Duration>, S), EvalIRaz<Ch, Mix>>::compute(&mut c, d, &mut rng2).1
            };
            let t = toks.borrow_mut().take();
            (t, empty(s, 100_000))
        }
    }
} }
fn peek(e: &EvalIRaz<Token, Mix>) -> Option<Vec<Token>> {
    Some(fresh_ns(|| e.comp_fold(vec![], Rc::new(|mut v: Vec<Token>, k: &Token| { v.push(*k); v }), &mut rng0()).1))
}
fn rng0() -> StdRng { rand::SeedableRng::from_seed(&[0usize][..]) }
two!(ByStack, AStack<Token, u32>, AtTail, peek);
two!(ByRaz, IRaz<Token>, |r: IRaz<Token>| r, peek);

pub fn p23(g: &mut G) -> Res {
    type C = EvalIRaz<E, Mix>;
    type N = EvalRazNameIndex<E, Mix>;
    match g.weighted(&[5, 6, 4, 3, 4, 3, 2, 1]) {
        0 => match g.upto(8) {
            0 => to_list::<C, List<E>>(g, "to list"),
            1 => to_list::<C, RcList<E>>(g, "to shared list"),
            2 => to_list::<C, VecList<E>>(g, "to list of vectors"),
            3 => to_list::<C, RcVecList<E>>(g, "to shared list of vectors"),
            4 => to_list::<C, IRaz<E>>(g, "to sequence editor"),
            5 => to_list::<C, AStack<E, u32>>(g, "to archive stack"),
            6 => to_list::<C, AStack<E, ()>>(g, "to archive stack without metadata"),
            7 => to_list::<C, Vec<E>>(g, "to vector"),
            _ => to_list::<N, AStack<E, u32>>(g, "by name to archive stack"),
        },
        1 => match g.upto(7) {
            0 => adder::<AStack<u32, u32>, ByStack>(g, "adder: stack, stack"),
            1 => adder::<IRaz<u32>, ByStack>(g, "adder: stack, editor"),
            2 => adder::<List<u32>, ByStack>(g, "adder: stack, list"),
            3 => adder::<VecList<u32>, ByStack>(g, "adder: stack, list of vectors"),
            4 => adder::<RcList<u32>, ByStack>(g, "adder: stack, shared list"),
            5 => adder::<RcVecList<u32>, ByStack>(g, "adder: stack, shared list of vectors"),
            6 => adder::<Vec<u32>, ByStack>(g, "adder: stack, vector"),
            _ => adder::<AStack<u32, u32>, ByRaz>(g, "adder: editor, stack"),
        },
        2 => tree_fold(g),
        3 => match g.upto(4) {
            0 => unique::<C>(g, "unique elements"),
            1 => unique::<N>(g, "unique elements by name"),
            2 | 3 => table::<C>(g, "table"),
            _ => table::<N>(g, "table by name"),
        },
        4 => if g.chance(2, 3) { small::<C>(g, "computors") } else { small::<N>(g, "computors by name") },
        5 => if g.bool() { side_by_side::<C>(g, "side by side") } else { side_by_side::<N>(g, "side by side by name") },
        6 => match g.upto(2) { 0 => timed::<C>(g, "time only"), 1 => timed::<N>(g, "time only, by name"), _ => timed_more(g) },
        _ => plain(g),
    }
}

/// the same pipelines over the plain vector
fn plain(g: &mut G) -> Res {
    g.label("plain vector");
    let coord = Mix::gen(g);
    let (mut rng, _) = rng_of(g);
    let mut d: EvalVec<Ch, Mix> = IncrementalInit { size: g.len(30, 100), datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut rng).1;
    for _ in 0..g.range(1, 4) {
        let v = d.comp_native(Rc::new(|v: &Vec<Ch>| v.clone()), &mut rng).1;
        g.note(|| v.iter().map(|c| c.0).collect::<String>());
        let mut c = Compute2::<_, _, EvalVec<Ch, Mix>, EvalVec<Token, Mix>, Vec<u32>>::new(
            MFolder::<_, _, Ar, _, _, _, _, _>::new(nm("tokenize"), (<Vec<Token> as IFaceNew>::new(), None), tok_step::<Vec<Token>>, tok_meta::<Vec<Token>>,
                |a| IncrementalFrom { data: tok_final(a), datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut rng0()).1),
            MFolder::<_, _, Ar, _, _, _, _, _>::new(nm("parse"), <Vec<u32> as IFaceNew>::new(), parse_step::<Vec<u32>>, push_meta::<Vec<u32>>, |a| a));
        let got: Vec<u32> = Computor::<(Vec<Duration>, Vec<u32>), EvalVec<Ch, Mix>>::compute(&mut c, &d, &mut rng).1;
        ensure_eq!(got, ref_parse(&ref_tokens(&v)), "numbers computed from {:?}", v);
        d = edit(g, d, !v.is_empty(), &mut rng);
    }
    Ok(())
}
