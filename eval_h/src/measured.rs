//! P22: the measured inputs of the evaluation suite, and its test drivers.
use crate::model::*;
use adapton::engine::*;
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::primitives::*;
use eval::test_build::BuildTest;
use eval::test_seq::{EditComputeSequence, TestMResult, TestResult};
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, Names};
use pbt::{ensure, ensure_eq, Res, G};
use rand::{Rng, SeedableRng, StdRng};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use time::Duration;

/// Source of data and edit places: a small cloneable generator, sometimes over a tiny domain
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mix { pub s: u64, pub dom: u32 }
impl Mix {
    pub fn gen(g: &mut G) -> Mix {
        let s = g.u64();
        let dom = if g.chance(1, 4) { g.range(1, 4) as u32 } else { 0 };
        Mix { s, dom }
    }
}
impl Mix {
    fn gen_iter_of(mut self, n: usize) -> Vec<It> { self.gen_iter::<E>().take(n).map(El).collect() }
}
impl Rng for Mix {
    fn next_u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn next_u32(&mut self) -> u32 {
        let v = (self.next_u64() >> 32) as u32;
        if self.dom > 0 { v % self.dom } else { v }
    }
}

pub fn rng_of(g: &mut G) -> (StdRng, StdRng) {
    let s = [g.upto(1000)];
    (StdRng::from_seed(&s), StdRng::from_seed(&s))
}

pub type FoldE<A> = fn(A, &E) -> A;
pub type FoldM<A> = fn(A, (u32, Option<Name>)) -> A;

fn item_e(mut a: Vec<It>, e: &E) -> Vec<It> { a.push(El(*e)); a }
fn item_m(mut a: Vec<It>, (l, n): (u32, Option<Name>)) -> Vec<It> { a.push(Bd(l, n)); a }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev { Elm(E), Fin(Option<Name>), Pt(u32) }
fn ev_e(mut a: Vec<Ev>, e: &E) -> Vec<Ev> { a.push(Ev::Elm(*e)); a }
fn ev_f(mut a: Vec<Ev>, n: Option<Name>) -> Vec<Ev> { a.push(Ev::Fin(n)); a }
fn ev_p(mut a: Vec<Ev>, l: u32) -> Vec<Ev> { a.push(Ev::Pt(l)); a }
fn mixin(a: u32, e: &E) -> u32 { a.wrapping_mul(31).wrapping_add(*e) }
fn one(e: &E) -> Vec<E> { vec![*e] }
fn cat(mut a: Vec<E>, b: Vec<E>) -> Vec<E> { a.extend(b); a }
fn fmap(e: &E) -> u64 { *e as u64 * 2 + 1 }

/// What the two incremental measured sequences have in common
pub trait Measured: Clone + CreateEmpty<Mix> + CreateInc<Mix> + EditAppend + EditInsert
    + CreateFrom<RazTree<E, <Self as Measured>::M>, Mix> + CreateFrom<Raz<E, <Self as Measured>::M>, Mix> + CreateFrom<AtTail<E, u32>, Mix>
    + CompMax<Target = Option<E>>
    + CompFold<E, u32, FoldE<u32>, Target = u32>
    + CompFoldMeta<E, Vec<It>, (u32, Option<Name>), FoldE<Vec<It>>, FoldM<Vec<It>>, Target = Vec<It>>
    + CompFoldArchive<E, Vec<Ev>, u32, FoldE<Vec<Ev>>, fn(Vec<Ev>, Option<Name>) -> Vec<Ev>, fn(Vec<Ev>, u32) -> Vec<Ev>, Target = Vec<Ev>>
    + CompTreeFold<E, Vec<E>, fn(&E) -> Vec<E>, fn(Vec<E>, Vec<E>) -> Vec<E>, Target = Option<Vec<E>>>
{
    type M: GenMeta;
    const BY_NAME: bool;
    fn items_of_map_in(&self, name: &str, rng: &mut StdRng) -> Vec<It>;
    /// computations only the by-count kind offers
    fn more(&self, d: &[It], rng: &mut StdRng) -> Res;
}
fn it64<M: iodyn::raz_meta::RazMeta<u64> + 'static>(t: RazTree<u64, M>) -> Vec<It> {
    fresh_ns(|| t.fold_lr_meta(
        vec![],
        Rc::new(|mut a: Vec<It>, e: &u64| { a.push(El(((*e - 1) / 2) as u32)); a }),
        Rc::new(|mut a: Vec<It>, (l, n)| { a.push(Bd(l, n)); a }),
    ))
}
impl Measured for EvalIRaz<E, Mix> {
    type M = Count;
    const BY_NAME: bool = false;
    fn items_of_map_in(&self, name: &str, rng: &mut StdRng) -> Vec<It> {
        it64(ns(name_of_string(name.to_string()), || CompMap::<E, u64, fn(&E) -> u64>::comp_map(self, Rc::new(fmap), rng).1))
    }
    fn more(&self, d: &[It], rng: &mut StdRng) -> Res {
        let r = fresh_ns(|| self.comp_tfoldnl(
            Rc::new(|e: &E| vec![El(*e)]),
            Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
            Rc::new(|mut a: Vec<It>, l, n, b: Vec<It>| { a.push(Bd(l, n)); a.extend(b); a }), rng).1);
        ensure_eq!(r.unwrap_or_default(), d.to_vec(), "comp_tfoldnl");
        let r = fresh_ns(|| self.comp_tfoldg(
            Rc::new(|v: &Vec<E>| vec![v.clone()]),
            Rc::new(|mut a: Vec<Vec<E>>, _l: u32, _n: Option<Name>, b: Vec<Vec<E>>| { a.extend(b); a }), rng).1);
        ensure_eq!(r.unwrap_or_default(), chunks(d), "comp_tfoldg");
        Ok(())
    }
}
impl Measured for EvalRazNameIndex<E, Mix> {
    type M = Names;
    const BY_NAME: bool = true;
    fn items_of_map_in(&self, name: &str, rng: &mut StdRng) -> Vec<It> {
        it64(ns(name_of_string(name.to_string()), || CompMap::<E, u64, fn(&E) -> u64>::comp_map(self, Rc::new(fmap), rng).1))
    }
    fn more(&self, _d: &[It], _rng: &mut StdRng) -> Res { Ok(()) }
}

pub fn items<D: Measured>(d: &D) -> Vec<It> {
    let mut rng = StdRng::from_seed(&[0]);
    fresh_ns(|| d.comp_fold_meta(vec![], Rc::new(item_e as FoldE<Vec<It>>), Rc::new(item_m as FoldM<Vec<It>>), &mut rng).1)
}

/// the expected sequence: new archive points are written as level 0, named "?" if they have a name
fn tag(named: bool) -> Option<Name> { if named { Some(name_of_string("?".to_string())) } else { None } }
fn fits(got: &[It], want: &[It], used: &[Name]) -> Result<(), String> {
    ensure_eq!(got.len(), want.len(), "items in {} (expected {})", show(got), show(want));
    let mut news: Vec<Name> = vec![];
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        match (a, b) {
            (Bd(l, n), Bd(0, t)) => {
                ensure!(*l >= 1 && *l <= 64, "level {} of the new archive point at item {} of {}", l, i, show(got));
                ensure!(n.is_some() == t.is_some(), "the new archive point at item {} of {} should {}have a name", i, show(got), if t.is_some() { "" } else { "not " });
                if let Some(n) = n {
                    ensure!(!used.contains(n) && !news.contains(n), "name {:?} is used twice in {}", n, show(got));
                    news.push(n.clone());
                }
            }
            _ => ensure!(a == b, "item {} of {} (expected {})", i, show(got), show(want)),
        }
    }
    Ok(())
}
fn names_in(d: &[It]) -> Vec<Name> { bounds(d).into_iter().filter_map(|b| b.1).collect() }

/// insertion of `block` at the cursor, with archive points by the edit gauges
fn inserted(d: &[It], pos: usize, block: &[E], mut counter: usize, dg: usize, ng: usize) -> Vec<Vec<It>> {
    let mut s = Sess::at(d, pos);
    for e in block {
        s.push_left(*e);
        counter += 1;
        if counter % (dg * ng) == 0 { s.archive_left(0, tag(true)); } else if counter % dg == 0 { s.archive_left(0, None); }
    }
    s.docs()
}

fn check_comps<D: Measured>(g: &mut G, d: &D, doc: &[It], rng: &mut StdRng) -> Res {
    let v = elems(doc);
    match g.upto(6) {
        0 => ensure_eq!(fresh_ns(|| d.comp_max(rng).1), v.iter().cloned().max(), "comp_max of {}", show(doc)),
        1 => ensure_eq!(fresh_ns(|| d.comp_fold(7, Rc::new(mixin as FoldE<u32>), rng).1), v.iter().fold(7, mixin), "comp_fold of {}", show(doc)),
        2 => {
            let got = fresh_ns(|| d.comp_fold_archive(vec![], Rc::new(ev_e as FoldE<Vec<Ev>>), Rc::new(ev_f as fn(Vec<Ev>, Option<Name>) -> Vec<Ev>), Rc::new(ev_p as fn(Vec<Ev>, u32) -> Vec<Ev>), rng).1);
            // each subsequence's elements, then the name of the archive point before it, then the level of the one after it
            let mut want = vec![];
            let mut last = Some(name_of_string("start".to_string()));
            if !doc.is_empty() {
                for i in doc { match i { El(e) => want.push(Ev::Elm(*e)), Bd(l, n) => { want.push(Ev::Fin(last)); want.push(Ev::Pt(*l)); last = n.clone(); } } }
                want.push(Ev::Fin(last));
            }
            ensure_eq!(got, want, "comp_fold_archive of {}", show(doc));
        }
        3 => {
            let got = fresh_ns(|| d.comp_tfold(Rc::new(one as fn(&E) -> Vec<E>), Rc::new(cat as fn(Vec<E>, Vec<E>) -> Vec<E>), rng).1);
            ensure_eq!(got, if v.is_empty() { None } else { Some(v) }, "comp_tfold of {}", show(doc));
        }
        4 => ensure_eq!(fresh_ns(|| d.items_of_map_in("map", rng)), doc.to_vec(), "comp_map of {}", show(doc)),
        5 => d.more(doc, rng)?,
        _ => {}
    }
    Ok(())
}

pub fn gauges(g: &mut G) -> (usize, usize) {
    let dg = if g.chance(1, 20) { *g.pick(&[1000, 64, 600, 1500]) } else { g.range(1, 5) };
    let ng = if g.chance(1, 20) { 50 } else { g.range(1, 4) };
    (dg, ng)
}
/// the content of a sequence built with given gauges
pub fn built(v: &[E], dg: usize, ng: usize) -> Vec<It> {
    let mut s = Sess::new();
    for (i, e) in v.iter().enumerate() {
        s.push_left(*e);
        if (i + 1) % dg == 0 { s.archive_left(0, tag((i + 1) % (dg * ng) == 0)); }
    }
    s.docs().pop().unwrap()
}

/// The new elements are a run of what the generator yields after what was used so far. The place of an
/// insertion is drawn from the same generator, before or after, so `drawn` holds every count of used draws
/// that explains what was seen.
fn fresh(coord: &Mix, drawn: &mut Vec<usize>, old: &[It], new: &[It], batch: usize) -> Res {
    let count = |d: &[It]| { let mut m = std::collections::HashMap::new(); for e in elems(d) { *m.entry(e).or_insert(0isize) += 1; } m };
    let mut diff = count(new);
    for (e, n) in count(old) { *diff.entry(e).or_insert(0) -= n; }
    diff.retain(|_, n| *n != 0);
    let mut starts: Vec<usize> = drawn.iter().flat_map(|d| (0..5).map(move |k| d + k)).collect();
    starts.sort();
    starts.dedup();
    starts.retain(|s| {
        if batch == 0 { return diff.is_empty(); }
        // the generator's state after `s` draws
        let c = Mix { s: coord.s.wrapping_add(0x9E37_79B9_7F4A_7C15u64.wrapping_mul(*s as u64)), dom: coord.dom };
        let run: Vec<It> = c.gen_iter_of(batch);
        count(&run) == diff
    });
    ensure!(!starts.is_empty(), "the elements added ({:?}, with how often) are not a run of the generator's next ones", diff);
    *drawn = starts.into_iter().map(|s| s + batch).collect();
    Ok(())
}

fn within<T, F: FnOnce() -> T>(own: bool, f: F) -> T { if own { ns(name_of_string("to_tree".to_string()), f) } else { f() } }

fn measured<D: Measured>(g: &mut G, label: &'static str) -> Res {
    g.label(label);
    let mode = pick_mode(g);
    let coord = Mix::gen(g);
    let (mut rng, mut rng2) = rng_of(g);
    let (dg, ng) = gauges(g);
    g.note(|| format!("{} coord {:?}, datagauge {}, namegauge {}", label, coord, dg, ng));
    // a second one is driven by the same generators, to see that nothing else matters
    let twin = g.chance(1, 4);
    let mut vec: Option<EvalVec<E, Mix>> = None;
    let (mut d, mut d2): (D, Option<D>);
    let mut own = false;
    let doc: Vec<It>;
    // how much of the generator's output was used
    let mut drawn = vec![0];
    match g.weighted(&[6, 1, 3]) {
        0 => {
            let size = if coord.dom == 0 && g.chance(1, 1000) { if mode == Mode::Naive { g.range(2000, 12_000) } else { g.range(500, 1200) } } else if dg > 5 && g.chance(1, 10) { dg * g.range(1, 3) + g.upto(2) } else { g.len(30, 300) };
            g.note(|| format!("inc_init {}", size));
            d = D::inc_init(size, dg, ng, &coord, &mut rng).1;
            d2 = if twin { Some(fresh_ns(|| D::inc_init(size, dg, ng, &coord, &mut rng2).1)) } else { None };
            doc = items(&d);
            let v: Vec<E> = coord.clone().gen_iter().take(size).collect();
            drawn = vec![size];
            fits(&doc, &built(&v, dg, ng), &[])?;
            let plain = <EvalVec<E, Mix> as CreateInc<Mix>>::inc_init(size, dg, ng, &coord, &mut StdRng::from_seed(&[1])).1;
            ensure_eq!(plain.comp_native(Rc::new(|v: &Vec<E>| v.clone()), &mut rng2).1, v, "EvalVec::inc_init");
            vec = Some(plain);
            g.label("inc_init");
        }
        1 => {
            d = D::inc_empty(dg, ng, &coord, &mut rng).1;
            d2 = if twin { Some(fresh_ns(|| D::inc_empty(dg, ng, &coord, &mut rng2).1)) } else { None };
            doc = vec![];
            g.note(|| "inc_empty".to_string());
            vec = Some(<EvalVec<E, Mix> as CreateEmpty<Mix>>::inc_empty(dg, ng, &coord, &mut rng2).1);
            g.label("inc_empty");
        }
        _ => {
            // given data, with names of its own
            let mut es = Elems::gen(g);
            let how = gen_naming(g);
            let mut model: Vec<It> = vec![];
            let mut st: AStack<E, u32> = AStack::new();
            let mut rz: Raz<E, D::M> = Raz::new();
            let k = if g.chance(1, 30) { g.range(10, 150) } else { g.upto(6) };
            let kind = g.upto(2);
            for c in 0..k {
                for _ in 0..g.range(1, 4) {
                    let e = es.next(g);
                    if kind == 2 { st.push(e); } else { rz.push_left(e); }
                    model.push(El(e));
                }
                if c + 1 < k {
                    let l = gen_level(g);
                    let n = match how { Naming::None => None, Naming::Some if g.bool() => None, _ => Some(name_of_string(format!("d{}", c))) };
                    model.push(Bd(l, n.as_ref().map(tname)));
                    // one or the other: a name identifies one thing
                    if kind == 2 { st.archive(n, l); } else { rz.archive_left(l, n); }
                }
            }
            g.note(|| format!("inc_from {}", show(&model)));
            d2 = None;
            d = match kind {
                0 => D::inc_from(rz, dg, ng, &coord, &mut rng).1,
                1 => D::inc_from(rz.unfocus(), dg, ng, &coord, &mut rng).1,
                _ => {
                    // the stack's names are used again, so the sequence lives in a namespace of its own
                    own = true;
                    ns(name_of_string("to_tree".to_string()), || D::inc_from(AtTail(st), dg, ng, &coord, &mut rng).1)
                }
            };
            doc = items(&d);
            ensure_eq!(elems(&doc), elems(&model), "elements after inc_from");
            ensure_eq!(bounds(&doc).iter().map(|b| (b.0, b.1.is_some())).collect::<Vec<_>>(), bounds(&model).iter().map(|b| (b.0, b.1.is_some())).collect::<Vec<_>>(), "archive points after inc_from");
            g.label("inc_from");
        }
    }
    let mut doc = doc;
    let mut counter = 0;
    let mut edits = 0;
    check_comps(g, &d, &doc, &mut rng2)?;
    for _ in 0..g.upto(6) {
        let batch = if coord.dom == 0 && g.chance(1, 300) { if mode == Mode::Naive { g.range(200, 3000) } else { g.range(100, 700) } } else { g.len(8, 60) };
        let names = names_in(&doc);
        let can_insert = if D::BY_NAME { !names.is_empty() } else { !elems(&doc).is_empty() };
        let old = (d.clone(), doc.clone());
        if can_insert && g.bool() {
            g.note(|| format!("insert {} into {}", batch, show(&doc)));
            d = within(own, || d.insert(batch, &mut rng).1);
            if let Some(t) = d2.take() { d2 = Some(fresh_ns(|| t.insert(batch, &mut rng2).1)); }
            let got = items(&d);
            // some place explains the result
            let mut why = String::new();
            let mut ok = false;
            // (not where the elements before and after it would not be those of the old sequence)
            let (ov, gv) = (elems(&doc), elems(&got));
            let first = ov.len() - ov.iter().rev().zip(gv.iter().rev()).take_while(|(a, b)| a == b).count();
            let last = ov.iter().zip(&gv).take_while(|(a, b)| a == b).count();
            let mut i = 0;
            for p in 0..doc.len() + 1 {
                if p > 0 { if let El(_) = doc[p - 1] { i += 1; } }
                if i < first || i > last { continue; }
                if D::BY_NAME && !matches!(doc.get(p), Some(Bd(_, Some(_)))) { continue; }
                if gv.len() < i + batch { continue; }
                for want in inserted(&doc, p, &gv[i..i + batch], counter, dg, ng) {
                    match fits(&got, &want, &names) { Ok(()) => { ok = true; break; } Err(e) => why = e }
                }
                if ok { break; }
            }
            ensure!(ok, "inserting {} elements into {} gave {}: no place in it explains that (last tried: {})", batch, show(&doc), show(&got), why);
            fresh(&coord, &mut drawn, &doc, &got, batch)?;
            counter += batch;
            doc = got;
            vec = None;
        } else {
            g.note(|| format!("append {} to {}", batch, show(&doc)));
            d = within(own, || d.append(batch, &mut rng).1);
            if let Some(t) = d2.take() { d2 = Some(fresh_ns(|| t.append(batch, &mut rng2).1)); }
            let got = items(&d);
            let gv = elems(&got);
            ensure_eq!(gv.len(), elems(&doc).len() + batch, "length after appending {}", batch);
            let block = gv[elems(&doc).len()..].to_vec();
            fits(&got, &inserted(&doc, doc.len(), &block, counter, dg, ng)[0], &names)?;
            fresh(&coord, &mut drawn, &doc, &got, batch)?;
            counter += batch;
            doc = got;
            if let Some(v) = vec.take() {
                let v = v.append(batch, &mut rng2).1;
                ensure_eq!(v.comp_native(Rc::new(|v: &Vec<E>| v.clone()), &mut rng2).1, gv, "EvalVec given the same data");
                vec = Some(v);
            }
        }
        if mode == Mode::Naive && g.chance(1, 4) {
            ensure_eq!(items(&old.0), old.1, "a copy kept from before the edit");
        }
        edits += 1;
        if let Some(t) = &d2 { ensure_eq!(items(t), doc, "same generators, same history"); }
        check_comps(g, &d, &doc, &mut StdRng::from_seed(&[2]))?;
    }
    if edits >= 2 && bounds(&doc).len() >= 1 { g.nontrivial(); }
    Ok(())
}

/// the plain vector
fn plain(g: &mut G) -> Res {
    g.label("EvalVec");
    let coord = Mix::gen(g);
    let (mut rng, _) = rng_of(g);
    let (dg, ng) = gauges(g);
    type V = EvalVec<E, Mix>;
    let native = |v: &V| v.comp_native(Rc::new(|v: &Vec<E>| v.clone()), &mut StdRng::from_seed(&[3])).1;
    let mut model: Vec<E>;
    let mut d: V = match g.upto(2) {
        0 => {
            let size = g.len(30, 300);
            model = coord.clone().gen_iter().take(size).collect();
            V::inc_init(size, dg, ng, &coord, &mut rng).1
        }
        1 => { model = vec![]; V::inc_empty(dg, ng, &coord, &mut rng).1 }
        _ => {
            let mut es = Elems::gen(g);
            model = (0..g.upto(20)).map(|_| es.next(g)).collect();
            V::inc_from(model.clone(), dg, ng, &coord, &mut rng).1
        }
    };
    g.note(|| format!("EvalVec coord {:?} {:?}", coord, model));
    ensure_eq!(native(&d), model, "initial content");
    let mut edits = 0;
    for _ in 0..g.upto(6) {
        let batch = if g.chance(1, 100) { g.range(500, 2000) } else { g.len(8, 60) };
        let k = g.upto(2);
        if k == 2 && model.is_empty() { continue; }
        let name = ["append", "extend", "insert"][k];
        g.note(|| format!("{} {}", name, batch));
        d = match k { 0 => d.append(batch, &mut rng).1, 1 => d.extend(batch, &mut rng).1, _ => d.insert(batch, &mut rng).1 };
        let got = native(&d);
        ensure_eq!(got.len(), model.len() + batch, "length after {} {}", name, batch);
        if k < 2 { ensure_eq!(got[..model.len()].to_vec(), model, "old content after {} {}", name, batch); }
        else {
            let ok = (0..model.len() + 1).any(|i| got[..i] == model[..i] && got[i + batch..] == model[i..]);
            ensure!(ok, "inserting {} elements into {:?} gave {:?}", batch, model, got);
        }
        model = got;
        edits += 1;
        match g.upto(4) {
            0 => ensure_eq!(d.comp_max(&mut rng).1, model.iter().cloned().max(), "comp_max"),
            1 => ensure_eq!(d.comp_rev(&mut rng).1, model.iter().rev().cloned().collect::<Vec<_>>(), "comp_rev"),
            2 => ensure_eq!(CompMap::<E, u64, _>::comp_map(&d, Rc::new(fmap), &mut rng).1, model.iter().map(fmap).collect::<Vec<_>>(), "comp_map"),
            3 => ensure_eq!(CompFold::<E, u32, _>::comp_fold(&d, 7, Rc::new(mixin), &mut rng).1, model.iter().fold(7, mixin), "comp_fold"),
            _ => ensure_eq!(d.comp_fold_meta(7, Rc::new(mixin), Rc::new(|a: u32, _: ()| a + 1), &mut rng).1, model.iter().fold(7, mixin), "comp_fold_meta"),
        }
    }
    if edits >= 2 { g.nontrivial(); }
    Ok(())
}

// ------------------------------------------------------------ drivers

thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }

/// stand-in data: counts what was done to it
#[derive(Clone, Debug)]
struct Fake { id: usize }
thread_local! { static DUR: Cell<(u64, i64)> = Cell::new((0, 1)); }
/// an arbitrary duration for every number: the stand-ins report what the case picked, zero included
fn dur(n: usize) -> Duration {
    let (seed, span) = DUR.with(|d| d.get());
    if seed == 0 { return Duration::nanoseconds(n as i64); }
    let mut z = seed.wrapping_add((n as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    Duration::nanoseconds(((z >> 1) as i64 % span).abs())
}

struct C(usize);
impl Creator<Duration, Fake> for C {
    fn create(&mut self, _: &mut StdRng) -> (Duration, Fake) { log("create".into()); (dur(self.0), Fake { id: 0 }) }
}
struct Ed(usize);
impl Editor<Duration, Fake> for Ed {
    fn edit(&mut self, d: Fake, _: &mut StdRng) -> (Duration, Fake) {
        log(format!("edit {}", d.id));
        (dur(self.0 + d.id + 1), Fake { id: d.id + 1 })
    }
}
struct U(usize);
impl Computor<Duration, Fake> for U {
    fn compute(&mut self, d: &Fake, _: &mut StdRng) -> Duration { log(format!("compute {}", d.id)); dur(self.0 + d.id) }
}
struct U2(usize);
impl Computor<(Vec<Duration>, String), Fake> for U2 {
    fn compute(&mut self, d: &Fake, _: &mut StdRng) -> (Vec<Duration>, String) { log(format!("compute {}", d.id)); (vec![dur(self.0 + d.id), dur(1)], "x".into()) }
}
struct U3(usize);
impl Computor<(Vec<Duration>, usize), String> for U3 {
    fn compute(&mut self, d: &String, _: &mut StdRng) -> (Vec<Duration>, usize) { log(format!("second {}", d)); (vec![dur(self.0)], d.len()) }
}

thread_local! { static MADE: RefCell<Vec<(usize, usize, usize, u64)>> = RefCell::new(vec![]); }
/// stand-in sequence: records the sizes it is asked for
#[derive(Debug)]
struct Rcd;
fn rcd(what: &str, n: usize) -> (Duration, Rcd) { log(format!("{} {}", what, n)); (dur(1000 + n), Rcd) }
impl EditInsert for Rcd { fn insert(self, n: usize, _: &mut StdRng) -> (Duration, Rcd) { rcd("insert", n) } }
impl EditAppend for Rcd { fn append(self, n: usize, _: &mut StdRng) -> (Duration, Rcd) { rcd("append", n) } }
impl EditExtend for Rcd { fn extend(self, n: usize, _: &mut StdRng) -> (Duration, Rcd) { rcd("extend", n) } }
impl CreateInc<Mix> for Rcd {
    fn inc_init(size: usize, dg: usize, ng: usize, c: &Mix, _: &mut StdRng) -> (Duration, Rcd) {
        MADE.with(|m| m.borrow_mut().push((size, dg, ng, c.s)));
        rcd("init", size)
    }
}
impl CreateEmpty<Mix> for Rcd {
    fn inc_empty(dg: usize, ng: usize, c: &Mix, _: &mut StdRng) -> (Duration, Rcd) { MADE.with(|m| m.borrow_mut().push((0, dg, ng, c.s))); rcd("empty", 0) }
}
impl CreateFrom<usize, Mix> for Rcd {
    fn inc_from(data: usize, dg: usize, ng: usize, c: &Mix, _: &mut StdRng) -> (Duration, Rcd) { MADE.with(|m| m.borrow_mut().push((data, dg, ng, c.s))); rcd("from", data) }
}

/// stand-in data for the computations: each one answers over `v` and reports the number of its kind
#[derive(Clone, Debug)]
struct Kit { v: Vec<E>, t: usize }
impl Kit { fn said<T>(&self, k: usize, what: &str, r: T) -> (Duration, T) { log(what.to_string()); (dur(self.t + k), r) } }
impl CompMax for Kit { type Target = E; fn comp_max(&self, _: &mut StdRng) -> (Duration, E) { self.said(1, "max", self.v.iter().cloned().max().unwrap_or(0)) } }
impl CompRev for Kit { type Target = Vec<E>; fn comp_rev(&self, _: &mut StdRng) -> (Duration, Vec<E>) { self.said(2, "rev", self.v.iter().rev().cloned().collect()) } }
impl<O> CompNative<O> for Kit {
    type Input = Vec<E>;
    fn comp_native<F: Fn(&Vec<E>) -> O>(&self, f: Rc<F>, _: &mut StdRng) -> (Duration, O) { self.said(3, "native", f(&self.v)) }
}
impl<O, I: Fn(&E) -> O, B: Fn(O, O) -> O> CompTreeFold<E, O, I, B> for Kit {
    type Target = Option<O>;
    fn comp_tfold(&self, i: Rc<I>, b: Rc<B>, _: &mut StdRng) -> (Duration, Option<O>) {
        let mut a = None;
        for e in &self.v { let x = i(e); a = Some(match a { None => x, Some(y) => b(y, x) }); }
        self.said(4, "tfold", a)
    }
}
impl<O, I: Fn(&E) -> O, B: Fn(O, O) -> O, M: Fn(O, u32, Option<Name>, O) -> O> CompTreeFoldNL<E, O, I, B, M> for Kit {
    type Target = Option<O>;
    fn comp_tfoldnl(&self, i: Rc<I>, b: Rc<B>, m: Rc<M>, _: &mut StdRng) -> (Duration, Option<O>) {
        let mut a = None;
        for e in &self.v {
            let x = i(e);
            a = Some(match a { None => x, Some(y) => if e % 2 == 0 { b(y, x) } else { m(y, *e, None, x) } });
        }
        self.said(5, "tfoldnl", a)
    }
}
impl<O, I: Fn(&Vec<E>) -> O, B: Fn(O, u32, Option<Name>, O) -> O> CompTreeFoldG<E, O, I, B> for Kit {
    type Target = O;
    fn comp_tfoldg(&self, i: Rc<I>, b: Rc<B>, _: &mut StdRng) -> (Duration, O) { let r = b(i(&self.v), 3, None, i(&vec![1])); self.said(6, "tfoldg", r) }
}
impl<O, F: Fn(&E) -> O> CompMap<E, O, F> for Kit {
    type Target = Vec<O>;
    fn comp_map(&self, f: Rc<F>, _: &mut StdRng) -> (Duration, Vec<O>) { let r = self.v.iter().map(|e| f(e)).collect(); self.said(7, "map", r) }
}
impl<O, F: Fn(O, &E) -> O> CompFold<E, O, F> for Kit {
    type Target = O;
    fn comp_fold(&self, a: O, f: Rc<F>, _: &mut StdRng) -> (Duration, O) { let r = self.v.iter().fold(a, |a, e| f(a, e)); self.said(8, "fold", r) }
}
impl<O, B: Fn(O, &E) -> O, N: Fn(O, u32) -> O> CompFoldMeta<E, O, u32, B, N> for Kit {
    type Target = O;
    fn comp_fold_meta(&self, a: O, b: Rc<B>, m: Rc<N>, _: &mut StdRng) -> (Duration, O) {
        let r = self.v.iter().fold(a, |a, e| m(b(a, e), 1000 + *e));
        self.said(9, "fold_meta", r)
    }
}
impl<O, B: Fn(O, &E) -> O, FB: Fn(O, Option<Name>) -> O, N: Fn(O, u32) -> O> CompFoldArchive<E, O, u32, B, FB, N> for Kit {
    type Target = O;
    fn comp_fold_archive(&self, a: O, b: Rc<B>, fb: Rc<FB>, m: Rc<N>, _: &mut StdRng) -> (Duration, O) {
        let r = self.v.iter().fold(a, |a, e| m(fb(b(a, e), None), 1000 + *e));
        self.said(10, "fold_archive", r)
    }
}

/// every computor runs its computation once, with its own functions, and reports the time it took
fn computors(g: &mut G, rng: &mut StdRng) -> Res {
    let kit = Kit { v: (0..g.upto(6)).map(|_| g.below(20) as E).collect(), t: g.upto(50) };
    g.note(|| format!("computors over {:?}", kit));
    let take = || LOG.with(|l| l.borrow_mut().split_off(0));
    fn st(mut a: Vec<E>, e: &E) -> Vec<E> { a.push(*e); a }
    fn mt(mut a: Vec<E>, l: u32) -> Vec<E> { a.push(l); a }
    fn fb(mut a: Vec<E>, _: Option<Name>) -> Vec<E> { a.push(7777); a }
    fn done(mut a: Vec<E>) -> Vec<E> { log("finish".into()); a.insert(0, 9999); a }
    fn v1(e: &E) -> Vec<E> { vec![*e] }
    fn nl(mut a: Vec<E>, l: u32, _: Option<Name>, b: Vec<E>) -> Vec<E> { log(format!("nl {}", l)); a.extend(b); a }
    fn same(v: &Vec<E>) -> Vec<E> { log("given".into()); v.clone() }
    fn lg(e: &E) -> Vec<E> { log(format!("on {}", e)); vec![*e] }
    let nm = |s: &str| name_of_string(s.to_string());
    let fold: Vec<E> = Some(5).into_iter().chain(kit.v.iter().cloned()).collect();
    let mut meta = vec![9999, 5];
    let mut arch = vec![9999, 5];
    for e in &kit.v { meta.push(*e); meta.push(1000 + *e); arch.push(*e); arch.push(7777); arch.push(1000 + *e); }
    let mut ffold = vec![9999];
    ffold.extend(fold.clone());
    type Many<T> = (Vec<Duration>, T);
    let (time, many): (Vec<Duration>, Option<Vec<E>>);
    let (kind, ran): (usize, Vec<String>);
    let mut answer = vec![];
    let ons = || kit.v.iter().map(|e| format!("on {}", e)).collect::<Vec<_>>();
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match g.upto(15) {
        0 => { let t: Duration = FindMax.compute(&kit, rng); time = vec![t]; many = None; kind = 1; ran = s(&["max"]); }
        1 => { let r: (Duration, E) = FindMax.compute(&kit, rng); time = vec![r.0]; many = Some(vec![r.1]); answer = vec![kit.v.iter().cloned().max().unwrap_or(0)]; kind = 1; ran = s(&["max"]); }
        2 => { let t: Duration = Native::new(same as fn(&Vec<E>) -> Vec<E>).compute(&kit, rng); time = vec![t]; many = None; kind = 3; ran = s(&["given", "native"]); }
        3 => { let t: Duration = Reverse.compute(&kit, rng); time = vec![t]; many = None; kind = 2; ran = s(&["rev"]); }
        4 => { let t: Duration = TreeFold::new(lg as fn(&E) -> Vec<E>, cat as fn(Vec<E>, Vec<E>) -> Vec<E>).compute(&kit, rng); time = vec![t]; many = None; kind = 4; ran = ons().into_iter().chain(s(&["tfold"])).collect(); }
        5 => {
            let t: Duration = TreeFoldNL::new(v1 as fn(&E) -> Vec<E>, cat as fn(Vec<E>, Vec<E>) -> Vec<E>, nl as fn(Vec<E>, u32, Option<Name>, Vec<E>) -> Vec<E>).compute(&kit, rng);
            time = vec![t]; many = None; kind = 5;
            ran = kit.v.iter().skip(1).filter(|e| *e % 2 == 1).map(|e| format!("nl {}", e)).chain(s(&["tfoldnl"])).collect();
        }
        6 => {
            let t: Duration = TreeFoldG::new(same as fn(&Vec<E>) -> Vec<E>, nl as fn(Vec<E>, u32, Option<Name>, Vec<E>) -> Vec<E>).compute(&kit, rng);
            time = vec![t]; many = None; kind = 6; ran = s(&["given", "given", "nl 3", "tfoldg"]);
        }
        7 => { let t: Duration = Mapper::new(nm("m"), lg as fn(&E) -> Vec<E>).compute(&kit, rng); time = vec![t]; many = None; kind = 7; ran = ons().into_iter().chain(s(&["map"])).collect(); }
        8 => { let t: Duration = Folder::new(vec![5], st as fn(Vec<E>, &E) -> Vec<E>).compute(&kit, rng); time = vec![t]; many = None; kind = 8; ran = s(&["fold"]); }
        9 => { let r: (Duration, Vec<E>) = Folder::new(vec![5], st as fn(Vec<E>, &E) -> Vec<E>).compute(&kit, rng); time = vec![r.0]; many = Some(r.1); answer = fold; kind = 8; ran = s(&["fold"]); }
        10 => { let r: Many<Vec<E>> = Folder::new(vec![5], st as fn(Vec<E>, &E) -> Vec<E>).compute(&kit, rng); time = r.0; many = Some(r.1); answer = fold; kind = 8; ran = s(&["fold"]); }
        11 => { let t: Duration = FFolder::new(vec![5], st as fn(Vec<E>, &E) -> Vec<E>, done as fn(Vec<E>) -> Vec<E>).compute(&kit, rng); time = vec![t]; many = None; kind = 8; ran = s(&["fold", "finish"]); }
        12 => { let r: Many<Vec<E>> = FFolder::new(vec![5], st as fn(Vec<E>, &E) -> Vec<E>, done as fn(Vec<E>) -> Vec<E>).compute(&kit, rng); time = r.0; many = Some(r.1); answer = ffold; kind = 8; ran = s(&["fold", "finish"]); }
        13 => {
            let mut c = MFolder::new(nm("mf"), vec![5], st as fn(Vec<E>, &E) -> Vec<E>, mt as fn(Vec<E>, u32) -> Vec<E>, done as fn(Vec<E>) -> Vec<E>);
            if g.bool() { let t: Duration = c.compute(&kit, rng); time = vec![t]; many = None; }
            else { let r: Many<Vec<E>> = c.compute(&kit, rng); time = r.0; many = Some(r.1); answer = meta; }
            kind = 9; ran = s(&["fold_meta", "finish"]);
        }
        14 => {
            let mut c = HFolder::new(nm("hf"), vec![5], st as fn(Vec<E>, &E) -> Vec<E>, fb as fn(Vec<E>, Option<Name>) -> Vec<E>, mt as fn(Vec<E>, u32) -> Vec<E>, done as fn(Vec<E>) -> Vec<E>);
            if g.bool() { let t: Duration = c.compute(&kit, rng); time = vec![t]; many = None; }
            else { let r: Many<Vec<E>> = c.compute(&kit, rng); time = r.0; many = Some(r.1); answer = arch; }
            kind = 10; ran = s(&["fold_archive", "finish"]);
        }
        _ => {
            // two stages, the second over what the first made
            fn kit_of(v: Vec<E>) -> Kit { log("finish".into()); Kit { t: 100, v: v } }
            let mut c = Compute2::<_, _, Kit, Kit, Vec<E>>::new(
                MFolder::new(nm("one"), vec![5], st as fn(Vec<E>, &E) -> Vec<E>, mt as fn(Vec<E>, u32) -> Vec<E>, kit_of as fn(Vec<E>) -> Kit),
                FFolder::new(vec![], st as fn(Vec<E>, &E) -> Vec<E>, done as fn(Vec<E>) -> Vec<E>));
            let r: Many<Vec<E>> = c.compute(&kit, rng);
            ensure_eq!(r, (vec![dur(kit.t + 9), dur(108)], meta), "two stages over {:?}", kit);
            ensure_eq!(take(), s(&["fold_meta", "finish", "fold", "finish"]), "stages over {:?}", kit);
            return Ok(());
        }
    }
    ensure_eq!(time, vec![dur(kit.t + kind)], "times reported over {:?}", kit);
    if let Some(m) = many { ensure_eq!(m, answer, "answer over {:?}", kit); }
    ensure_eq!(take(), ran, "what was run over {:?}", kit);
    Ok(())
}

fn drivers(g: &mut G) -> Res {
    g.label("drivers");
    LOG.with(|l| l.borrow_mut().clear());
    MADE.with(|m| m.borrow_mut().clear());
    let take = || LOG.with(|l| l.borrow_mut().split_off(0));
    let (mut rng, _) = rng_of(g);
    let (a, b, c) = (g.upto(50), g.upto(50), g.upto(50));
    let d = match g.weighted(&[2, 1, 1, 1]) { 0 => (0, 1), 1 => (1, 1), 2 => (g.u64() | 1, 3), _ => (g.u64() | 1, 1 << 40) };
    if d == (1, 1) { g.label("drivers: zero durations"); }
    DUR.with(|x| x.set(d));
    let changes = if g.chance(1, 10) { g.range(9, 70) } else { g.upto(8) };
    if changes >= 2 { g.nontrivial(); }
    let mut want = vec!["create".to_string(), "compute 0".to_string()];
    for i in 0..changes { want.push(format!("edit {}", i)); want.push(format!("compute {}", i + 1)); }
    let times = |k: usize| -> Vec<Duration> { (0..changes + 1).map(|i| dur(k + i)).collect() };
    let mut edits = vec![dur(a)];
    edits.extend((0..changes).map(|i| dur(b + i + 1)));
    match g.upto(6) {
        5 | 6 => computors(g, &mut rng)?,
        0 => {
            g.note(|| format!("sequence of {} changes", changes));
            let mut t = EditComputeSequence { init: C(a), edit: Ed(b), comp: U(c), changes: changes };
            let r: TestResult<Fake> = eval::actions::Testor::test(&mut t, &mut rng);
            ensure_eq!(take(), want, "steps of the driver");
            ensure_eq!(r.edits, edits, "edit times reported");
            ensure_eq!(r.computes, times(c), "compute times reported");
            ensure_eq!((r.full_edits.len(), r.full_computes.len()), (changes + 1, changes + 1), "full times reported");
        }
        1 => {
            g.note(|| format!("sequence of {} changes, several times", changes));
            let mut t = EditComputeSequence { init: C(a), edit: Ed(b), comp: U2(c), changes: changes };
            let r: TestMResult<Fake, String> = eval::actions::Testor::test(&mut t, &mut rng);
            ensure_eq!(take(), want, "steps of the driver");
            ensure_eq!(r.edits, edits, "edit times reported");
            ensure_eq!(r.computes, times(c).into_iter().map(|d| vec![d, dur(1)]).collect::<Vec<_>>(), "compute times reported");
            ensure_eq!((r.full_edits.len(), r.full_computes.len()), (changes + 1, changes + 1), "full times reported");
        }
        2 => {
            g.note(|| "two stages".to_string());
            let mut k = Compute2::<_, _, Fake, String, usize>::new(U2(a), U3(b));
            let r = k.compute(&Fake { id: c }, &mut rng);
            ensure_eq!(take(), vec![format!("compute {}", c), "second x".to_string()], "stages");
            ensure_eq!(r, (vec![dur(a + c), dur(1), dur(b)], 1), "result of two stages");
            let r = Proj0.compute(&(c, "y"), &mut rng);
            ensure_eq!(r, (vec![], c), "projection");
        }
        3 => {
            let m = *g.pick(&[1.0f32, 2.0, 3.0, 10.0, 1.5]);
            let coord = Mix::gen(g);
            let (dg, ng) = gauges(g);
            g.note(|| format!("build test {} times, multiplier {}", changes, m));
            let mut t = BuildTest { init: IncrementalInit { size: a, datagauge: dg, namegauge: ng, coord: coord.clone() }, edit: BatchInsert(b), multiplier: m, count: changes.min(12) };
            let changes = changes.min(12);
            let r: eval::test_build::TestResult<Rcd> = eval::actions::Testor::test(&mut t, &mut rng);
            let sizes: Vec<usize> = (0..changes).map(|i| m.powi(i as i32) as usize).collect();
            let mut want = vec![];
            for s in &sizes { want.push(format!("init {}", s)); want.push(format!("insert {}", b)); }
            ensure_eq!(take(), want, "steps of the build test");
            MADE.with(|v| { ensure_eq!(*v.borrow(), sizes.iter().map(|s| (*s, dg, ng, coord.s)).collect::<Vec<_>>(), "parameters of the build test"); Ok(()) as Res })?;
            ensure_eq!(r.build, sizes.iter().map(|s| dur(1000 + s)).collect::<Vec<_>>(), "build times reported");
            ensure_eq!(r.edit, sizes.iter().map(|_| dur(1000 + b)).collect::<Vec<_>>(), "edit times reported");
            ensure_eq!((r.build_full.len(), r.edit_full.len()), (changes, changes), "full times reported");
        }
        _ => {
            let coord = Mix::gen(g);
            let (dg, ng) = gauges(g);
            g.note(|| format!("creators and editors, size {}", a));
            let _: (Duration, Rcd) = IncrementalInit { size: a, datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng);
            let _: (Duration, Rcd) = IncrementalEmpty { datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng);
            let (_, d): (Duration, Rcd) = IncrementalFrom { data: b, datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng);
            let (t1, d) = SingleAppend.edit(d, &mut rng);
            let (t2, d) = BatchAppend(a).edit(d, &mut rng);
            let (t3, d) = BatchInsert(b).edit(d, &mut rng);
            let (t4, _) = BatchExtend(c).edit(d, &mut rng);
            ensure_eq!(take(), vec![format!("init {}", a), "empty 0".into(), format!("from {}", b), "append 1".into(), format!("append {}", a), format!("insert {}", b), format!("extend {}", c)], "what the data was asked to do");
            ensure_eq!((t1, t2, t3, t4), (dur(1001), dur(1000 + a), dur(1000 + b), dur(1000 + c)), "times passed on");
            MADE.with(|v| { ensure_eq!(*v.borrow(), vec![(a, dg, ng, coord.s), (0, dg, ng, coord.s), (b, dg, ng, coord.s)], "parameters passed on"); Ok(()) as Res })?;
        }
    }
    Ok(())
}

pub fn p22(g: &mut G) -> Res {
    match g.weighted(&[6, 4, 2, 1]) {
        0 => measured::<EvalIRaz<E, Mix>>(g, "by count"),
        1 => measured::<EvalRazNameIndex<E, Mix>>(g, "by name"),
        2 => plain(g),
        _ => drivers(g),
    }
}
