//! P27: the element types of the evaluation suite.
use eval::types::{Elm, Gen10k, GenSetElm, GenSmall};
use pbt::{ensure, ensure_eq, Res, G};
use rand::{Rand, Rng, SeedableRng, StdRng};
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Add;

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// gives out chosen words, over and over
struct Words(Vec<u64>, usize);
impl Rng for Words {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let v = self.0[self.1 % self.0.len()]; self.1 += 1; v }
}

fn word(g: &mut G) -> u64 {
    match g.weighted(&[3, 2, 2, 2, 1, 1]) {
        0 => g.below(300),
        1 => { let b = g.below(64); 1u64 << b }
        2 => { let b = g.below(64); (1u64 << b).wrapping_sub(g.below(3)) }
        3 => { let m = *g.pick(&[100u64, 10_000]); (g.below(1 << 40)) * m + g.below(3) }
        4 => u64::max_value() - g.below(3),
        _ => g.u64(),
    }
}

fn bounded<T: Rand>(g: &mut G, what: &str, ws: &[u64], num: fn(&T) -> usize, below: usize) -> Res {
    g.note(|| format!("{} from the words {:?}", what, ws));
    let (mut a, mut b) = (Words(ws.to_vec(), 0), Words(ws.to_vec(), 0));
    for _ in 0..ws.len() {
        let (x, y) = (num(&T::rand(&mut a)), num(&T::rand(&mut b)));
        ensure!(x < below, "{} {} is not below {}", what, x, below);
        ensure_eq!(x, y, "{} drawn twice from the same words", what);
    }
    Ok(())
}

/// order, equality, hash, copies follow the numbers
fn like_numbers<T: Copy + Ord + Hash + Debug>(x: T, y: T, a: usize, b: usize, what: &str) -> Res {
    ensure_eq!(x == y, a == b, "{}: equality of {} and {}", what, a, b);
    ensure_eq!(x != y, a != b, "{}: difference of {} and {}", what, a, b);
    ensure_eq!(x.cmp(&y), a.cmp(&b), "{}: order of {} and {}", what, a, b);
    ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "{}: partial order of {} and {}", what, a, b);
    ensure_eq!((x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), "{}: comparisons of {} and {}", what, a, b);
    ensure_eq!(std::cmp::max(x, y) == x, a > b || a == b, "{}: maximum of {} and {}", what, a, b);
    if a == b { ensure_eq!(hash_of(&x), hash_of(&y), "{}: hashes of equal elements", what); }
    else { ensure!(hash_of(&x) != hash_of(&y), "{}: {} and {} hash alike", what, a, b); }
    let z = x;
    ensure!(z == x && hash_of(&z) == hash_of(&x), "{}: a copy of {} is different", what, a);
    Ok(())
}
fn sums<T: Copy + Add<Output = T> + From<usize> + Debug + PartialEq>(what: &str, num: fn(&T) -> usize, xs: &[usize]) -> Res {
    let s = xs.iter().fold(T::from(0), |a, x| a + T::from(*x));
    ensure_eq!(num(&s), xs.iter().sum::<usize>(), "{}: sum of {:?}", what, xs);
    Ok(())
}

pub fn p27(g: &mut G) -> Res {
    match g.weighted(&[6, 6, 1]) {
        0 => {
            g.label("drawn from chosen words");
            let n = g.range(1, 12);
            let ws: Vec<u64> = (0..n).map(|_| word(g)).collect();
            if n >= 3 { g.nontrivial(); }
            bounded::<GenSmall>(g, "GenSmall", &ws, |x| x.0, 100)?;
            bounded::<Gen10k>(g, "Gen10k", &ws, |x| x.0, 10_000)?;
            bounded::<GenSetElm>(g, "GenSetElm", &ws, |x| (x.0).0, usize::max_value())
                .or_else(|e| if e.contains("is not below") { Ok(()) } else { Err(e) })
        }
        1 => {
            g.label("pairs of elements");
            let a = word(g) as usize;
            let b = match g.weighted(&[2, 2, 2, 1]) { 0 => a, 1 => word(g) as usize, 2 => { let k = g.below(64); a ^ (1usize << k) } _ => a.swap_bytes() };
            g.note(|| format!("{} and {}", a, b));
            if a != b { g.nontrivial(); }
            like_numbers(GenSmall(a), GenSmall(b), a, b, "GenSmall")?;
            like_numbers(Gen10k(a), Gen10k(b), a, b, "Gen10k")?;
            like_numbers(Elm(a), Elm(b), a, b, "Elm")?;
            like_numbers(GenSetElm(Elm(a)), GenSetElm(Elm(b)), a, b, "GenSetElm")?;
            ensure_eq!(GenSmall::from(a), GenSmall(a), "GenSmall from a number");
            ensure_eq!(GenSetElm::from(a), GenSetElm(Elm(a)), "GenSetElm from a number");
            let n = g.upto(8);
            let xs: Vec<usize> = (0..n).map(|_| { let w = word(g) as usize; let s = *g.pick(&[57u32, 32, 8, 4]); w >> s }).collect();
            sums::<GenSmall>("GenSmall", |x| x.0, &xs)?;
            let s = xs.iter().fold(Gen10k(0), |a, x| a + Gen10k(*x));
            ensure_eq!(s.0, xs.iter().sum::<usize>(), "Gen10k: sum of {:?}", xs);
            Ok(())
        }
        _ => {
            g.label("drawn from a seeded source");
            let seed = g.below(1 << 32) as usize;
            g.note(|| format!("seed {}", seed));
            g.nontrivial();
            let (mut a, mut b) = (StdRng::from_seed(&[seed]), StdRng::from_seed(&[seed]));
            let xs: Vec<usize> = (0..5000).map(|_| GenSmall::rand(&mut a).0).collect();
            let ys: Vec<usize> = (0..5000).map(|_| GenSmall::rand(&mut b).0).collect();
            ensure!(xs == ys, "the same seed gives different small elements");
            let all: HashSet<usize> = xs.iter().cloned().collect();
            // (a value is missing by chance with probability below 10^-19)
            ensure!(all.len() == 100 && xs.iter().all(|x| *x < 100), "5000 small elements take {} of 100 values", all.len());
            let xs: Vec<usize> = (0..2000).map(|_| Gen10k::rand(&mut a).0).collect();
            let ys: Vec<usize> = (0..2000).map(|_| Gen10k::rand(&mut b).0).collect();
            ensure!(xs == ys, "the same seed gives different elements below 10 000");
            let all: HashSet<usize> = xs.iter().cloned().collect();
            let low = xs.iter().filter(|x| **x < 5000).count();
            // (expected: 1813 different values, 1000 low ones; the bounds are 10 standard deviations away)
            ensure!(all.len() > 1600 && low > 770 && low < 1230, "2000 elements below 10 000: {} values, {} of them low", all.len(), low);
            let xs: Vec<GenSetElm> = (0..2000).map(|_| GenSetElm::rand(&mut a)).collect();
            let ys: Vec<GenSetElm> = (0..2000).map(|_| GenSetElm::rand(&mut b)).collect();
            ensure!(xs == ys, "the same seed gives different set elements");
            let all: HashSet<GenSetElm> = xs.iter().cloned().collect();
            // (two of 2000 words agree with probability below 10^-12)
            ensure!(all.len() == 2000, "2000 set elements take {} values only", all.len());
            Ok(())
        }
    }
}
