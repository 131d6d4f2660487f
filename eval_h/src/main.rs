#[path = "../../root_h/src/model.rs"]
#[allow(dead_code)]
mod model;
mod accum;
mod elems;
mod measured;
mod pipes;
use pbt::Prop;

const GEN: &str = "single-threaded callers; names given to archives are unique; one fresh engine per case";

fn main() {
    let p = |id, rule, assumptions, quick, thorough, f| Prop { id, rule, assumptions, quick, thorough, f };
    let props: Vec<Prop> = vec![
        p("P21", "up to 30 (rarely 200) pushes, pops and archives through the accumulator interface on one of nine accumulator types, against a vector, then emptied; non-trivial: 2 or more archives and a pop below one of them",
          &[GEN], 10_000_000, 150_000_000, accum::p21),
        p("P22", "a measured sequence (by count, by name, or a plain vector) is created empty, from data, or by size and gauges, then appended to, inserted into and computed over in up to 6 rounds against a model; or a test driver runs recording stand-ins; non-trivial: 2 or more edits of a sequence with archive points, or a driver run with 2 or more edits",
          &[GEN, "gauges are at least 1; insertion needs a non-empty sequence (a named archive point, for the by-name kind)"], 80_000, 2_000_000, measured::p22),
        p("P23", "a measured sequence goes through up to 6 rounds of edits; after each, one of the evaluation pipelines (tokenize and parse over 7 kinds of accumulator, to-list over 9, filter, reverse, unique elements, map, max, folds) runs again and is compared with the same computation on a plain vector of the current contents; non-trivial: 2 or more runs over a sequence with 2 or more archive points",
          &[GEN], 200_000, 5_000_000, pipes::p23),
        p("P27", "elements of the four types drawn from chosen words (boundaries, multiples of the bounds, single bits), pairs of numbers with a relation (equal, one bit apart, bytes swapped), or thousands of elements drawn from a seeded source; non-trivial: 3 or more words, two different numbers, or a seeded source",
          &["sums stay within a machine word"], 400_000, 8_000_000, elems::p27),
    ];
    pbt::main(&props);
}
