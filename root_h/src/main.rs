mod model;
mod raz_props;
mod fold_props;
mod stack_props;
mod tree_props;
mod work_props;
use pbt::Prop;

const GEN: &str = "single-threaded callers; archive points get unique names when named (the documented precondition); one fresh engine per case";
const LIN: &str = "under the incremental engine, named structure is used linearly or in its own namespace (naming a cell again overwrites it by design)";

fn main() {
    let p = |id, rule, assumptions, quick, thorough, f| Prop { id, rule, assumptions, quick, thorough, f };
    let props: Vec<Prop> = vec![
        p("P01", "a random editing session (build by pushes and archive points, then up to 4 rounds of up to 14 edits, unfocus, refocus at a random place; 4 kinds of metadata, both engines, named/unnamed/partly named archive points, small and large sizes) run against a two-stack model, every returned value compared; non-trivial: at least one refocus of a sequence with archive points and 3 or more elements at the end",
          &[GEN, LIN], 1_000_000, 20_000_000, raz_props::p01),
        p("P02", "a random session's result is focused at every position (25 random ones plus the ends when long), read on both sides, unfocused again, inserted into, and focused out of range; non-trivial: the session refocused a sequence with archive points and ends with 3 or more elements",
          &[GEN, LIN], 600_000, 10_000_000, raz_props::p02),
        p("P03", "random sessions (plus maps and joins) with element counts, name sets, and a user-defined order-sensitive kind of metadata that records what every branch was given; the root's metadata is compared after every unfocus, every branch pair consulted is compared by focusing everywhere; non-trivial as for P02",
          &[GEN, LIN], 800_000, 15_000_000, raz_props::p03),
        p("P04", "random sessions with name metadata; every archived name, an absent name, and a name deleted by editing across it are focused, now and then with up to 900 names; non-trivial as for P02",
          &[GEN, LIN], 250_000, 4_000_000, raz_props::p04),
        p("P05", "a sequence from a session, vector, join or stack, folded bottom-up with six operators (concatenation, composition of affine maps, max, sum and count, with levels and names, by subsequence) and compared with a plain fold; non-trivial: 2 or more archive points and 4 or more elements",
          &[GEN, "operators are associative, as documented"], 1_200_000, 20_000_000, fold_props::p05),
        p("P06", "a sequence from a session, vector, join or stack, folded left to right with elements only, with levels and names, and with names at subsequence ends, compared with the expected event list; non-trivial as for P05",
          &[GEN], 1_200_000, 20_000_000, fold_props::p06),
        p("P07", "a sequence from a session, vector, join or stack, mapped with 4 functions and to 3 kinds of metadata, then read, refocused and drained, and the source re-read; non-trivial as for P05",
          &[GEN], 900_000, 15_000_000, fold_props::p07),
        p("P08", "up to 7 rounds of edits under the incremental engine; after each, twelve computations (six folds, a saturating fold, a map, a fold over the map, a skip list filled by a fold, a fold over a join, a fold over an edited map) rerun in fixed namespaces and are compared with from-scratch answers on the reference model; non-trivial as for P02",
          &[GEN, LIN, "each computation keeps one namespace and one function across reruns (the engine's own contract)"], 150_000, 3_000_000, fold_props::p08),
        p("P09", "up to 7 rounds of edits of a fully named sequence under the incremental engine; calls of the caller's functions by five reruns are counted and compared with the number of elements and branches in subtrees that are new under their parent (or, left to right, new with their accumulator); non-trivial as for P02",
          &[GEN, LIN, "the bound counts one level of memoisation: what was computed in the previous run of the same computation"], 150_000, 3_000_000, fold_props::p09),
        p("P10", "random sessions; after every unfocus the complete list of elements, archive levels and names is compared with the model; non-trivial as for P02",
          &[GEN, LIN, "with no elements between the archive points on either side of the cursor only one of the two can stay; either is accepted"], 1_000_000, 20_000_000, raz_props::p10),
        p("P11", "half: after every unfocus of a session the observed tree is compared with the canonical one; half: one random sequence with levels is constructed twice out of four ways (left, right, both sides, random insertion order), joined from parts, and compared, also with a sequence that differs in one place; non-trivial: as for P02, or 4 or more subsequences",
          &[GEN], 1_200_000, 20_000_000, raz_props::p11),
        p("P12", "a random stack with levels and names, edited over up to 4 rounds and converted after each, from either end, under either engine (reruns in one namespace); non-trivial: a conversion with 3 or more archive points",
          &[GEN], 700_000, 12_000_000, fold_props::p12),
        p("P13", "a pool of editors, trees, stacks, lists or tree cursors grows by cloning and each member is edited at random against its own model; non-trivial: 2 or more forks (3 or more copies) with enough structure to share",
          &[GEN, "the plain engine for named structure, either engine for unnamed"], 1_200_000, 20_000_000, p13),
        p("P14", "up to 25 (rarely 120) random stack operations against a model of archived vectors, every observer compared after each; non-trivial: 2 or more archives made and 1 or more crossed",
          &[GEN], 6_000_000, 60_000_000, stack_props::p14),
        p("P15", "up to 30 (rarely 150) list operations on a pool of lists sharing tails, against vectors; non-trivial: 2 or more operations on older versions and a list of 3 or more",
          &[GEN], 3_000_000, 50_000_000, stack_props::p15),
        p("P16", "a random canonical tree whose data records everything below each node, and up to 25 (rarely 120) cursor moves (plain, forced, discarding), against a zipper model; non-trivial: 5 or more nodes, 10 or more moves, 3 or more of them upward",
          &[GEN, LIN], 3_000_000, 50_000_000, tree_props::p16),
        p("P17", "a random canonical tree, up to 6 rounds of wandering, iterating, splitting, moving in the parts and joining around the old or a new node; non-trivial: 2 or more joins over 5 or more nodes",
          &[GEN, LIN, "trees are in canonical level order, as the cursor documents"], 1_000_000, 20_000_000, tree_props::p17),
        p("P18", "a random tree of any shape (half canonical), computed over in six ways, then under the incremental engine edited by name and recomputed up to 4 times; non-trivial: 4 or more nodes",
          &[GEN], 600_000, 10_000_000, tree_props::p18),
        p("P19", "up to 40 (rarely 250, now and then 5000) map operations over up to 60 keys of three types with 1 to 64 hash bits, against a hash map; non-trivial: 15 or more operations, 2 or more overwrites and 1 or more removals",
          &[GEN, LIN], 1_500_000, 20_000_000, stack_props::p19),
        p("P20", "levels generated from chosen random words (range, determinism), 2000 levels from a seeded stream (distribution within 9 standard deviations), and sequences of up to 400 archive points (depth); non-trivial: 3 or more words, or any distribution or depth case",
          &[GEN, "statistical bounds are 9 standard deviations wide plus slack"], 1_000_000, 15_000_000, tree_props::p20),
        p("P24", "a named sequence and up to 4 versions of it, each edited in its own namespace over up to 8 rounds, all re-read after each; non-trivial: 2 or more effective edits, 2 or more versions, 3 or more archive points",
          &[GEN], 250_000, 4_000_000, raz_props::p24),
        p("P25", "a sequence of up to 1200 archive points (geometric and five other kinds of levels), up to 4 rounds of focusing and up to 10 edits; how often a user-defined kind of metadata is put together or consulted is compared with the depth of the canonical trees before and after plus the archive points added or removed; non-trivial: at least one round whose bound is below the cost of rebuilding the whole tree",
          &[GEN, LIN, "the bound is 4 per level of depth, 8 per archive point added or removed, 6 per edit, plus 24: twice what the unchanged tree needs"], 12_000, 250_000, work_props::p25),
        p("P26", "a fully named stack of up to 600 archives converted to a sequence up to 5 times in one namespace under the incremental engine, up to 12 elements popped and up to 5 archives pushed in between; how often metadata is put together is bounded by tree depth and the archives that changed; non-trivial: at least one rerun whose bound is below the cost of converting from scratch",
          &[GEN, "names are unique; each conversion keeps its namespace", "the bound is 4 per level of depth, 8 per archive that changed, plus 24"], 8_000, 150_000, work_props::p26),
        p("P28", "a sequence of up to 500 subsequences with up to 4 rounds of focusing and up to 10 edits, sometimes copied as a sequence or as an editor or joined to another, or an archive stack with up to 12 operations; elements count how often they are copied, and each step's copies are compared with the elements of the subsequences it touches; non-trivial: at least one round or operation whose bound is below the length of the whole",
          &[GEN, LIN, "the bounds are 4 to 12 copies per element touched, plus 40"], 250_000, 4_000_000, work_props::p28),
        p("P29", "a sequence from a session, vector, join or stack, or a level tree of any shape, folded and mapped from scratch in every way there is with functions that log what they are called for; the logs are compared with the elements, subsequences, archive points or nodes; non-trivial as for P05, or 4 or more nodes",
          &[GEN], 600_000, 12_000_000, fold_props::p29),
    ];
    pbt::main(&props);
}

fn p13(g: &mut pbt::G) -> pbt::Res {
    match g.weighted(&[5, 2, 1, 2]) {
        0 => raz_props::p13_raz(g),
        1 => stack_props::p13_astack(g),
        2 => stack_props::p13_list(g),
        _ => tree_props::p13_tree(g),
    }
}
