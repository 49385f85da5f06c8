//! Which inputs are tried for which property: an exhaustive part (all short scripts over the
//! property's operation alphabet) followed by seeded random scripts until the budget is used.
use crate::elems::*;
use crate::vecops::{C, Op, run_script};
use crate::{Case, scen};

pub const KINDS: [&str; 10] = ["sized", "sized24", "sizedzst", "slice", "slice16", "slicezst", "str", "cstr", "osstr", "dyn"];

pub fn run_kind(k: &str, ops: &[Op]) -> Result<(), (usize, String)> {
    match k {
        "sized" => run_script::<KSized>(ops),
        "sized24" => run_script::<KSized24>(ops),
        "sizedzst" => run_script::<KSizedZst>(ops),
        "slice" => run_script::<KSlice>(ops),
        "slice16" => run_script::<KSlice16>(ops),
        "slicezst" => run_script::<KSliceZ>(ops),
        "str" => run_script::<KStr>(ops),
        "cstr" => run_script::<KCStr>(ops),
        "osstr" => run_script::<KOsStr>(ops),
        _ => run_script::<KDyn>(ops),
    }
}
fn classes(k: &str) -> usize {
    match k {
        "sized" | "sized24" | "sizedzst" | "slicezst" => 1,
        "slice" | "str" | "cstr" | "osstr" => 4,
        "slice16" => 3,
        _ => 10,
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}
/// Weighted operation mix of a property.
fn mix(prop: &str) -> &'static [(C, u32)] {
    use C::*;
    match prop {
        "C01" => &[(Push, 5), (Ins, 5), (Pop, 2), (Rem, 4), (Res, 1), (Shrink, 1), (Ext, 1), (Mut, 1), (New, 1)],
        "C02" => &[(Push, 4), (Ins, 2), (Rem, 2), (Res, 5), (Shrink, 5), (New, 1)],
        "C03" => &[(Push, 5), (Ins, 3), (Pop, 1), (Rem, 2), (Res, 3), (Shrink, 3), (New, 1)],
        "C04" => &[(Push, 4), (Ins, 3), (Pop, 3), (Rem, 4), (DropAll, 1), (Ext, 1), (Res, 1), (Shrink, 1), (Clone, 1)],
        "C05" => &[(Push, 4), (Ins, 3), (Pop, 1), (Rem, 1), (Res, 7), (New, 2), (Shrink, 1)],
        "C06" => &[(Push, 4), (Ins, 1), (Rem, 2), (Res, 4), (Shrink, 6), (New, 2)],
        "C07" => &[(Push, 4), (Ins, 1), (Rem, 2), (ResFail, 5), (Huge, 5), (Res, 2), (Shrink, 2), (New, 1)],
        "C08" => &[(Push, 5), (Ins, 3), (Rem, 1), (PushF, 3), (InsF, 3), (PopF, 2), (RemF, 4), (DropAll, 1), (Shrink, 1), (Res, 1)],
        "C09" => &[(Push, 4), (Ins, 2), (Rem, 2), (Iter, 8), (Shrink, 1)],
        "C14" => &[(Push, 4), (Huge, 6), (Res, 2), (Rem, 1), (Shrink, 1), (New, 1)],
        "C11" => &[(Push, 3), (Ext, 4), (Clone, 3), (Rem, 1)],
        _ => &[(Push, 1)],
    }
}
fn random_op(r: &mut Rng, m: &[(C, u32)], k: &str) -> Op {
    let tot: u32 = m.iter().map(|x| x.1).sum();
    let mut x = r.below(tot as usize) as u32;
    let mut c = m[0].0;
    for (cc, w) in m {
        if x < *w {
            c = *cc;
            break;
        }
        x -= *w;
    }
    let cl = classes(k);
    let small = [0usize, 0, 1, 1, 2, 3, 4, 7, 9];
    let bytes = [0usize, 1, 3, 4, 5, 8, 12, 16, 31, 48, 64, 100, 128, 200, 257, 512];
    let mut b = || bytes[r.below(bytes.len())];
    let bv = b();
    let a = match c {
        C::Push => [r.below(cl), r.below(4), 0, 0],
        C::Ins => [r.below(64), r.below(cl), r.below(4), 0],
        C::Pop => [r.below(6), 0, 0, 0],
        C::Rem => [r.below(64), r.below(6), 0, 0],
        C::PushF => [r.below(cl), r.below(3), 0, 0],
        C::InsF => [r.below(64), r.below(cl), r.below(3), 0],
        C::PopF => [r.below(2), 0, 0, 0],
        C::RemF => [r.below(64), r.below(2), 0, 0],
        C::Res => [r.below(16), small[r.below(small.len())], bv, r.below(8)],
        C::ResFail => [r.below(16), small[r.below(small.len())], bv, r.below(8) | r.below(3) << 8],
        C::Huge => [r.below(16), r.below(144), 0, 0],
        C::Shrink => [if r.below(4) == 0 { r.below(16) } else { r.below(4) }, if r.below(6) == 0 { 99 } else { small[r.below(small.len())] }, bv, r.below(8)],
        C::Iter => [r.below(1 << 18), 0, 0, 0],
        C::New => [r.below(5), small[r.below(small.len())], bv, r.below(8)],
        C::Clone => [0; 4],
        C::Ext => [r.below(4), r.below(cl), 0, 0],
        C::Mut => [r.below(64), 0, 0, 0],
        C::DropAll => [r.below(2), 0, 0, 0],
    };
    Op { c, a }
}
/// Small alphabet for the exhaustive part.
fn alphabet(prop: &str, k: &str) -> Vec<Op> {
    let mut v = vec![];
    let cl: Vec<usize> = match k {
        "dyn" => vec![0, 3, 4, 8],
        "slice" | "str" | "cstr" | "osstr" => vec![0, 1, 3],
        "slice16" => vec![0, 2],
        _ => vec![0],
    };
    let mut op = |c, a| v.push(Op { c, a });
    for (c, _) in mix(prop) {
        match c {
            C::Push => cl.iter().for_each(|x| op(C::Push, [*x, 1, 0, 0])),
            C::Ins => cl.iter().for_each(|x| {
                op(C::Ins, [0, *x, 1, 0]);
                op(C::Ins, [1, *x, 0, 0]);
            }),
            C::Pop => [0, 1].iter().for_each(|h| op(C::Pop, [*h, 0, 0, 0])),
            C::Rem => [(0, 0), (1, 0), (0, 1)].iter().for_each(|(i, h)| op(C::Rem, [*i, *h, 0, 0])),
            C::PushF => (0..2).for_each(|f| op(C::PushF, [cl[cl.len() - 1], f, 0, 0])),
            C::InsF => (0..2).for_each(|f| op(C::InsF, [0, cl[cl.len() - 1], f, 0])),
            C::PopF => (0..2).for_each(|f| op(C::PopF, [f, 0, 0, 0])),
            C::RemF => (0..2).for_each(|f| op(C::RemF, [0, f, 0, 0])),
            C::Res => [[0, 3, 0, 0], [1, 1, 40, 0], [5, 1, 40, 0], [2, 0, 9, 6], [6, 1, 65, 5]].into_iter().for_each(|a| op(C::Res, a)),
            C::ResFail => [[8, 3, 0, 0], [13, 1, 40, 0], [14, 5, 300, 6], [10, 5, 300, 6 | 1 << 8]].into_iter().for_each(|a| op(C::ResFail, a)),
            C::Huge => [[8, 0, 0, 0], [9, 50, 0, 0], [10, 52, 0, 0], [14, 99, 0, 0], [11, 48 + 24, 0, 0]].into_iter().for_each(|a| op(C::Huge, a)),
            C::Shrink => [[0, 0, 0, 0], [1, 1, 0, 0], [2, 0, 33, 0], [3, 0, 7, 3], [7, 99, 0, 0], [6, 99, 0, 0]].into_iter().for_each(|a| op(C::Shrink, a)),
            C::Iter => [0o1, 0o2, 0o3, 0o4, 0o5, 0o6, 0o7, 0o13, 0o21, 0o12, 0o31, 0o232, 0o71, 0o6221].iter().for_each(|p| op(C::Iter, [*p, 0, 0, 0])),
            C::New => [[1, 2, 0, 0], [2, 1, 50, 0], [3, 1, 50, 4]].into_iter().for_each(|a| op(C::New, a)),
            C::Clone => op(C::Clone, [0; 4]),
            C::Ext => op(C::Ext, [2, 0, 0, 0]),
            C::Mut => op(C::Mut, [0; 4]),
            C::DropAll => op(C::DropAll, [1, 0, 0, 0]),
        }
    }
    v
}

/// Calls `f` with each case until it returns false.  Returns (enumerated, random) counts.
pub fn drive(prop: &str, seed: u64, f: &mut dyn FnMut(&Case) -> bool) -> (u64, u64) {
    let (mut ne, mut nr) = (0u64, 0u64);
    // Scenarios belonging to the property, over their whole parameter grid.
    for (name, _, props, grid) in scen::ALL {
        if !props.split(' ').any(|p| p == prop) {
            continue;
        }
        let g = *grid;
        for a in 0..g[0] {
            for b in 0..g[1] {
                for c in 0..g[2] {
                    for d in 0..g[3] {
                        ne += 1;
                        if !f(&Case::Scen(name, [a, b, c, d])) {
                            return (ne, nr);
                        }
                    }
                }
            }
        }
    }
    if mix(prop).len() == 1 {
        return (ne, nr);
    }
    // All scripts of length <= 2 over the small alphabet, and length 3 for a prefix push.
    for k in KINDS {
        let al = alphabet(prop, k);
        for x in &al {
            for y in &al {
                ne += 1;
                if !f(&Case::Script(k, vec![*x, *y])) {
                    return (ne, nr);
                }
            }
        }
    }
    for k in KINDS {
        let al = alphabet(prop, k);
        let pre: Vec<&Op> = al.iter().filter(|o| matches!(o.c, C::Push)).collect();
        for p in &pre {
            for x in &al {
                for y in &al {
                    ne += 1;
                    if !f(&Case::Script(k, vec![**p, *x, *y])) {
                        return (ne, nr);
                    }
                }
            }
        }
    }
    let mut r = Rng::new(seed);
    loop {
        // dyn is the richest strategy: give it half of the budget.
        let k = if r.below(2) == 0 { "dyn" } else { KINDS[r.below(KINDS.len())] };
        let m = mix(prop);
        let n = 2 + r.below(14);
        let mut ops = Vec::with_capacity(n + 2);
        for _ in 0..r.below(5) {
            ops.push(Op { c: C::Push, a: [r.below(classes(k)), r.below(4), 0, 0] });
        }
        for _ in 0..n {
            ops.push(random_op(&mut r, m, k));
        }
        nr += 1;
        if !f(&Case::Script(k, ops)) {
            return (ne, nr);
        }
    }
}
