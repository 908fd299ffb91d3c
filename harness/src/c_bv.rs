//! C02 add/sub/negate, C03 mul, C04 bitwise + bits, C05 shifts, C06 comparisons,
//! C07 slice/concat/extend.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{eq, same, M};
use crate::ops::*;
use baa::{mask, BitVecMutOps, BitVecOps, BitVecValue};

/// Replays `add a=.. b=..`, `not a=..`, `preds a=.. b=..`, `concat a=.. b=..`, `slice(5,2) a=..` ...
pub fn replay(c: &Case) -> Result<(), Fail> {
    if let Some(op) = Bin::of(&c.op) {
        let (a, b) = (c.m("a"), c.m("b"));
        check_bin(op, &a, &b, &a.real(), &b.real())?;
        if op == Bin::Add || op == Bin::Sub {
            operators(&a, &b, &a.real(), &b.real())?;
        }
        return Ok(());
    }
    if let Some(op) = Un::of(&c.op) {
        let a = c.m("a");
        check_un(op, &a, &a.real())?;
        return Ok(());
    }
    match c.op.as_str() {
        "preds" => {
            let (a, b) = (c.m("a"), c.m("b"));
            check_preds(&a, &b, &a.real(), &b.real())?;
        }
        "concat" => {
            let (a, b) = (c.m("a"), c.m("b"));
            concat(&a, &b, &a.real(), &b.real())?;
        }
        "bit" => {
            bit(&c.m("a"), c.u("pos"))?;
        }
        "mask" => {
            mask_case(c.u("n"))?;
        }
        "parts" => {
            parts(&c.m("a"), &c.m("b"))?;
        }
        "huge" => {
            crate::c_huge::run(c.s("what"), c.u("w"))?;
        }
        o => panic!("unknown trace op {o}"),
    }
    Ok(())
}

fn operators(a: &M, b: &M, ra: &BitVecValue, rb: &BitVecValue) -> Result<u64, String> {
    same(&(ra + rb), &a.add(b)).map_err(|e| format!("operator +: {e}"))?;
    same(&(ra - rb), &a.sub(b)).map_err(|e| format!("operator -: {e}"))?;
    Ok(a.w() as u64)
}

fn concat(a: &M, b: &M, ra: &BitVecValue, rb: &BitVecValue) -> Result<u64, String> {
    let r = ra.concat(rb);
    same(&r, &a.concat(b))?;
    Ok(fp(&r))
}

/// the parts of a concatenation and the origin of an extension come back
fn parts(a: &M, b: &M) -> Result<u64, String> {
    let (ra, rb) = (a.real(), b.real());
    let c = ra.concat(&rb);
    if b.w() > 0 {
        same(&c.slice(b.w() - 1, 0), b).map_err(|e| format!("low part: {e}"))?;
    }
    if a.w() == 0 {
        return Ok(fp(&c));
    }
    same(&c.slice(c.width() - 1, b.w()), a).map_err(|e| format!("high part: {e}"))?;
    for by in [0, 1, b.w()] {
        same(&ra.zero_extend(by).slice(a.w() - 1, 0), a).map_err(|e| format!("zero_extend({by}): {e}"))?;
        same(&ra.sign_extend(by).slice(a.w() - 1, 0), a).map_err(|e| format!("sign_extend({by}): {e}"))?;
    }
    Ok(fp(&c))
}

fn bit(a: &M, pos: u32) -> Result<u64, String> {
    let mut v = a.real();
    eq("is_bit_set", v.is_bit_set(pos), a.bit(pos))?;
    v.set_bit(pos);
    same(&v, &a.with_bit(pos, true)).map_err(|e| format!("set_bit: {e}"))?;
    eq("is_bit_set after set_bit", v.is_bit_set(pos), true)?;
    let mut v = a.real();
    v.clear_bit(pos);
    same(&v, &a.with_bit(pos, false)).map_err(|e| format!("clear_bit: {e}"))?;
    eq("is_bit_set after clear_bit", v.is_bit_set(pos), false)?;
    Ok(fp(&v))
}

fn mask_case(n: u32) -> Result<u64, String> {
    let exp = (0..n).fold(0u64, |a, i| a | 1 << i);
    eq("mask", mask(n), exp)?;
    Ok(exp)
}

#[derive(Clone, Copy)]
struct PairBounds {
    full: u32,
    edges: u32,
    sparse: u32,
    tuple3: usize,
    tuple4: usize,
    /// number of words up to which runs of words are combined
    words: u32,
    runs_to: u32,
    runs_at: &'static [u32],
    huge: bool,
    /// widths at which all pairs of `shapes` are taken
    shapes: &'static [u32],
}

const SHAPE_WIDTHS: [u32; 34] = [
    40, 63, 64, 65, 100, 127, 128, 129, 150, 191, 192, 193, 230, 256, 257, 300, 320, 350, 384, 420, 448, 512, 540, 640, 700, 768, 900, 1024, 1030, 1100, 1300, 2048, 2050, 2600,
];

fn bounds(t: Tier) -> PairBounds {
    match t {
        Tier::Quick => PairBounds { full: 8, edges: 140, sparse: 260, tuple3: 6, tuple4: 4, words: 40, runs_to: 20, runs_at: &[], huge: true, shapes: &SHAPE_WIDTHS },
        Tier::Thorough => PairBounds { full: 11, edges: 260, sparse: 700, tuple3: 8, tuple4: 6, words: 70, runs_to: 40, runs_at: &[63, 64, 65, 66, 70], huge: true, shapes: &SHAPE_WIDTHS },
    }
}

type PairFn = fn(&mut Loc, &V, &V) -> R;

/// all ordered pairs of `vs`, split into chunks of the first operand
fn pairs(jobs: &mut Vec<Job>, name: String, mk: impl Fn() -> Vec<M> + Send + Sync + Clone + 'static, chunks: usize, f: PairFn) {
    for c in 0..chunks {
        let mk = mk.clone();
        jobs.push(job(format!("{name} part {c}/{chunks}"), move |l| {
            let vs = reals(mk());
            for (i, a) in vs.iter().enumerate() {
                if i % chunks != c {
                    continue;
                }
                l.states += vs.len() as u64;
                for b in &vs {
                    f(l, a, b)?;
                }
            }
            Ok(())
        }));
    }
}

fn pair_jobs(b: PairBounds, f: PairFn) -> Vec<Job> {
    let mut jobs = vec![];
    for w in 0..=b.full {
        let chunks = if w >= 9 { 8 } else { 1 };
        pairs(&mut jobs, format!("all pairs, width {w}"), move || full(w), chunks, f);
    }
    for w in b.full + 1..=b.edges {
        pairs(&mut jobs, format!("edge pairs, width {w}"), move || edges(w), 1 + (w as usize) / 64, f);
    }
    for w in b.edges + 1..=b.sparse {
        pairs(&mut jobs, format!("boundary pairs, width {w}"), move || edges_sparse(w), 1, f);
    }
    for w in WIDE {
        if w > b.sparse {
            pairs(&mut jobs, format!("boundary pairs, width {w}"), move || edges_sparse(w), 1, f);
        }
    }
    if b.huge {
        for w in HUGE {
            pairs(&mut jobs, format!("few pairs, width {w}"), move || few(w), 2, f);
        }
    }
    // an effect that runs through any number of words, from any word on
    for n in 5..=b.words {
        for w in [64 * n, 64 * n - 27] {
            jobs.push(job(format!("runs of words, width {w}"), move |l| {
                // beyond 20 words a part of the runs and partners
                let hots = reals(word_hots(w).into_iter().step_by(if n <= 20 { 1 } else { 5 }).collect());
                for a in reals(word_runs(w).into_iter().step_by(if n <= 20 { 1 } else { 3 }).collect()) {
                    let inv = (a.0.not(), a.0.not().real());
                    l.states += 2 + 2 * hots.len() as u64;
                    f(l, &a, &a)?;
                    f(l, &a, &inv)?;
                    for h in &hots {
                        f(l, &a, h)?;
                        f(l, h, &a)?;
                    }
                }
                Ok(())
            }));
        }
    }
    for &w in b.shapes {
        pairs(&mut jobs, format!("pairs of shapes, width {w}"), move || shapes(w), 1 + (w as usize) / 400, f);
    }
    for w in [65u32, 100, 127, 128] {
        pairs(&mut jobs, format!("word-tuple pairs, width {w}"), move || tuples(w, 8), 1, f);
    }
    for w in [129u32, 160, 191, 192] {
        pairs(&mut jobs, format!("word-tuple pairs, width {w}"), move || tuples(w, b.tuple3), 2, f);
    }
    for w in [193u32, 230, 255, 256] {
        pairs(&mut jobs, format!("word-tuple pairs, width {w}"), move || tuples(w, b.tuple4), 4, f);
    }
    for w in [257u32, 300, 320] {
        pairs(&mut jobs, format!("word-tuple pairs, width {w}"), move || tuples(w, 3), 2, f);
    }
    for w in b.full + 1..=b.runs_to {
        pairs(&mut jobs, format!("run pairs, width {w}"), move || runs(w), 4, f);
    }
    for &w in b.runs_at {
        pairs(&mut jobs, format!("run pairs, width {w}"), move || runs(w), 32, f);
    }
    jobs
}

fn bin_pair(l: &mut Loc, op: Bin, a: &V, b: &V) -> R {
    l.check(
        || format!("{} a={} b={}", op.name(), a.0.text(), b.0.text()),
        || Ok(check_bin(op, &a.0, &b.0, &a.1, &b.1)?),
    )
}

fn unary_jobs(t: Tier, ops: &'static [Un]) -> Vec<Job> {
    let full_to = if t == Tier::Quick { 14 } else { 18 };
    let mut jobs = vec![];
    for n in 5..=if t == Tier::Quick { 40 } else { 70 } {
        for w in [64 * n, 64 * n - 27] {
            jobs.push(job(format!("unary, runs of words, width {w}"), move |l| {
                let mut ms = word_runs(w);
                ms.extend(word_hots(w));
                for (m, v) in reals(dedup(ms)) {
                    l.states += 1;
                    for &op in ops {
                        l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, &m, &v)?))?;
                    }
                }
                Ok(())
            }));
        }
    }
    let widths: Vec<u32> = (0..=if t == Tier::Quick { 300 } else { 700 }).chain(WIDE).chain(HUGE).collect();
    for w in widths {
        jobs.push(job(format!("unary, width {w}"), move |l| {
            let mut ms = std(w, full_to, 300);
            if w > full_to && w <= 5000 {
                ms.extend(shapes(w).into_iter().flat_map(|m| [m.neg(), m.not()]));
            }
            if w > full_to && w <= 150 {
                ms.extend(runs(w));
                ms = dedup(ms);
            }
            for (m, v) in reals(ms) {
                l.states += 1;
                for &op in ops {
                    l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, &m, &v)?))?;
                }
            }
            Ok(())
        }));
    }
    jobs
}

pub fn c02(t: Tier) -> Vec<Job> {
    let mut jobs = unary_jobs(t, &[Un::Neg]);
    jobs.extend(pair_jobs(bounds(t), |l, a, b| {
        bin_pair(l, Bin::Add, a, b)?;
        bin_pair(l, Bin::Sub, a, b)
    }));
    for w in [1u32, 2, 3, 5, 31, 32, 63, 64, 65, 100, 127, 128, 129, 192, 200] {
        jobs.push(job(format!("operators, width {w}"), move |l| {
            let vs = reals(std(w, 5, 0));
            for a in &vs {
                for b in &vs {
                    l.check(
                        || format!("add a={} b={}", a.0.text(), b.0.text()),
                        || Ok(operators(&a.0, &b.0, &a.1, &b.1)?),
                    )?;
                }
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["arith"]);
    jobs
}

pub fn c03(t: Tier) -> Vec<Job> {
    let mut b = bounds(t);
    if t == Tier::Quick {
        b.edges = 80;
        b.words = 10;
        b.shapes = &SHAPE_WIDTHS[..23];
    } else {
        b.edges = 200;
        b.words = 20;
        b.runs_at = &[64, 65];
    }
    let mut jobs = pair_jobs(b, |l, x, y| bin_pair(l, Bin::Mul, x, y));
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["mul"]);
    jobs
}

pub fn c04(t: Tier) -> Vec<Job> {
    let mut jobs = vec![job("public mask", |l| {
        for n in 1..=64 {
            l.states += 1;
            l.check(|| format!("mask n={n}"), || Ok(mask_case(n)?))?;
        }
        Ok(())
    })];
    jobs.extend(unary_jobs(t, &[Un::Not]));
    let widths: Vec<u32> = (1..=if t == Tier::Quick { 270 } else { 700 }).chain(WIDE).chain(HUGE).collect();
    for w in widths {
        jobs.push(job(format!("single bits, width {w}"), move |l| {
            let ms = if w <= 10 { full(w) } else if w <= 4200 { poscodes(w) } else { vec![M::zero(w), M::ones(w)] };
            let ps: Vec<u32> = if w <= 1100 { (0..w).collect() } else { interesting_positions(w) };
            for m in &ms {
                l.states += 1;
                for &p in &ps {
                    l.check(|| format!("bit a={} pos={p}", m.text()), || Ok(bit(m, p)?))?;
                }
            }
            Ok(())
        }));
    }
    let mut b = bounds(t);
    b.edges = if t == Tier::Quick { 100 } else { 200 };
    jobs.extend(pair_jobs(b, |l, a, b| {
        bin_pair(l, Bin::And, a, b)?;
        bin_pair(l, Bin::Or, a, b)?;
        bin_pair(l, Bin::Xor, a, b)
    }));
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["bitwise", "access"]);
    jobs
}

/// all in-range shift amounts, amounts just above the width, and amounts with one or two bits
/// anywhere in the vector
fn amounts(w: u32) -> Vec<M> {
    let fits = |v: u128| w >= 128 || v >> w == 0;
    let mut o = vec![];
    for v in 0..=(w as u128 + 2) {
        if fits(v) {
            o.push(M::of_u128(v, w));
        }
    }
    for k in 0..w {
        let p = M::one_hot(w, k);
        for small in [0u128, 1, (w / 2) as u128, 63, 64, w as u128 - 1] {
            if fits(small) {
                o.push(p.or(&M::of_u128(small, w)));
            }
        }
    }
    // two words above the lowest one that would cancel each other out in a sum or an exclusive or
    let n = w.div_ceil(64) as usize;
    for i in 1..n {
        for j in i + 1..n {
            for (x, y) in [(1 << 63, 1 << 63), (u64::MAX, 1), (1, u64::MAX), (1, 1), (1 << 32, 1 << 32)] {
                for small in [0u64, 1, 64] {
                    let mut ws = vec![0; n];
                    (ws[0], ws[i], ws[j]) = (small, x, y);
                    o.push(M::of_words(&ws, w));
                }
            }
        }
    }
    o.push(M::ones(w));
    o.push(M::one_hot(w, w - 1).not());
    dedup(o)
}

const SHIFTS: [Bin; 3] = [Bin::Shl, Bin::Shr, Bin::Sar];

pub fn c05(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let full_to = if t == Tier::Quick { 8 } else { 11 };
    for w in 0..=full_to {
        pairs(&mut jobs, format!("all values and amounts, width {w}"), move || full(w), if w >= 9 { 8 } else { 1 }, |l, a, b| {
            for op in SHIFTS {
                bin_pair(l, op, a, b)?;
            }
            Ok(())
        });
    }
    let dense = if t == Tier::Quick { 200 } else { 400 };
    let widths: Vec<u32> = (full_to + 1..=dense).chain(WIDE.into_iter().filter(|w| *w > dense)).collect();
    for w in widths {
        jobs.push(job(format!("all amounts, width {w}"), move |l| {
            let mut ms = poscodes(w);
            if w <= 1100 {
                ms.extend(patterns(w));
            }
            if t == Tier::Thorough && w <= 200 {
                ms.extend(edges(w));
            } else if w <= 140 {
                ms.extend(edges_sparse(w));
            }
            let vs = reals(dedup(ms));
            let am = if w <= 700 {
                amounts(w)
            } else {
                let mut a: Vec<M> = amounts(w).into_iter().filter(|a| a.amount() == usize::MAX || a.amount() > w as usize).step_by(17).collect();
                a.extend(interesting_positions(w).into_iter().map(|p| M::of_u64(p as u64, w)));
                a.extend([w as u64, w as u64 + 1].map(|p| M::of_u64(p, w)));
                dedup(a)
            };
            for b in &reals(am) {
                for a in &vs {
                    l.states += 1;
                    for op in SHIFTS {
                        bin_pair(l, op, a, b)?;
                    }
                }
            }
            // shapes, shifted by what is near a boundary and by each other
            let sh = reals(shapes(w));
            let mut am: Vec<M> = interesting_positions(w).into_iter().map(|p| M::of_u64(p as u64, w)).collect();
            am.extend([0, 5, 17, 59, 60, 61].into_iter().filter(|k| w >= 64 && *k < w as u64).map(|p| M::of_u64(p, w)));
            am.extend([M::ones(w), M::one_hot(w, w - 1).not(), M::one_hot(w, 0).not()]);
            for b in reals(dedup(am)).iter().chain(sh.iter().step_by(if w % 8 < 2 { 1 } else { 5 })) {
                for a in &sh {
                    l.states += 1;
                    for op in SHIFTS {
                        bin_pair(l, op, a, b)?;
                    }
                }
            }
            Ok(())
        }));
    }
    for w in HUGE {
        jobs.push(job(format!("few amounts, width {w}"), move |l| {
            let vs = reals(few(w));
            let mut am: Vec<M> = interesting_positions(w).into_iter().step_by(2).map(|p| M::of_u64(p as u64, w)).collect();
            am.push(M::of_u64(w as u64, w));
            am.push(M::one_hot(w, w - 1));
            for b in &reals(am) {
                for a in &vs {
                    l.states += 1;
                    for op in SHIFTS {
                        bin_pair(l, op, a, b)?;
                    }
                }
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["shift", "overshift"]);
    jobs
}

fn preds_pair(l: &mut Loc, a: &V, b: &V) -> R {
    l.check(
        || format!("preds a={} b={}", a.0.text(), b.0.text()),
        || Ok(check_preds(&a.0, &b.0, &a.1, &b.1)?),
    )
}

pub fn c06(t: Tier) -> Vec<Job> {
    let mut jobs = pair_jobs(bounds(t), preds_pair);
    // values that differ in exactly one bit, at every position
    let widths: Vec<u32> = (9..=if t == Tier::Quick { 260 } else { 520 }).chain(WIDE).collect();
    for w in widths {
        jobs.push(job(format!("one-bit neighbours, width {w}"), move |l| {
            let mut ms = poscodes(w);
            ms.extend(patterns(w));
            for m in dedup(ms) {
                let a = (m.clone(), m.real());
                l.states += 1;
                preds_pair(l, &a, &a)?;
                for i in 0..w {
                    let n = m.with_bit(i, !m.bit(i));
                    let b = (n.clone(), n.real());
                    l.states += 1;
                    preds_pair(l, &a, &b)?;
                    preds_pair(l, &b, &a)?;
                }
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["compare"]);
    jobs
}

pub fn c07(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let full_to = if t == Tier::Quick { 9 } else { 11 };
    let dense = if t == Tier::Quick { 140 } else { 260 };
    for w in 1..=dense {
        jobs.push(job(format!("all slices, width {w}"), move |l| {
            let vs = reals(if w <= full_to { full(w) } else {
                let mut p = poscodes(w);
                p.extend(patterns(w).into_iter().rev().take(3));
                dedup(p)
            });
            if w > full_to {
                let ps = interesting_positions(w);
                for (m, v) in &reals(shapes(w)) {
                    for &hi in &ps {
                        for &lo in ps.iter().filter(|x| **x <= hi) {
                            l.states += 1;
                            let op = Un::Slice(hi, lo);
                            l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, m, v)?))?;
                        }
                    }
                }
            }
            for hi in 0..w {
                for lo in 0..=hi {
                    for (m, v) in &vs {
                        l.states += 1;
                        let op = Un::Slice(hi, lo);
                        l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, m, v)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    for w in (dense + 1..=dense + 140).chain(WIDE).chain(HUGE) {
        jobs.push(job(format!("boundary slices, width {w}"), move |l| {
            let vs = reals(if w < 5000 {
                let mut p = poscodes(w);
                p.extend(shapes(w).into_iter().step_by(if w < 700 { 1 } else { 4 }));
                dedup(p)
            } else { few(w) });
            let ps = interesting_positions(w);
            for &hi in &ps {
                for &lo in ps.iter().filter(|x| **x <= hi) {
                    for (m, v) in &vs {
                        l.states += 1;
                        let op = Un::Slice(hi, lo);
                        l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, m, v)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // extensions
    for w in 0..=dense {
        jobs.push(job(format!("all extensions, width {w}"), move |l| {
            let vs = reals(if w <= full_to { full(w) } else { let mut p = poscodes(w); p.extend(edges_sparse(w)); p.extend(shapes(w)); dedup(p) });
            let bys: Vec<u32> = (0..=dense + 2).chain([191, 192, 193, 255, 256, 257, 500, 512, 1000]).collect();
            for (m, v) in &vs {
                for &by in &bys {
                    l.states += 1;
                    for op in [Un::Zext(by), Un::Sext(by)] {
                        l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, m, v)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    for w in WIDE.into_iter().chain(HUGE) {
        jobs.push(job(format!("extensions, width {w}"), move |l| {
            let mut ms = few(w);
            if w < 5000 {
                ms.extend(shapes(w));
            }
            for (m, v) in &reals(dedup(ms)) {
                for by in [0u32, 1, 2, 31, 63, 64, 65, 127, 128, 129, 1000, 2048, 4096, 4097, 8191, 8193, 16384, 30_000, 65536] {
                    l.states += 1;
                    for op in [Un::Zext(by), Un::Sext(by)] {
                        l.check(|| format!("{} a={}", op.text(), m.text()), || Ok(check_un(op, m, v)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // concatenations
    let cat = |l: &mut Loc, a: &V, b: &V| -> R {
        l.states += 1;
        l.check(
            || format!("concat a={} b={}", a.0.text(), b.0.text()),
            || Ok(concat(&a.0, &b.0, &a.1, &b.1)?),
        )
    };
    let small = if t == Tier::Quick { 5 } else { 6 };
    for wa in 0..=dense {
        jobs.push(job(format!("all concatenations, high width {wa}"), move |l| {
            for wb in 0..=dense {
                let (pa, pb) = if wa <= small && wb <= small {
                    (reals(full(wa)), reals(full(wb)))
                } else {
                    (reals(poscodes(wa)), reals(poscodes(wb)))
                };
                let all = pa.len() * pb.len() <= 150 || (wa <= small && wb <= small) || t == Tier::Thorough;
                for (i, a) in pa.iter().enumerate() {
                    for (j, b) in pb.iter().enumerate() {
                        if all || i < 4 || j < 4 || i == j {
                            cat(l, a, b)?;
                        }
                    }
                }
                let (a, b) = (&pa[pa.len() / 2], &pb[pb.len() / 2]);
                l.check(|| format!("parts a={} b={}", a.0.text(), b.0.text()), || Ok(parts(&a.0, &b.0)?))?;
            }
            Ok(())
        }));
    }
    const SOME: [u32; 25] = [0, 1, 2, 31, 32, 63, 64, 65, 100, 127, 128, 129, 192, 200, 256, 300, 320, 384, 500, 577, 640, 1024, 1100, 1280, 2700];
    for wa in SOME {
        jobs.push(job(format!("concatenations of shapes, high width {wa}"), move |l| {
            for wb in SOME {
                let (pa, pb) = (reals(shapes(wa)), reals(shapes(wb)));
                for a in &pa {
                    for b in pb.iter().take(2).chain(pb.iter().rev().take(2)).chain(pb.get(pb.len() / 2)) {
                        cat(l, a, b)?;
                    }
                }
                for b in &pb {
                    for a in pa.iter().take(2).chain(pa.iter().rev().take(2)).chain(pa.get(pa.len() / 2)) {
                        cat(l, a, b)?;
                    }
                }
            }
            Ok(())
        }));
    }
    for wa in [0u32, 1, 2, 31, 63, 64, 65, 127, 128, 129].into_iter().chain(WIDE).chain(HUGE) {
        jobs.push(job(format!("wide concatenations, high width {wa}"), move |l| {
            for wb in [0u32, 1, 2, 33, 63, 64, 65, 127, 128, 129].into_iter().chain(WIDE).chain([16385, 65537]) {
                if wa + wb <= 280 {
                    continue;
                }
                let big = wa > 5000 || wb > 5000;
                let pa = reals(few(wa).into_iter().take(if big { 4 } else { 16 }).collect());
                let pb = reals(few(wb).into_iter().rev().take(if big { 4 } else { 16 }).collect());
                for a in &pa {
                    for b in &pb {
                        cat(l, a, b)?;
                    }
                }
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["slice", "extend"]);
    jobs
}
