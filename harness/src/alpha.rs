//! Finite value alphabets per width, simplest values first.
use crate::engine::splitmix;
use crate::model::M;
use baa::BitVecValue;
use std::collections::HashSet;

pub fn dedup(v: Vec<M>) -> Vec<M> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|m| seen.insert(m.clone())).collect()
}

/// every value of the width
pub fn full(w: u32) -> Vec<M> {
    assert!(w <= 20);
    (0..1u64 << w).map(|v| M::of_u64(v, w)).collect()
}

fn repeat(w: u32, f: impl Fn(u32) -> bool) -> M {
    M((0..w).map(f).collect())
}

/// stripes, and fixed scrambled constants
pub fn patterns(w: u32) -> Vec<M> {
    let mut o = vec![];
    for p in [1u32, 2, 4, 8, 16, 32, 64] {
        if p < w.max(2) {
            let m = repeat(w, |i| (i / p) % 2 == 0);
            o.push(m.not());
            o.push(m);
        }
    }
    for s in 0..6u64 {
        let mut x = 0xbaa0 + s * 7919;
        let ws: Vec<u64> = (0..w.div_ceil(64)).map(|_| splitmix(&mut x)).collect();
        o.push(M::of_words(&ws, w));
    }
    o
}

/// `positions` as one-hot, one-cold, low mask, high mask, mask-plus-top ...
fn at(w: u32, positions: impl Iterator<Item = u32>) -> Vec<M> {
    let mut o = vec![M::zero(w), M::ones(w)];
    for i in positions {
        let hot = M::one_hot(w, i);
        let low = repeat(w, |k| k < i);
        o.push(hot.not());
        o.push(low.not());
        o.push(low);
        o.push(hot);
    }
    o
}

pub fn interesting_positions(w: u32) -> Vec<u32> {
    let mut p: Vec<u32> = vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 255, 256];
    for d in [1u32, 2, 3, 4, 5, 63, 64, 65, 66, 127, 128, 129] {
        if w >= d {
            p.push(w - d);
        }
    }
    p.push(w / 2);
    p.push(w / 64 * 64);
    p.push((w / 64 * 64).saturating_sub(1));
    p.retain(|x| *x < w);
    p.sort();
    p.dedup();
    p
}

/// one-hot / one-cold / low / high masks at every position, plus patterns
pub fn edges(w: u32) -> Vec<M> {
    let mut o = at(w, 0..w);
    o.extend(patterns(w));
    dedup(o)
}

/// the same at positions near word and width boundaries only
pub fn edges_sparse(w: u32) -> Vec<M> {
    let mut o = at(w, interesting_positions(w).into_iter());
    o.extend(patterns(w));
    dedup(o)
}

/// a handful of values for very wide vectors
pub fn few(w: u32) -> Vec<M> {
    if w == 0 {
        return full(0);
    }
    let mut o = at(w, [0, w / 2, w - 1, w / 64 * 64 % w, 63 % w, 64 % w].into_iter());
    o.truncate(16);
    o.extend(patterns(w).into_iter().rev().take(3));
    dedup(o)
}

/// every contiguous run of ones and its complement
pub fn runs(w: u32) -> Vec<M> {
    let mut o = vec![];
    for i in 0..w {
        for j in i + 1..=w {
            let m = repeat(w, |k| k >= i && k < j);
            o.push(m.not());
            o.push(m);
        }
    }
    dedup(o)
}

pub const SIGMA: [u64; 8] = [
    0,
    1,
    u64::MAX,
    1 << 63,
    u64::MAX - 1,
    (1 << 63) - 1,
    1 << 32,
    (1 << 32) - 1,
];

/// every combination of the first `k` letters of SIGMA over the words of the width
pub fn tuples(w: u32, k: usize) -> Vec<M> {
    let n = w.div_ceil(64) as usize;
    let total = k.pow(n as u32);
    let mut o = vec![];
    for mut c in 0..total {
        let ws: Vec<u64> = (0..n)
            .map(|_| {
                let d = SIGMA[c % k];
                c /= k;
                d
            })
            .collect();
        o.push(M::of_words(&ws, w));
    }
    dedup(o)
}

/// Position codes: bit i of the k-th value is bit k of i. A function that only moves bits around
/// is identified completely by its results on these (plus zero and all-ones).
pub fn poscodes(w: u32) -> Vec<M> {
    if w == 0 {
        return full(0);
    }
    let mut o = vec![M::zero(w), M::ones(w)];
    let mut k = 0;
    while k == 0 || (1u32 << k) < w {
        let m = repeat(w, |i| (i >> k) & 1 == 1);
        o.push(m.not());
        o.push(m);
        k += 1;
    }
    let top = M::one_hot(w, w - 1);
    o.push(top.not());
    o.push(top);
    dedup(o)
}

/// the default alphabet: everything if the width is small enough
pub fn std(w: u32, full_to: u32, edges_to: u32) -> Vec<M> {
    if w <= full_to {
        full(w)
    } else if w <= edges_to {
        let mut o = edges(w);
        o.extend(shapes(w));
        dedup(o)
    } else if w <= 5000 {
        let mut o = edges_sparse(w);
        o.extend(shapes(w));
        dedup(o)
    } else {
        few(w)
    }
}

/// words `i..j` are `x`, the others `y`, for every run of words
pub fn word_runs(w: u32) -> Vec<M> {
    let n = w.div_ceil(64) as usize;
    let mut o = vec![];
    for (x, y) in [(u64::MAX, 0), (0, u64::MAX), (1 << 63, 0), (1, 0)] {
        for i in 0..n {
            for j in i + 1..=n {
                o.push(M::of_words(&(0..n).map(|k| if k >= i && k < j { x } else { y }).collect::<Vec<_>>(), w));
            }
        }
    }
    dedup(o)
}

/// one word is `x`, the others `y`, at every position
pub fn word_hots(w: u32) -> Vec<M> {
    let n = w.div_ceil(64) as usize;
    let mut o = vec![];
    for (x, y) in [(1, 0), (u64::MAX, 0), (1 << 63, 0), (u64::MAX - 1, u64::MAX), (1 << 40, 0)] {
        for i in 0..n {
            o.push(M::of_words(&(0..n).map(|k| if k == i { x } else { y }).collect::<Vec<_>>(), w));
        }
    }
    dedup(o)
}

pub type V = (M, BitVecValue);
pub fn reals(ms: Vec<M>) -> Vec<V> {
    ms.into_iter()
        .map(|m| {
            let v = m.real();
            (m, v)
        })
        .collect()
}

/// widths beyond the dense range: word boundaries and large sizes
pub const WIDE: [u32; 33] = [
    255, 256, 257, 319, 320, 321, 383, 384, 385, 448, 449, 511, 512, 513, 577, 639, 640, 641, 704, 705, 769, 832, 833, 897, 961, 1000, 1023, 1024, 1025, 1217, 2047, 2048, 4097,
];
pub const HUGE: [u32; 4] = [16385, 65535, 65537, 100_003];

/// Values that differ in the structure of their words rather than in single bits: constant words,
/// ramps, alternations, palindromes, words that cancel out, a lone word among zeros or among
/// scrambled ones, half words, two or three bits far apart, small numbers near the width.
pub fn shapes(w: u32) -> Vec<M> {
    if w == 0 {
        return full(0);
    }
    let n = w.div_ceil(64) as usize;
    let mut x = 0x5aa5 + w as u64;
    let scr: Vec<u64> = (0..n).map(|_| splitmix(&mut x)).collect();
    let mut o = vec![];
    let mut put = |f: &dyn Fn(usize) -> u64| o.push(M::of_words(&(0..n).map(f).collect::<Vec<_>>(), w));
    for c in [1, 1 << 63, (1 << 63) | 1, 1 << 32, (1 << 32) - 1, !0 << 32, 0x0123_4567_89ab_cdef, !0 / 3, !0 / 3 * 2, 0xff, !0xff, 0xffff, 1 << 31] {
        put(&|_| c);
    }
    put(&|i| i as u64 + 1);
    put(&|i| (n - i) as u64);
    put(&|i| (i as u64 + 1) << 52);
    put(&|i| ((n - i) as u64) << 52);
    put(&|i| scr[i.min(n - 1 - i)]);
    for (c, d) in [(0, !0), (0, 1), (1, 1 << 63), (0, 1 << 63), (0, 0x1357), (0, 0x1357 << 32)] {
        put(&|i| if i % 2 == 0 { c } else { d });
        put(&|i| if i % 2 == 0 { d } else { c });
    }
    let (xor, sum) = (scr[1..].iter().fold(0, |a, b| a ^ b), scr[1..].iter().fold(0u64, |a, b| a.wrapping_add(*b)));
    if n > 2 {
        // the top word is cut off, so keep it out of the sums
        let cut = |i: usize| if i + 1 == n { 0 } else { scr[i] };
        put(&|i| if i == 0 { xor ^ scr[n - 1] } else { cut(i) });
        put(&|i| if i == 0 { 0u64.wrapping_sub(sum.wrapping_sub(scr[n - 1])) } else { cut(i) });
    }
    let mut at = vec![0, 1, 2, n / 2, n.saturating_sub(2), n - 1];
    at.retain(|p| *p < n);
    at.sort();
    at.dedup();
    for &p in &at {
        for c in [scr[p], 1, 1 << 63, 0x1234_5678, 0x1234_5678 << 32, 0xfedc_ba98, 0x1234 << 16] {
            put(&|i| if i == p { c } else { 0 });
        }
        for c in [0, !0, 1, 1 << 63] {
            put(&|i| if i == p { c } else { scr[i] });
        }
    }
    let mut bits = vec![0, 1, 63, 64, 65, 127, 128, w / 2, w.saturating_sub(65), w.saturating_sub(64), w.saturating_sub(2), w - 1];
    bits.retain(|p| *p < w);
    bits.sort();
    bits.dedup();
    for (k, &i) in bits.iter().enumerate() {
        for &j in &bits[k + 1..] {
            let two = M::one_hot(w, i).with_bit(j, true);
            if i == 0 || j == w - 1 || i + 1 == j {
                o.push(two.not());
                o.push(two.with_bit(w / 3, true));
            }
            o.push(two);
        }
    }
    for v in [w as u64 - 1, w as u64, w as u64 + 1, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536] {
        if w >= 64 || v >> w == 0 {
            o.push(M::of_u64(v, w));
        }
    }
    dedup(o)
}
