//! C15 equality / hashing / ordering, C23 independence of how operands are held.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{eq, same, M};
use crate::ops::*;
use baa::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub fn replay(c: &Case) -> Result<(), Fail> {
    match c.op.as_str() {
        "pair" => {
            pair(&c.m("a"), &c.m("b"))?;
        }
        "triple" => {
            triple(&c.m("a"), &c.m("b"), &c.m("c"))?;
        }
        "history" => {
            histories(&c.m("a"))?;
        }
        "maps" => {
            maps(&list(c.s("keys")), &list(c.s("probes")))?;
        }
        "borrowed" => {
            borrowed(&list(c.s("keys")), &list(c.s("probes")))?;
        }
        "held" => {
            held(&c.m("a"), &c.m("b"), c.u("ha"), c.u("hb"))?;
        }
        "alone" => {
            alone(&c.m("a"), c.u("ha"))?;
        }
        "cat" => {
            cat(&c.m("a"), &c.m("b"), c.u("ha"), c.u("hb"))?;
        }
        "aliased" => {
            aliased(&c.m("a"))?;
        }
        "flip" => {
            let m = c.m("a");
            flip(&m.real(), &m, c.u("at"))?;
        }
        "views" => {
            views(c.u("pat"), (c.u("oa"), c.u("wa")), (c.u("ob"), c.u("wb")))?;
        }
        "viewops" => {
            view_ops(c.u("pat"), (c.u("oa"), c.u("wa")), (c.u("ob"), c.u("wb")))?;
        }
        o => panic!("unknown trace op {o}"),
    }
    Ok(())
}

fn list(s: &str) -> Vec<M> {
    s.split(',').filter(|x| !x.is_empty()).map(M::parse).collect()
}
fn unlist(v: &[M]) -> String {
    v.iter().map(|m| m.text()).collect::<Vec<_>>().join(",")
}

// ------------------------------------------------------------------------------------------ C15

/// Records everything that is fed to it: equal recordings hash equally under any hasher that is a
/// function of the written data, or that (like the popular fast ones) works in rounds of one
/// integer each, long byte strings being eight bytes a round.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>, Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.1.iter().fold(0, |h, b| fnv(h, *b))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.1.extend(b.chunks(8).map(|c| c.iter().rev().fold(0, |x, b| x << 8 | *b as u64)));
    }
}
fn rec(v: &impl Hash) -> Rec {
    let mut r = Rec::default();
    v.hash(&mut r);
    r
}
fn sip(v: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn pair(a: &M, b: &M) -> Result<u64, String> {
    let (mut oa, mut ob) = (a.real(), b.real());
    let exp = a == b;
    {
        let (ra, rb) = (BitVecValueRef::from(&oa), BitVecValueRef::from(&ob));
        eq("owned == owned", oa == ob, exp)?;
        eq("owned == ref", oa == rb, exp)?;
        eq("ref == owned", ra == ob, exp)?;
        eq("ref == ref", ra == rb, exp)?;
        eq("owned != owned", oa != ob, !exp)?;
        eq("ref != owned", ra != ob, !exp)?;
        if exp {
            eq("hash of equal owned", rec(&oa), rec(&ob))?;
            eq("hash of equal owned / ref", rec(&oa), rec(&rb))?;
            eq("default hash of equal ref / owned", sip(&ra), sip(&ob))?;
            eq("hash of equal refs", rec(&ra), rec(&rb))?;
        }
        let (ab, ba) = (oa.cmp(&ob), ob.cmp(&oa));
        eq("cmp is Equal", ab == Ordering::Equal, exp)?;
        eq("cmp of swapped operands", ba, ab.reverse())?;
        eq("partial_cmp", oa.partial_cmp(&ob), Some(ab))?;
        eq("<", oa < ob, ab == Ordering::Less)?;
    }
    let mb = BitVecValueMutRef::from(&mut ob);
    eq("owned == mut ref", oa == mb, exp)?;
    eq("ref == mut ref", BitVecValueRef::from(&oa) == mb, exp)?;
    let _ = BitVecValueMutRef::from(&mut oa);
    Ok(exp as u64)
}

/// A store without unused bits for many placements: small words, zeros, repetitions.
fn view_store(pat: u32) -> Vec<u64> {
    match pat {
        0 => vec![0; 8],
        1 => vec![5; 8],
        2 => vec![5, 0, 5, 0, 0, 5, 0, 0],
        3 => vec![u64::MAX, 1, u64::MAX, 0, u64::MAX, 1, u64::MAX, u64::MAX],
        4 => vec![1, 2, 3, 1, 2, 3, 1, 2],
        _ => vec![1 << 63, 1 << 63, 1, 0, 1 << 63, 0, 1, 1 << 63],
    }
}
const VIEW_PATS: u32 = 6;

/// the value at a placement, unless the store has bits there that the value must not have
fn view_at(store: &[u64], (off, w): (u32, u32)) -> Option<M> {
    let ws = store.get(off as usize..(off + w.div_ceil(64)) as usize)?;
    let ok = w % 64 == 0 || ws.last()? >> (w % 64) == 0;
    ok.then(|| M::of_words(ws, w))
}

/// two views into the same store, which may share words: equality and hashing
fn views(pat: u32, a: (u32, u32), b: (u32, u32)) -> Result<u64, String> {
    let store = view_store(pat);
    let (ma, mb) = (view_at(&store, a).unwrap(), view_at(&store, b).unwrap());
    let (ia, ib) = (BitVecValueIndex::new(a.0, a.1), BitVecValueIndex::new(b.0, b.1));
    let exp = ma == mb;
    let (ra, rb): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((ia, ib));
    let (oa, ob) = (BitVecValue::from(ra), BitVecValue::from(rb));
    eq("view == view", ra == rb, exp)?;
    eq("view != view", ra != rb, !exp)?;
    eq("view == owned", ra == ob, exp)?;
    eq("owned == view", oa == rb, exp)?;
    eq("owned == owned", oa == ob, exp)?;
    if exp {
        eq("hash of equal views", rec(&ra), rec(&rb))?;
        eq("hash of an equal view and owned value", rec(&ra), rec(&ob))?;
    }
    eq("a set of views finds the view", [ra].into_iter().collect::<HashSet<BitVecValueRef>>().contains(&rb), exp)?;
    let mut other = store.clone();
    let mb: BitVecValueMutRef = other.as_mut_slice().get_mut_ref(ib);
    eq("view == mutable view", ra == mb, exp)?;
    eq("owned == mutable view", oa == mb, exp)?;
    Ok(exp as u64)
}

/// operations on two views into the same store, which may share words
fn view_ops(pat: u32, a: (u32, u32), b: (u32, u32)) -> Result<u64, String> {
    let store = view_store(pat);
    let (ma, mb) = (view_at(&store, a).unwrap(), view_at(&store, b).unwrap());
    let (ia, ib) = (BitVecValueIndex::new(a.0, a.1), BitVecValueIndex::new(b.0, b.1));
    let (ra, rb): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((ia, ib));
    let mut h = 1;
    if a.1 == b.1 {
        h = bin_all(&ra, &rb, &ma, &mb)?;
    }
    let c = ra.concat(&rb);
    same(&c, &ma.concat(&mb)).map_err(|e| format!("concat: {e}"))?;
    same(&ra, &ma).map_err(|e| format!("operand: {e}"))?;
    same(&rb, &mb).map_err(|e| format!("operand: {e}"))?;
    Ok(fnv(h, fp(&c)))
}

fn triple(a: &M, b: &M, c: &M) -> Result<u64, String> {
    triple_real(&a.real(), &b.real(), &c.real())
}
fn triple_real(a: &BitVecValue, b: &BitVecValue, c: &BitVecValue) -> Result<u64, String> {
    if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
        return Err("a <= b and b <= c but a > c".into());
    }
    Ok(a.cmp(c) as i8 as u64)
}

/// the same value produced along different ways
fn ways(m: &M) -> Vec<(&'static str, BitVecValue)> {
    let v = m.real();
    let w = m.w();
    let mut o = vec![("clone", v.clone()), ("ref", BitVecValue::from(BitVecValueRef::from(&v)))];
    // out of a much larger value, and out of a smaller one
    let wide = M::ones(200).real().concat(&v);
    if w > 0 {
        o.push(("slice of a wide value", wide.slice(w - 1, 0)));
    }
    if w > 1 {
        o.push(("concat", v.slice(w - 1, w / 2).concat(&v.slice(w / 2 - if w / 2 > 0 { 1 } else { 0 }, 0))));
        o.last_mut().unwrap().0 = if w / 2 > 0 { "concat" } else { "clone" };
        if w / 2 == 0 {
            o.pop();
        }
    }
    o.push(("double not", v.not().not()));
    o.push(("double negate", v.negate().negate()));
    o.push(("add then sub", v.add(&BitVecValue::ones(w)).sub(&BitVecValue::ones(w))));
    let mut x = BitVecValue::ones(w);
    x.assign(&v);
    o.push(("assign", x));
    o.push(("bytes", BitVecValue::from_bytes_le(&v.to_bytes_le(), w)));
    o.push(("bits", BitVecValue::from_bit_str(&v.to_bit_str()).unwrap()));
    o.push(("big integer", BitVecValue::from_big_int(&v.to_big_int(), w)));
    o.push(("bincode", bincode::deserialize(&bincode::serialize(&v).unwrap()).unwrap()));
    o.push(("json", serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap()));
    let mut store = vec![0u64; 16];
    if w <= 512 {
        store.as_mut_slice().get_mut_ref(BitVecValueIndex::new(3, w)).assign(&v);
        o.push(("store", BitVecValue::from(store.as_slice().get_ref(BitVecValueIndex::new(3, w)))));
    }
    let mut arr = ArrayValue::new_sparse(2, &v);
    o.push(("sparse array default", arr.select(&BitVecValue::zero(2))));
    arr.make_dense();
    o.push(("dense array", arr.select(&BitVecValue::zero(2))));
    let mut i = ValueInterner::new();
    let ix = i.get_index(&v);
    o.push(("interner", BitVecValue::from(i.words().get_ref(ix))));
    o
}

fn histories(m: &M) -> Result<u64, String> {
    let all = ways(m);
    for (na, a) in &all {
        same(a, m).map_err(|e| format!("{na}: {e}"))?;
        for (nb, b) in &all {
            if !(a == b) || a != b || a.cmp(b) != Ordering::Equal {
                return Err(format!("{na} and {nb} are not equal"));
            }
            if rec(a) != rec(b) || rec(a) != rec(&BitVecValueRef::from(b)) {
                return Err(format!("{na} and {nb} hash differently"));
            }
            let h: HashSet<&BitVecValue> = [a].into_iter().collect();
            if !h.contains(b) {
                return Err(format!("a set with {na} does not contain {nb}"));
            }
        }
    }
    Ok(fp(&all[0].1))
}

/// maps keyed by owned values, filled in the given order, every second key removed again at the end
fn maps(keys: &[M], probes: &[M]) -> Result<u64, String> {
    let mut h = HashMap::new();
    let mut b = BTreeMap::new();
    let mut model: Vec<(M, usize)> = vec![];
    for (n, k) in keys.iter().enumerate() {
        let exp = model.iter().position(|x| x.0 == *k).map(|i| std::mem::replace(&mut model[i].1, n));
        if exp.is_none() {
            model.push((k.clone(), n));
        }
        eq("HashMap::insert", h.insert(k.real(), n), exp)?;
        eq("BTreeMap::insert", b.insert(k.real(), n), exp)?;
    }
    for round in 0..2 {
        for p in probes {
            let exp = model.iter().find(|x| x.0 == *p).map(|x| x.1);
            let v = p.real();
            eq("HashMap::get", h.get(&v).copied(), exp)?;
            eq("BTreeMap::get", b.get(&v).copied(), exp)?;
        }
        eq("HashMap::len", h.len(), model.len())?;
        eq("BTreeMap::len", b.len(), model.len())?;
        if round == 0 {
            let gone: Vec<(M, usize)> = model.iter().step_by(2).cloned().collect();
            model.retain(|x| !gone.contains(x));
            for (k, n) in gone {
                eq("HashMap::remove", h.remove(&k.real()), Some(n))?;
                eq("BTreeMap::remove", b.remove(&k.real()), Some(n))?;
            }
        }
    }
    Ok(keys.len() as u64 + 10 * model.len() as u64)
}

const BORROW: &str = "C15:lookup-by-borrowed-key";

/// looking up by a borrowed key
fn borrowed(keys: &[M], probes: &[M]) -> Result<u64, Fail> {
    let mut h = HashMap::new();
    for (n, k) in keys.iter().enumerate() {
        h.insert(k.real(), n);
    }
    for p in probes {
        let exp = keys.iter().rposition(|x| x == p);
        let v = p.real();
        let r = BitVecValueRef::from(&v);
        match catch(|| h.get(&r).copied()) {
            Ok(got) => eq("HashMap::get of a borrowed key", got, exp)?,
            Err(e) if e.starts_with("not yet implemented") || e.starts_with("not implemented") => {
                return Err(Fail::K(BORROW, format!("HashMap<BitVecValue, _>::get(&BitVecValueRef) panicked: {e}")))
            }
            Err(e) => return Err(Fail::V(format!("HashMap::get of a borrowed key panicked: {e}"))),
        }
    }
    Ok(keys.len() as u64)
}

/// values that coincide in words or in value, but not in width
fn confusable() -> Vec<M> {
    let mut o = vec![];
    for w in [1u32, 2, 8, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193] {
        for v in [0u128, 1, 2, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, u128::MAX] {
            o.push(M::of_u128(v, w));
        }
        o.push(M::ones(w));
        o.push(M::one_hot(w, w - 1));
    }
    dedup(o)
}

pub fn c15(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let chk = |l: &mut Loc, a: &M, b: &M| l.check(|| format!("pair a={} b={}", a.text(), b.text()), || Ok(pair(a, b)?));
    jobs.push(job("all pairs of widths up to 7 (values up to 32 for the widest)", move |l| {
        let all: Vec<M> = (0..=7).flat_map(|w| full(w).into_iter().take(if w == 7 { 32 } else { 64 })).collect();
        for a in &all {
            for b in &all {
                l.states += 1;
                chk(l, a, b)?;
            }
        }
        Ok(())
    }));
    jobs.push(job("zero width", move |l| {
        let all = [M::zero(0), M::zero(1), M::ones(1), M::zero(64), M::zero(65)];
        for a in &all {
            for b in &all {
                l.states += 1;
                chk(l, a, b)?;
            }
        }
        Ok(())
    }));
    jobs.push(job("pairs of equal words or values at different widths", move |l| {
        let all = confusable();
        for a in &all {
            for b in &all {
                l.states += 1;
                chk(l, a, b)?;
            }
        }
        Ok(())
    }));
    for w in (8..=if t == Tier::Quick { 260 } else { 520 }).chain(WIDE) {
        jobs.push(job(format!("one-bit neighbours and adjacent widths, width {w}"), move |l| {
            let mut ms = poscodes(w);
            ms.extend(patterns(w).into_iter().rev().take(4));
            for m in dedup(ms) {
                l.states += 1;
                chk(l, &m, &m)?;
                for i in 0..w {
                    let n = m.with_bit(i, !m.bit(i));
                    l.states += 1;
                    chk(l, &m, &n)?;
                }
                for by in [1, 2, 63, 64] {
                    l.states += 1;
                    chk(l, &m, &m.zext(by))?;
                    chk(l, &m.sext(by), &m)?;
                }
            }
            Ok(())
        }));
    }
    // one bit in every word of a long value
    for w in [4097u32, 8256, 10_176, 16_385, 19_200, 65_537, 100_003].into_iter().chain(if t == Tier::Quick { vec![] } else { vec![262_145, 1_000_003] }) {
        jobs.push(job(format!("one bit changed in every word, width {w}"), move |l| {
            let base = shapes(w).swap_remove(17);
            let mut ms = vec![M::zero(w), base];
            if t != Tier::Quick || w < 60_000 {
                ms.push(M::ones(w));
            }
            for m in ms {
                let a = m.real();
                for i in 0..w / 64 {
                    let at = i * 64 + (i * 29) % 64;
                    l.states += 1;
                    l.check(|| format!("flip a={} at={at}", m.text()), || Ok(flip(&a, &m, at)?))?;
                }
                let at = w - 1;
                l.check(|| format!("flip a={} at={at}", m.text()), || Ok(flip(&a, &m, at)?))?;
            }
            Ok(())
        }));
    }
    for pat in 0..VIEW_PATS {
        jobs.push(job(format!("all pairs of views into one store, pattern {pat}"), move |l| {
            let store = view_store(pat);
            let top = if t == Tier::Quick { 200 } else { 330 };
            let all: Vec<(u32, u32)> =
                (0..6).flat_map(|o| (0..=top).map(move |w| (o, w))).filter(|p| view_at(&store, *p).is_some()).collect();
            for a in &all {
                for b in &all {
                    // far apart and of clearly different widths: nothing new
                    if t == Tier::Quick && a.0 != b.0 && a.1.abs_diff(b.1) > 2 && a.1 % 64 > 1 && b.1 % 64 > 1 {
                        continue;
                    }
                    l.states += 1;
                    l.check(|| format!("views pat={pat} oa={} wa={} ob={} wb={}", a.0, a.1, b.0, b.1), || Ok(views(pat, *a, *b)?))?;
                }
            }
            Ok(())
        }));
    }
    for w in [64u32, 65, 100, 128, 129, 192] {
        jobs.push(job(format!("edge pairs, width {w}"), move |l| {
            let mut vs = edges(w);
            vs.extend(tuples(w, if w > 128 { 3 } else { 6 }));
            for a in &vs {
                for b in &vs {
                    l.states += 1;
                    chk(l, a, b)?;
                }
            }
            Ok(())
        }));
    }
    for w in [20u32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 192, 200, 256, 300, 320, 400, 512, 700, 1000, 1030, 2050] {
        jobs.push(job(format!("pairs of word shapes, width {w}"), move |l| {
            let vs = shapes(w);
            let step = if w > 320 { 3 } else { 1 };
            for (i, a) in vs.iter().enumerate() {
                for b in vs.iter().skip(i % step).step_by(step) {
                    l.states += 1;
                    chk(l, a, b)?;
                }
                // the same number and the same words at other widths
                for by in [1, 3, 63, 64, 128] {
                    l.states += 1;
                    chk(l, a, &a.zext(by))?;
                    chk(l, &a.sext(by), a)?;
                }
                if w > 64 {
                    chk(l, a, &a.slice(w - 2, 0))?;
                    chk(l, &a.slice(w - 1, 64), a)?;
                }
            }
            Ok(())
        }));
    }
    jobs.push(job("order is transitive over all triples", move |l| {
        let all: Vec<V> = reals(confusable());
        for a in &all {
            for b in &all {
                l.states += all.len() as u64;
                for c in &all {
                    l.check(
                        || format!("triple a={} b={} c={}", a.0.text(), b.0.text(), c.0.text()),
                        || Ok(triple_real(&a.1, &b.1, &c.1)?),
                    )?;
                }
            }
        }
        Ok(())
    }));
    for w in (0..=if t == Tier::Quick { 200 } else { 400 }).chain([255, 256, 257, 511, 512]) {
        jobs.push(job(format!("independence of the history, width {w}"), move |l| {
            for m in std(w, 4, 0) {
                l.states += 1;
                l.check(|| format!("history a={}", m.text()), || Ok(histories(&m)?))?;
            }
            Ok(())
        }));
    }
    // maps: every insertion sequence over confusable keys
    let keys: Vec<M> = [
        (0u128, 1u32),
        (1, 1),
        (1, 2),
        (0, 64),
        (1, 64),
        (0, 65),
        (1, 65),
        (1, 128),
        (1 << 64, 65),
        (1 << 64, 128),
        (1, 129),
        (1 << 64, 192),
    ]
    .iter()
    .map(|(v, w)| M::of_u128(*v, *w))
    .collect();
    let depth = if t == Tier::Quick { 4 } else { 5 };
    for first in 0..keys.len() {
        let keys = keys.clone();
        jobs.push(job(format!("maps: every insertion sequence starting with key {first}"), move |l| {
            let mut seqs = vec![vec![first]];
            for _ in 1..depth {
                let mut next = vec![];
                for s in &seqs {
                    for k in 0..keys.len() {
                        let mut x = s.clone();
                        x.push(k);
                        next.push(x);
                    }
                }
                for s in &seqs {
                    one_map(l, &keys, s)?;
                }
                seqs = next;
            }
            for s in &seqs {
                one_map(l, &keys, s)?;
            }
            Ok(())
        }));
    }
    jobs.push(job("maps with many keys", move |l| {
        for chunk in [1usize, 2, 3, 5] {
            let ks: Vec<M> = confusable().into_iter().step_by(chunk).collect();
            l.states += 1;
            l.check(|| format!("maps keys={} probes={}", unlist(&ks), unlist(&confusable())), || Ok(maps(&ks, &confusable())?))?;
        }
        Ok(())
    }));
    jobs.push(job("maps: lookup by borrowed key", move |l| {
        let ks = confusable();
        for (i, k) in ks.iter().enumerate() {
            let keys = [k.clone(), ks[(i + 1) % ks.len()].clone()];
            let probes = [ks[(i + 7) % ks.len()].clone(), k.clone()];
            l.states += 1;
            l.check(|| format!("borrowed keys={} probes={}", unlist(&keys), unlist(&probes)), || borrowed(&keys, &probes))?;
        }
        Ok(())
    }));
    jobs
}

fn one_map(l: &mut Loc, keys: &[M], s: &[usize]) -> R {
    let ks: Vec<M> = s.iter().map(|i| keys[*i].clone()).collect();
    l.states += 1;
    l.check(|| format!("maps keys={} probes={}", unlist(&ks), unlist(keys)), || Ok(maps(&ks, keys)?))
}

// ------------------------------------------------------------------------------------------ C23

/// Runs `$body` with `$v` bound to the value of `$m`, held in the given way: 0 owned, 1 shared
/// reference, 2 mutable reference, 3 view into a store, 4 mutable view into a store. Everything
/// around a view is garbage.
macro_rules! with_holder {
    ($m:expr, $h:expr, $v:ident => $body:expr) => {{
        let m: &M = $m;
        let mut owned = m.real();
        let n = m.words().len();
        let ix = BitVecValueIndex::new(3, m.w());
        let mut store: Vec<u64> = (0..n as u64 + 7).map(|i| 0xffff_ffff_dead_0001 ^ (i << 33)).collect();
        store[3..3 + n].copy_from_slice(&m.words());
        let before = store.clone();
        let r = match $h {
            0 => {
                let $v = &owned;
                $body
            }
            1 => {
                let $v = &BitVecValueRef::from(&owned);
                $body
            }
            2 => {
                let $v = &BitVecValueMutRef::from(&mut owned);
                $body
            }
            3 => {
                let x: BitVecValueRef = store.as_slice().get_ref(ix);
                let $v = &x;
                $body
            }
            4 => {
                let x: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ix);
                let $v = &x;
                $body
            }
            _ => {
                let $v = &Foreign { width: m.w(), words: m.words() };
                $body
            }
        };
        if store != before {
            return Err("the store changed".into());
        }
        same(&owned, m).map_err(|e| format!("the operand changed: {e}"))?;
        r
    }};
}

const HOLD: u32 = 6;

/// a holder that the library does not know about: a user's own implementation of the traits
#[derive(Clone)]
pub struct Foreign {
    pub width: u32,
    pub words: Vec<u64>,
}

impl BitVecOps for Foreign {
    fn width(&self) -> u32 {
        self.width
    }
    fn words(&self) -> &[u64] {
        &self.words
    }
}

impl BitVecMutOps for Foreign {
    fn words_mut(&mut self) -> &mut [u64] {
        &mut self.words
    }
}

fn bin_all<A: BitVecOps, B: BitVecOps>(a: &A, b: &B, ma: &M, mb: &M) -> Result<u64, String> {
    let mut h = 0;
    for (op, name) in BINS {
        let r = op.real(a, b);
        same(&r, &op.model(ma, mb)).map_err(|e| format!("{name}: {e}"))?;
        h = fnv(h, fp(&r));
    }
    let (m, r) = (preds_model(ma, mb), preds_real(a, b));
    for i in 0..10 {
        eq(PREDS[i], r[i], m[i])?;
    }
    Ok(h)
}

fn held(a: &M, b: &M, ha: u32, hb: u32) -> Result<u64, String> {
    with_holder!(a, ha, va => with_holder!(b, hb, vb => bin_all(va, vb, a, b)))
}

fn cat(a: &M, b: &M, ha: u32, hb: u32) -> Result<u64, String> {
    with_holder!(a, ha, va => with_holder!(b, hb, vb => {
        let r = va.concat(vb);
        same(&r, &a.concat(b)).map_err(|e| format!("concat: {e}"))?;
        Ok(fp(&r))
    }))
}

fn alone(a: &M, h: u32) -> Result<u64, String> {
    let w = a.w();
    let o = a.real();
    with_holder!(a, h, v => {
        same(v, a)?;
        let (hi, lo) = (w.saturating_sub(1), w / 3);
        for op in [Un::Not, Un::Neg, Un::Slice(hi, lo), Un::Slice(hi, 0), Un::Slice(lo, lo), Un::Slice(hi / 2, 0), Un::Zext(0), Un::Zext(1), Un::Zext(64), Un::Sext(0), Un::Sext(1), Un::Sext(64)] {
            if w == 0 && matches!(op, Un::Slice(..)) {
                continue;
            }
            same(&op.real(v), &op.model(a)).map_err(|e| format!("{}: {e}", op.text()))?;
        }
        for p in interesting_positions(w) {
            eq("is_bit_set", v.is_bit_set(p), a.bit(p))?;
        }
        eq("to_bit_str", v.to_bit_str(), a.bit_str())?;
        eq("to_hex_str", v.to_hex_str(), a.hex_str())?;
        eq("to_bit_str_signed", v.to_bit_str_signed(), o.to_bit_str_signed())?;
        eq("to_hex_str_signed", v.to_hex_str_signed(), o.to_hex_str_signed())?;
        eq("to_dec_str", v.to_dec_str(), a.uint().to_str_radix(10))?;
        eq("to_bytes_le", v.to_bytes_le(), a.bytes())?;
        eq("to_big_uint", v.to_big_uint(), a.uint())?;
        eq("to_big_int", v.to_big_int(), a.int())?;
        eq("to_u64", v.to_u64(), o.to_u64())?;
        eq("to_i64", v.to_i64(), o.to_i64())?;
        eq("to_bool", v.to_bool(), o.to_bool())?;
        eq("is_tru", v.is_tru(), w == 1 && a.bit(0))?;
        eq("is_fals", v.is_fals(), w == 1 && !a.bit(0))?;
        eq("is_zero", v.is_zero(), a.is_zero())?;
        eq("is_negative", v.is_negative(), a.sign())?;
        for f in [0, 1.min(w), w / 2, w] {
            eq("to_unsigned_fixed_point", v.to_unsigned_fixed_point(f), o.to_unsigned_fixed_point(f))?;
            eq("to_signed_fixed_point", v.to_signed_fixed_point(f), o.to_signed_fixed_point(f))?;
        }
        eq("owned == held", o == *v, true)?;
        eq("ref == held", BitVecValueRef::from(&o) == *v, true)?;
        same(&(&o + v), &a.add(a)).map_err(|e| format!("operator + with a held operand: {e}"))?;
        same(&(&o - v), &M::zero(w)).map_err(|e| format!("operator - with a held operand: {e}"))?;
        Ok(fp(&o))
    })
}

/// both operands are the same object; conversions keep width and value
fn aliased(a: &M) -> Result<u64, String> {
    let mut o = a.real();
    bin_all(&o, &o, a, a).map_err(|e| format!("same owned object: {e}"))?;
    let r = BitVecValueRef::from(&o);
    bin_all(&r, &r, a, a).map_err(|e| format!("same reference: {e}"))?;
    bin_all(&o, &r, a, a).map_err(|e| format!("an object and its reference: {e}"))?;
    same(&o.concat(&r), &a.concat(a)).map_err(|e| format!("concat with itself: {e}"))?;
    same(&r, a).map_err(|e| format!("reference: {e}"))?;
    let back = BitVecValue::from(r);
    same(&back, a).map_err(|e| format!("owned from reference: {e}"))?;
    eq("debug output is independent of the copy", format!("{back:?}"), format!("{o:?}"))?;
    let store = a.words();
    if !store.is_empty() {
        let ix = BitVecValueIndex::new(0, a.w());
        let (x, y): (BitVecValueRef, BitVecValueRef) = store.as_slice().get_ref((ix, ix));
        bin_all(&x, &y, a, a).map_err(|e| format!("the same store words twice: {e}"))?;
        same(&BitVecValue::from(x), a).map_err(|e| format!("owned from store: {e}"))?;
    }
    let m = BitVecValueMutRef::from(&mut o);
    same(&m, a).map_err(|e| format!("mutable reference: {e}"))?;
    bin_all(&m, &m, a, a).map_err(|e| format!("same mutable reference: {e}"))?;
    Ok(fp(&back))
}

/// equality, order and hash of a value and of the same value with one bit changed
fn flip(a: &BitVecValue, m: &M, at: u32) -> Result<u64, String> {
    let mut b = a.clone();
    let was = m.bit(at);
    if was {
        b.clear_bit(at);
    } else {
        b.set_bit(at);
    }
    let mut c = a.clone();
    {
        let (ra, rb) = (BitVecValueRef::from(a), BitVecValueRef::from(&b));
        eq("a == b", (*a == b, b == *a, *a != b), (false, false, true))?;
        eq("as references", (ra == rb, rb == ra, *a == rb, ra == b, b == ra), (false, false, false, false, false))?;
        eq("is_equal", (a.is_equal(&b), b.is_equal(&ra), ra.is_equal(&rb)), (false, false, false))?;
        let mc = BitVecValueMutRef::from(&mut c);
        eq("as a mutable reference", (b == mc, rb == mc, *a == mc, ra == mc), (false, false, true, true))?;
        let o = a.cmp(&b);
        eq("order", (o == Ordering::Equal, b.cmp(a)), (false, o.reverse()))?;
    }
    // and back
    if was {
        b.set_bit(at);
    } else {
        b.clear_bit(at);
    }
    eq("equal again", (*a == b, b == *a, a.cmp(&b)), (true, true, Ordering::Equal))?;
    Ok(at as u64)
}

pub fn c23(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 140 } else { 270 };
    for w in (0..=dense).chain([191, 192, 193, 255, 256, 257, 320, 513, 1025, 2048, 4160].into_iter().filter(move |w| *w > dense)) {
        jobs.push(job(format!("every way to hold operands, width {w}"), move |l| {
            let small = if t == Tier::Quick { 3 } else { 4 };
            let vs = if w <= small { full(w) } else {
                let mut v = few(w);
                v.extend(poscodes(w).into_iter().rev().take(4));
                if w > 20 {
                    v.extend(shapes(w).into_iter().step_by(if w % 64 < 2 { 5 } else { 17 }));
                }
                if w > 6 {
                    // shift amounts in range
                    v.extend([1u64, 2, (w / 2) as u64, w as u64 - 1].map(|x| M::of_u64(x, w)));
                    if w > 64 {
                        v.extend([63u64, 64, 65].map(|x| M::of_u64(x, w)));
                    }
                }
                let mut v = dedup(v);
                if w > 1025 {
                    v = v.into_iter().step_by(3).collect();
                }
                v
            };
            for a in &vs {
                for ha in 0..HOLD {
                    l.states += 1;
                    l.check(|| format!("alone a={} ha={ha}", a.text()), || Ok(alone(a, ha)?))?;
                    for b in &vs {
                        for hb in 0..HOLD {
                            l.states += 1;
                            l.check(|| format!("held a={} b={} ha={ha} hb={hb}", a.text(), b.text()), || Ok(held(a, b, ha, hb)?))?;
                        }
                    }
                }
                l.check(|| format!("aliased a={}", a.text()), || Ok(aliased(a)?))?;
            }
            Ok(())
        }));
    }
    for w in [8257u32, 16_385, 65_537].into_iter().chain((t != Tier::Quick).then_some(262_145)) {
        jobs.push(job(format!("every way to hold long operands, width {w}"), move |l| {
            let n = w / 64;
            let mut vs = vec![M::one_hot(w, 64 * (n - 3) + 63).with_bit(64 * (n - 2) + 63, true)];
            vs.extend(shapes(w).into_iter().step_by(if t == Tier::Quick { 37 } else { 11 }));
            for i in [100u32, 101, 128, n / 2, n - 1] {
                // words that cancel out in a sum or in an exclusive or
                vs.push(M::one_hot(w, 64 * i + 63).with_bit(64 * (i - 1) + 63, true));
            }
            for (k, a) in vs.iter().enumerate() {
                for ha in 0..HOLD {
                    if w > 60_000 && k % 3 > 0 && ha > 2 {
                        continue;
                    }
                    l.states += 1;
                    l.check(|| format!("alone a={} ha={ha}", a.text()), || Ok(alone(a, ha)?))?;
                }
            }
            Ok(())
        }));
    }
    for pat in 0..VIEW_PATS {
        for o in 0..6u32 {
            jobs.push(job(format!("operations on views that share words, pattern {pat}, offset {o}"), move |l| {
                let store = view_store(pat);
                for wa in 1..=300u32 {
                    let a = (o, wa);
                    if view_at(&store, a).is_none() {
                        continue;
                    }
                    for ob in 0..6u32 {
                        for wb in [wa, 1, 3, 63, 64, 65, 128, 131, 192] {
                            let b = (ob, wb);
                            if view_at(&store, b).is_none() {
                                continue;
                            }
                            l.states += 1;
                            l.check(|| format!("viewops pat={pat} oa={o} wa={wa} ob={ob} wb={wb}"), || Ok(view_ops(pat, a, b)?))?;
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    for wa in [1u32, 2, 31, 63, 64, 65, 127, 128, 129, 200] {
        jobs.push(job(format!("every way to hold concatenated operands, high width {wa}"), move |l| {
            for wb in [1u32, 2, 33, 63, 64, 65, 127, 128, 129, 192] {
                for a in few(wa).iter().rev().take(5) {
                    for b in few(wb).iter().rev().take(5) {
                        for ha in 0..HOLD {
                            for hb in 0..HOLD {
                                l.states += 1;
                                l.check(|| format!("cat a={} b={} ha={ha} hb={hb}", a.text(), b.text()), || Ok(cat(a, b, ha, hb)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    jobs
}
