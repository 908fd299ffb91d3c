//! C16 references into a word store, C17 the interner, C22 in-place updates.
use crate::alpha::*;
use crate::c_eq::Foreign;
use crate::engine::*;
use crate::model::{eq, same, M};
use baa::*;
use num_bigint::BigUint;
use std::collections::{HashMap, HashSet};

pub fn replay(c: &Case) -> Result<(), Fail> {
    match c.op.as_str() {
        "refs" => {
            refs(c.s("kind"), c.u("len") as usize, &places(c.s("at")), c.u("fill"), c.u("by") == 1)?;
        }
        "range" => {
            index_range(c.u("i"), c.u("w"))?;
        }
        "seq" => {
            seq(&list(c.s("vals")))?;
        }
        "family" => {
            family(c.u("kind"), c.u("n"))?;
        }
        "upd" => {
            let ops: Vec<Upd> = c.s("ops").split(';').filter(|x| !x.is_empty()).map(Upd::parse).collect();
            updates(&c.m("init"), c.u("h"), &ops)?;
        }
        "huge" => {
            crate::c_huge::run(c.s("what"), c.u("w"))?;
        }
        o => panic!("unknown trace op {o}"),
    }
    Ok(())
}

fn list(s: &str) -> Vec<M> {
    s.split(',').filter(|x| !x.is_empty()).map(M::parse).collect()
}
fn unlist(v: &[M]) -> String {
    v.iter().map(|m| m.text()).collect::<Vec<_>>().join(",")
}

// ------------------------------------------------------------------------------------------ C16

type Place = (u32, u32);
fn places(s: &str) -> Vec<Place> {
    s.split(',')
        .map(|x| {
            let (i, w) = x.split_once(':').unwrap();
            (i.parse().unwrap(), w.parse().unwrap())
        })
        .collect()
}
fn unplaces(p: &[Place]) -> String {
    p.iter().map(|(i, w)| format!("{i}:{w}")).collect::<Vec<_>>().join(",")
}

fn range(p: Place) -> std::ops::Range<usize> {
    p.0 as usize..(p.0 + p.1.div_ceil(64)) as usize
}
fn overlap(a: Place, b: Place) -> bool {
    range(a).start < range(b).end && range(b).start < range(a).end
}

/// store contents in which the words of every given place form a canonical value
fn content(len: usize, at: &[Place], fill: u32) -> Vec<u64> {
    let mut x = 0x5107e + fill as u64;
    let mut o: Vec<u64> = (0..len)
        .map(|k| match fill {
            0 => splitmix(&mut x),
            1 => u64::MAX,
            _ => !(k as u64) & !(1u64 << 17),
        })
        .collect();
    for p in at {
        if p.1 % 64 != 0 {
            o[range(*p).end - 1] &= (1u64 << (p.1 % 64)) - 1;
        }
    }
    o
}

fn written(w: u32, old: &[u64]) -> M {
    // different from the old content in every word
    M::of_words(&old.iter().map(|x| !x).collect::<Vec<_>>(), w)
}

fn check_store(what: &str, got: &[u64], exp: &[u64]) -> Result<(), String> {
    if got != exp {
        let k = (0..exp.len()).find(|k| got[*k] != exp[*k]).unwrap();
        return Err(format!("{what}: store word {k} is {:#x}, expected {:#x}", got[k], exp[k]));
    }
    Ok(())
}

/// obtains a mutable reference the given way and writes through it in several ways
macro_rules! with_dst {
    ($dst:expr, $srcs:expr, $p:expr, $model:expr) => {{
        let (mut dst, srcs): (BitVecValueMutRef, Vec<(BitVecValueRef, Place)>) = ($dst, $srcs);
        let p: Place = $p;
        let model: &mut Vec<u64> = $model;
        let see = |dst: &BitVecValueMutRef, model: &[u64], when: &str| -> Result<(), String> {
            same(dst, &M::of_words(&model[range(p)], p.1)).map_err(|e| format!("destination {when}: {e}"))?;
            for (s, q) in &srcs {
                same(s, &M::of_words(&model[range(*q)], q.1)).map_err(|e| format!("source {}:{} {when}: {e}", q.0, q.1))?;
            }
            Ok(())
        };
        see(&dst, model, "at first")?;
        let new = written(p.1, &model[range(p)]);
        dst.assign(&new.real());
        model[range(p)].copy_from_slice(&new.words());
        see(&dst, model, "after assigning a value")?;
        for (s, q) in &srcs {
            if q.1 == p.1 {
                dst.assign(*s);
                let x = model[range(*q)].to_vec();
                model[range(p)].copy_from_slice(&x);
                see(&dst, model, "after assigning a source")?;
            }
        }
        dst.assign_ones();
        model[range(p)].copy_from_slice(&M::ones(p.1).words());
        see(&dst, model, "after setting to ones")?;
        dst.clear_bit(p.1 - 1);
        let x = M::ones(p.1).with_bit(p.1 - 1, false);
        model[range(p)].copy_from_slice(&x.words());
        see(&dst, model, "after clearing the top bit")?;
        dst.words_mut().copy_from_slice(&new.words());
        model[range(p)].copy_from_slice(&new.words());
        see(&dst, model, "after writing the words")?;
    }};
}

fn refs(kind: &str, len: usize, at: &[Place], fill: u32, by_ref: bool) -> Result<u64, String> {
    let mut store = content(len, at, fill);
    let mut model = store.clone();
    let ix: Vec<BitVecValueIndex> = at.iter().map(|p| BitVecValueIndex::new(p.0, p.1)).collect();
    for (i, p) in ix.iter().zip(at) {
        eq("index width", i.width(), p.1)?;
        eq("index words", i.words(), p.1.div_ceil(64) as usize)?;
        eq("index range", i.to_range(), range(*p))?;
        eq("index equality", *i == BitVecValueIndex::new(p.0, p.1), true)?;
    }
    for a in 0..at.len() {
        for b in 0..at.len() {
            eq("index equality", ix[a] == ix[b], at[a] == at[b])?;
        }
    }
    let is = |r: &BitVecValueRef, p: Place, model: &[u64]| same(r, &M::of_words(&model[range(p)], p.1));
    let clash = at[1..].iter().any(|s| overlap(at[0], *s));
    match kind {
        "get" => {
            for k in 0..at.len() {
                let r: BitVecValueRef = if by_ref { store.as_slice().get_ref(&ix[k]) } else { store.as_slice().get_ref(ix[k]) };
                is(&r, at[k], &model)?;
            }
            if at.len() > 1 {
                let (a, b): (BitVecValueRef, BitVecValueRef) =
                    if by_ref { store.as_slice().get_ref((&ix[0], &ix[1])) } else { store.as_slice().get_ref((ix[0], ix[1])) };
                is(&a, at[0], &model).map_err(|e| format!("first of a pair: {e}"))?;
                is(&b, at[1], &model).map_err(|e| format!("second of a pair: {e}"))?;
            }
        }
        "mut" => {
            let run = |store: &mut Vec<u64>, model: &mut Vec<u64>| -> Result<(), String> {
                let st = store.as_mut_slice();
                match at.len() {
                    1 => {
                        let d = if by_ref { st.get_mut_ref(&ix[0]) } else { st.get_mut_ref(ix[0]) };
                        with_dst!(d, vec![], at[0], model)
                    }
                    2 => {
                        let (d, a) = if by_ref { st.get_mut_ref((&ix[0], &ix[1])) } else { st.get_mut_ref((ix[0], ix[1])) };
                        with_dst!(d, vec![(a, at[1])], at[0], model)
                    }
                    _ => {
                        let (d, a, b) = if by_ref {
                            st.get_mut_ref((&ix[0], &ix[1], &ix[2]))
                        } else {
                            st.get_mut_ref((ix[0], ix[1], ix[2]))
                        };
                        with_dst!(d, vec![(a, at[1]), (b, at[2])], at[0], model)
                    }
                }
                Ok(())
            };
            if clash {
                let before = store.clone();
                let got = catch(|| run(&mut store, &mut model));
                if got.is_ok() {
                    return Err("a source that overlaps the destination was not refused".into());
                }
                check_store("after a refused request", &store, &before)?;
                return Ok(1);
            }
            run(&mut store, &mut model)?;
            // and the operation results still land in the destination only
            if at.len() == 3 && at[0].1 == at[1].1 && at[0].1 == at[2].1 {
                let (mut d, a, b) = store.as_mut_slice().get_mut_ref((ix[0], ix[1], ix[2]));
                d.assign(&a.add(&b));
                let (ma, mb) = (M::of_words(&model[range(at[1])], at[1].1), M::of_words(&model[range(at[2])], at[2].1));
                model[range(at[0])].copy_from_slice(&ma.add(&mb).words());
            }
        }
        k => panic!("unknown kind {k}"),
    }
    check_store("at the end", &store, &model)?;
    Ok(store.iter().fold(7, |h, w| fnv(h, *w)))
}

fn index_range(i: u32, w: u32) -> Result<u64, String> {
    let ix = BitVecValueIndex::new(i, w);
    let n = (w as u64 + 63) / 64;
    eq("index width", ix.width(), w)?;
    eq("index words", ix.words() as u64, n)?;
    let r = ix.to_range();
    eq("index range", (r.start as u64, r.end as u64), (i as u64, i as u64 + n))?;
    eq("index equality", ix == BitVecValueIndex::new(i ^ 1, w) || ix == BitVecValueIndex::new(i, w ^ 1), false)?;
    Ok(i as u64 + n)
}

pub fn c16(t: Tier) -> Vec<Job> {
    let (len, widths): (u32, Vec<u32>) =
        if t == Tier::Quick { (7, vec![1, 63, 64, 65, 128, 129, 192]) } else { (10, vec![1, 5, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 320]) };
    let mut all: Vec<Place> = vec![];
    for w in &widths {
        for i in 0..len {
            if i + w.div_ceil(64) <= len {
                all.push((i, *w));
            }
        }
    }
    all.sort_by_key(|p| (p.1, p.0));
    let go = move |l: &mut Loc, kind: &str, at: &[Place]| -> R {
        for fill in 0..3u32 {
            for by in 0..2u32 {
                l.states += 1;
                l.check(
                    || format!("refs kind={kind} len={len} at={} fill={fill} by={by}", unplaces(at)),
                    || Ok(refs(kind, len as usize, at, fill, by == 1)?),
                )?;
            }
        }
        Ok(())
    };
    let mut jobs = vec![];
    let a1 = all.clone();
    jobs.push(job("every single placement", move |l| {
        for p in &a1 {
            go(l, "get", &[*p])?;
            go(l, "mut", &[*p])?;
        }
        Ok(())
    }));
    let a2 = all.clone();
    jobs.push(job("every pair of placements", move |l| {
        for p in &a2 {
            for q in &a2 {
                go(l, "get", &[*p, *q])?;
                go(l, "mut", &[*p, *q])?;
            }
        }
        Ok(())
    }));
    for p in all.clone() {
        let all = all.clone();
        jobs.push(job(format!("every pair of sources for the destination {}:{}", p.0, p.1), move |l| {
            for q in &all {
                for r in &all {
                    go(l, "mut", &[p, *q, *r])?;
                }
            }
            Ok(())
        }));
    }
    // every width at few placements
    for chunk in (1..=640u32).collect::<Vec<_>>().chunks(64) {
        let chunk = chunk.to_vec();
        jobs.push(job(format!("all widths {}..{}", chunk[0], chunk[chunk.len() - 1]), move |l| {
            for w in chunk.iter().copied() {
                let n = w.div_ceil(64);
                for (d, s, r) in [(0, n, 2 * n), (n, 0, 2 * n), (2 * n, 0, n), (n, 0, 0), (0, n + 1, 2 * n + 2), (n, 2 * n, 2 * n)] {
                    let at = [(d, w), (s, w), (r, w)];
                    let len = 3 * n + 3;
                    for fill in 0..3u32 {
                        l.states += 1;
                        l.check(
                            || format!("refs kind=mut len={len} at={} fill={fill} by=0", unplaces(&at)),
                            || Ok(refs("mut", len as usize, &at, fill, false)?),
                        )?;
                        l.check(
                            || format!("refs kind=get len={len} at={} fill={fill} by=0", unplaces(&at)),
                            || Ok(refs("get", len as usize, &at, fill, false)?),
                        )?;
                    }
                }
            }
            Ok(())
        }));
    }
    jobs.push(job("placements in a large store", move |l| {
        let len = 140_000u32;
        for at in [
            [(65_535u32, 64u32), (65_536, 65), (65_534, 1)],
            [(65_536, 129), (65_539, 129), (65_530, 129)],
            [(0, 128), (131_071, 128), (131_070, 64)],
            [(139_998, 128), (131_071, 128), (0, 64)],
        ] {
            l.states += 1;
            for kind in ["get", "mut"] {
                l.check(|| format!("refs kind={kind} len={len} at={} fill=0 by=0", unplaces(&at)), || Ok(refs(kind, len as usize, &at, 0, false)?))?;
            }
        }
        Ok(())
    }));
    let q = t == Tier::Quick;
    jobs.push(job("placements in a very large store", move |l| {
        for len in if q { vec![(1u32 << 24) + 70] } else { vec![(1u32 << 24) + 70, (1 << 26) + 3] } {
            let top = len - 3;
            for at in [
                vec![(1 << 24, 64u32)],
                vec![(top, 129), (1 << 23, 129), (5, 129)],
                vec![(1 << 24, 65), (top, 65), ((1 << 24) - 2, 65)],
                vec![(0, 1 << 20), (1 << 14, 1 << 20), (1 << 20, 1 << 20)],
                vec![(1 << 20, (1 << 26) + 63), (top, 7), (0, (1 << 26) - 64)],
            ] {
                l.states += 1;
                for kind in ["get", "mut"] {
                    l.check(|| format!("refs kind={kind} len={len} at={} fill=0 by=0", unplaces(&at)), || Ok(refs(kind, len as usize, &at, 0, false)?))?;
                }
            }
        }
        Ok(())
    }));
    jobs.push(job("the words of an index", move |l| {
        // no store is needed (or could be had) for these
        let e: Vec<u32> = (0..32)
            .flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1, !(1 << k), u32::MAX >> k, (3u64 << k) as u32])
            .chain(0..if q { 300 } else { 1500 })
            .chain([u32::MAX - 1, u32::MAX - 63, u32::MAX - 64, u32::MAX - 65])
            .collect::<std::collections::BTreeSet<u32>>()
            .into_iter()
            .collect();
        for i in &e {
            for w in &e {
                l.states += 1;
                l.check(|| format!("range i={i} w={w}"), || Ok(index_range(*i, *w)?))?;
            }
        }
        Ok(())
    }));
    jobs
}

// ------------------------------------------------------------------------------------------ C17

const WZ: &str = "C17:wide-zero";
const WO: &str = "C17:wide-one";

/// the model: what was interned, in order of first insertion, and the index it got
#[derive(Clone, Default)]
struct Known {
    vals: Vec<(M, BitVecValueIndex)>,
}

fn readback(i: &ValueInterner, known: &Known) -> Result<(), String> {
    for (m, ix) in &known.vals {
        if ix.to_range().end > i.words().len() {
            return Err(format!("index of {} points beyond the storage", m.text()));
        }
        let r: BitVecValueRef = i.words().get_ref(ix);
        same(&r, m).map_err(|e| format!("reading back {}: {e}", m.text()))?;
    }
    Ok(())
}

fn intern(i: &mut ValueInterner, m: &M, how: u32) -> BitVecValueIndex {
    let mut v = m.real();
    match how % 3 {
        0 => i.get_index(&v),
        1 => i.get_index(BitVecValueRef::from(&v)),
        _ => {
            let mut store = vec![u64::MAX; m.w().div_ceil(64) as usize + 2];
            let ix = BitVecValueIndex::new(1, m.w());
            store.as_mut_slice().get_mut_ref(ix).assign(&v);
            v.clear();
            let r: BitVecValueRef = store.as_slice().get_ref(ix);
            i.get_index(r)
        }
    }
}

/// one insertion and everything that must hold afterwards; returns the excused finding, if any
fn insert(i: &mut ValueInterner, known: &mut Known, m: &M, how: u32) -> Result<Option<Fail>, String> {
    let ix = intern(i, m, how);
    eq("index width", ix.width(), m.w())?;
    eq("index words", ix.words(), m.w().div_ceil(64) as usize)?;
    match known.vals.iter().find(|x| x.0 == *m) {
        Some(x) => {
            if x.1 != ix {
                return Err(format!("{} got the index {:?}, and {:?} before", m.text(), ix, x.1));
            }
        }
        None => {
            if let Some(x) = known.vals.iter().find(|x| x.1 == ix) {
                return Err(format!("{} and {} got the same index {:?}", m.text(), x.0.text(), ix));
            }
            known.vals.push((m.clone(), ix));
        }
    }
    readback(i, known)?;
    let again = intern(i, m, how + 1);
    if again != ix {
        return Err(format!("interning {} twice in a row gives {ix:?} and {again:?}", m.text()));
    }
    let (z, o) = (ValueInterner::is_zero(ix), ValueInterner::is_one(&ix));
    let (ez, eo) = (m.is_zero(), m.uint() == BigUint::from(1u32));
    let mut excused = None;
    if m.w() > 64 && ez && !z {
        excused = Some(Fail::K(WZ, format!("is_zero is false for the index of {}", m.text())));
    } else {
        eq("is_zero", z, ez)?;
    }
    if m.w() > 64 && eo && !o {
        excused = Some(Fail::K(WO, format!("is_one is false for the index of {}", m.text())));
    } else {
        eq("is_one", o, eo)?;
    }
    Ok(excused)
}

fn seq(vals: &[M]) -> Result<u64, Fail> {
    let mut i = ValueInterner::new();
    let mut known = Known::default();
    let mut excused = None;
    for (n, m) in vals.iter().enumerate() {
        let last = n + 1 == vals.len();
        let e = step(&mut i, &mut known, m, n as u32)?;
        if last {
            excused = e;
        }
    }
    match excused {
        Some(k) => Err(k),
        None => Ok(i.words().iter().fold(known.vals.len() as u64, |h, w| fnv(h, *w))),
    }
}

/// inserts into the interner while a clone taken before stays as it was, and the other way around
fn step(i: &mut ValueInterner, known: &mut Known, m: &M, n: u32) -> Result<Option<Fail>, String> {
    let before = i.clone();
    let (words, k0) = (i.words().to_vec(), known.clone());
    let e = insert(i, known, m, n)?;
    if before.words() != words.as_slice() {
        return Err("an insertion changed a clone taken before".into());
    }
    readback(&before, &k0).map_err(|e| format!("clone taken before: {e}"))?;
    // a clone behaves like the original, and the original does not notice
    let words = i.words().to_vec();
    let mut twin = i.clone();
    for (m, ix) in &known.vals {
        let got = intern(&mut twin, m, n);
        if got != *ix {
            return Err(format!("a clone gives {} the index {got:?}, the original {ix:?}", m.text()));
        }
    }
    if twin.words().len() != words.len() {
        return Err("interning known values in a clone allocates storage".into());
    }
    let mut k1 = known.clone();
    for x in [M::of_u64(0xabcd, 16), M::of_u128(0xabcd << 64, 130)] {
        insert(&mut twin, &mut k1, &x, n)?;
    }
    if i.words() != words.as_slice() {
        return Err("an insertion into a clone changed the original".into());
    }
    Ok(e)
}

fn dfs17(l: &mut Loc, alpha: &[M], path: &mut Vec<usize>, i: &ValueInterner, known: &Known, depth: usize) -> R {
    for k in 0..alpha.len() {
        let (mut i2, mut k2) = (i.clone(), known.clone());
        path.push(k);
        l.states += 1;
        l.check(
            || format!("seq vals={}", unlist(&path.iter().map(|p| alpha[*p].clone()).collect::<Vec<_>>())),
            || match step(&mut i2, &mut k2, &alpha[k], path.len() as u32 - 1)? {
                Some(f) => Err(f),
                None => Ok(i2.words().iter().fold(k as u64, |h, w| fnv(h, *w))),
            },
        )?;
        if depth > 1 {
            dfs17(l, alpha, path, &i2, &k2, depth - 1)?;
        }
        path.pop();
    }
    Ok(())
}

/// long histories: `n` values of one family, interned in order, all of them checked along the way
fn family(kind: u32, n: u32) -> Result<u64, String> {
    let val = |k: u32| -> M {
        match kind {
            // every value of the narrow widths, ascending and descending, widths interleaved
            0 => M::of_u64(k as u64 / 10, 1 + k % 10 + 10),
            1 => M::of_u64((n - 1 - k) as u64, 32),
            // wide values that differ in one word only, alternating with narrow ones
            2 => M::of_words(&[k as u64, 0], 65 + k % 64),
            3 => M::of_words(&[0, k as u64], 128),
            4 => M::of_words(&[0, 0, k as u64], 160),
            5 => {
                if k % 2 == 0 {
                    M::of_u64(k as u64, 64)
                } else {
                    M::of_words(&[k as u64, 1], 65)
                }
            }
            // one-bit neighbours of long values
            7 => M::one_hot(n, k),
            8 => M::ones(n).with_bit(k, false),
            // two long values that differ in one word, for every word
            9 => M::one_hot(64 * n, 64 * k + k % 64),
            // one-hot values of all widths
            _ => M::one_hot(1 + k, k),
        }
    };
    let mut i = ValueInterner::new();
    let mut by: HashMap<M, BitVecValueIndex> = HashMap::new();
    let mut used: HashSet<BitVecValueIndex> = HashSet::new();
    for k in 0..n {
        let m = val(k);
        let ix = i.get_index(&m.real());
        eq("width", ix.width(), m.w())?;
        match by.get(&m) {
            Some(x) => eq("index of a known value", *x, ix)?,
            None => {
                if !used.insert(ix) {
                    return Err(format!("value number {k} ({}) got an index that was in use", m.text()));
                }
                by.insert(m.clone(), ix);
            }
        }
        same(&BitVecValueRef::from(i.words().get_ref(ix)), &m).map_err(|e| format!("value number {k}: {e}"))?;
    }
    let twin = i.clone();
    let len = i.words().len();
    for k in 0..n {
        let m = val(k);
        let ix = by[&m];
        same(&BitVecValueRef::from(i.words().get_ref(ix)), &m).map_err(|e| format!("value number {k} at the end: {e}"))?;
        same(&BitVecValueRef::from(twin.words().get_ref(ix)), &m).map_err(|e| format!("value number {k} in a clone: {e}"))?;
        eq("index at the end", i.get_index(&m.real()), ix)?;
    }
    eq("storage after re-interning everything", i.words().len(), len)?;
    Ok(len as u64)
}

fn alpha17() -> Vec<M> {
    let mut o = vec![];
    for (v, w) in [
        (0u128, 1u32),
        (1, 1),
        (1, 2),
        (7, 3),
        (8, 4),
        (7, 64),
        (8, 64),
        (9, 8),
        (u64::MAX as u128, 64),
        (1 << 63, 64),
        (0, 65),
        (1, 65),
        (8, 65),
        (1 << 64, 65),
        (1 << 64, 128),
        (1, 128),
        (u64::MAX as u128, 128),
        ((8 << 64) | 8, 128),
    ] {
        o.push(M::of_u128(v, w));
    }
    o.push(M::of_u128(1, 129));
    o.push(M::of_words(&[0, 1, 0], 192));
    o.push(M::of_words(&[0, 0, 1], 192));
    o
}

pub fn c17(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let alpha = alpha17();
    jobs.push(job("all pairs of values of widths 1..=5, all zeros and ones up to 260 bits", move |l| {
        let vs: Vec<M> = (0..=5).flat_map(full).collect();
        for a in &vs {
            for b in &vs {
                let s = [a.clone(), b.clone()];
                l.states += 1;
                l.check(|| format!("seq vals={}", unlist(&s)), || seq(&s))?;
            }
        }
        for w in 0..=260 {
            let vs = if w == 0 { full(0) } else { vec![M::zero(w), M::of_u64(1, w), M::of_u64(2, w), M::ones(w), M::one_hot(w, w - 1)] };
            for v in vs {
                let s = [v];
                l.states += 1;
                l.check(|| format!("seq vals={}", unlist(&s)), || seq(&s))?;
            }
        }
        Ok(())
    }));
    let depth = if t == Tier::Quick { 4 } else { 5 };
    for first in 0..alpha.len() {
        let alpha = alpha.clone();
        jobs.push(job(format!("every insertion sequence up to depth {depth} that starts with value {first}"), move |l| {
            let s = [alpha[first].clone()];
            l.check(|| format!("seq vals={}", unlist(&s)), || seq(&s))?;
            let (mut i, mut k) = (ValueInterner::new(), Known::default());
            let _ = step(&mut i, &mut k, &alpha[first], 0);
            dfs17(l, &alpha, &mut vec![first], &i, &k, depth - 1)
        }));
    }
    for w in (65..=if t == Tier::Quick { 200 } else { 520 }).chain([255, 256, 257, 511, 512, 513]) {
        jobs.push(job(format!("one-bit neighbours, width {w}"), move |l| {
            let base = dedup(vec![M::zero(w), M::ones(w), patterns(w).pop().unwrap()]);
            for m in base {
                for i in 0..w {
                    let s = [m.clone(), m.with_bit(i, !m.bit(i)), m.with_bit(i, !m.bit(i)).zext(1), m.clone()];
                    l.states += 1;
                    l.check(|| format!("seq vals={}", unlist(&s)), || seq(&s))?;
                }
            }
            Ok(())
        }));
    }
    for w in [20u32, 40, 63, 64, 65, 70, 100, 127, 128, 129, 160, 192, 200, 256, 300, 320, 400, 512, 700, 1000, 2050] {
        jobs.push(job(format!("word shapes in one interner, width {w}"), move |l| {
            let xs = shapes(w);
            for part in xs.chunks(if w > 320 { 16 } else { 64 }) {
                let mut s = vec![];
                for m in part {
                    s.push(m.clone());
                    s.push(m.zext(1));
                    s.push(m.not());
                    s.push(m.sext(64));
                    if w > 64 {
                        s.push(m.slice(w - 1, 64));
                        s.push(m.slice(63, 0));
                    }
                }
                s.extend(part.iter().rev().cloned());
                l.states += s.len() as u64;
                l.check(|| format!("seq vals={}", unlist(&s)), || seq(&s))?;
            }
            Ok(())
        }));
    }
    let n = if t == Tier::Quick { 70_000 } else { 1_000_000 };
    for (kind, n) in [(0u32, 10_240u32), (1, n), (2, n), (3, n), (4, 70_000), (5, n), (6, 600), (7, 2112), (8, 2100), (7, 4160), (9, 1025)] {
        jobs.push(job(format!("a history of {n} insertions, family {kind}"), move |l| {
            l.states += n as u64;
            l.check(|| format!("family kind={kind} n={n}"), || Ok(family(kind, n)?))
        }));
    }
    jobs
}

// ------------------------------------------------------------------------------------------ C22

#[derive(Clone, PartialEq, Debug)]
enum Upd {
    Assign(M),
    AssignRef(M),
    /// from another slot of the same store (a view of a separate store for owned targets)
    AssignSlot(M),
    U64(u64),
    I64(i64),
    /// numeral and radix
    Str(String, u32),
    Clear,
    Ones,
    Set(u32),
    Unset(u32),
    Mask,
    /// overwrite all words with ones, then mask
    Dirty,
}

impl Upd {
    fn text(&self) -> String {
        match self {
            Upd::Assign(m) => format!("assign:{}", m.text()),
            Upd::AssignRef(m) => format!("assign_ref:{}", m.text()),
            Upd::AssignSlot(m) => format!("assign_slot:{}", m.text()),
            Upd::U64(v) => format!("u64:{v}"),
            Upd::I64(v) => format!("i64:{v}"),
            Upd::Str(s, r) => format!("str:{r}:{s}"),
            Upd::Clear => "clear:".into(),
            Upd::Ones => "ones:".into(),
            Upd::Set(p) => format!("set:{p}"),
            Upd::Unset(p) => format!("unset:{p}"),
            Upd::Mask => "mask:".into(),
            Upd::Dirty => "dirty:".into(),
        }
    }
    fn parse(s: &str) -> Upd {
        let (op, a) = s.split_once(':').unwrap();
        match op {
            "assign" => Upd::Assign(M::parse(a)),
            "assign_ref" => Upd::AssignRef(M::parse(a)),
            "assign_slot" => Upd::AssignSlot(M::parse(a)),
            "u64" => Upd::U64(a.parse().unwrap()),
            "i64" => Upd::I64(a.parse().unwrap()),
            "str" => {
                let (r, s) = a.split_once(':').unwrap();
                Upd::Str(s.to_string(), r.parse().unwrap())
            }
            "clear" => Upd::Clear,
            "ones" => Upd::Ones,
            "set" => Upd::Set(a.parse().unwrap()),
            "unset" => Upd::Unset(a.parse().unwrap()),
            "mask" => Upd::Mask,
            "dirty" => Upd::Dirty,
            o => panic!("unknown update {o}"),
        }
    }
    fn model(&self, m: &M) -> M {
        let w = m.w();
        match self {
            Upd::Assign(v) | Upd::AssignRef(v) | Upd::AssignSlot(v) => v.clone(),
            Upd::U64(v) => M::of_u64(*v, w),
            Upd::I64(v) => M::of_int(&(*v).into(), w),
            Upd::Str(s, r) => numeral(s, *r, w).unwrap_or_else(|| m.clone()),
            Upd::Clear => M::zero(w),
            Upd::Ones | Upd::Dirty => M::ones(w),
            Upd::Set(p) => m.with_bit(*p, true),
            Upd::Unset(p) => m.with_bit(*p, false),
            Upd::Mask => m.clone(),
        }
    }
    fn real<T: BitVecMutOps>(&self, t: &mut T) -> Result<(), String> {
        match self {
            Upd::Assign(v) => {
                let x = v.real();
                t.assign(&x);
                same(&x, v).map_err(|e| format!("the source changed: {e}"))?;
            }
            Upd::AssignRef(v) => {
                let x = v.real();
                t.assign(BitVecValueRef::from(&x));
                same(&x, v).map_err(|e| format!("the source changed: {e}"))?;
            }
            Upd::AssignSlot(v) => {
                let n = v.w().div_ceil(64);
                let mut store = vec![0x5555_aaaa_0000_ffff; n as usize + 2];
                store[1..1 + n as usize].copy_from_slice(&v.words());
                let before = store.clone();
                let r: BitVecValueRef = store.as_slice().get_ref(BitVecValueIndex::new(1, v.w()));
                t.assign(r);
                check_store("source store", &store, &before)?;
            }
            Upd::U64(v) => t.assign_from_u64(*v),
            Upd::I64(v) => t.assign_from_i64(*v),
            Upd::Str(s, r) => {
                let ok = numeral(s, *r, t.width()).is_some();
                eq("parsing succeeds", t.assign_from_str_radix(s, *r).is_ok(), ok)?;
            }
            Upd::Clear => t.clear(),
            Upd::Ones => t.assign_ones(),
            Upd::Set(p) => t.set_bit(*p),
            Upd::Unset(p) => t.clear_bit(*p),
            Upd::Mask => t.mask_msb(),
            Upd::Dirty => {
                t.words_mut().iter_mut().for_each(|w| *w = u64::MAX);
                t.mask_msb();
            }
        }
        Ok(())
    }
}

/// the number a string denotes at a width, if it is a numeral that fits
fn numeral(s: &str, radix: u32, w: u32) -> Option<M> {
    if s.is_empty() {
        return Some(M::zero(w));
    }
    let (neg, digits) = match s.as_bytes()[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
        return None;
    }
    let v = BigUint::parse_bytes(digits.as_bytes(), radix)?;
    let fits = if neg { v <= BigUint::from(1u32) << (w - 1) } else { v.bits() <= w as u64 };
    if !fits {
        return None;
    }
    let m = M::of_uint(&v, w);
    Some(if neg { m.neg() } else { m })
}

/// 0 owned, 1 mutable reference to an owned value, 2 slot of a store, 3 slot obtained with two
/// sources, the last of which serves slot-to-slot assignments, 4 an implementation of a user's own
const TARGETS: u32 = 5;

#[derive(Clone)]
struct Target {
    h: u32,
    w: u32,
    own: BitVecValue,
    foreign: Foreign,
    store: Vec<u64>,
}

const GUARD: u64 = 0xfeed_face_cafe_beef;

impl Target {
    fn new(init: &M, h: u32) -> Target {
        let n = init.w().div_ceil(64) as usize;
        let mut store = vec![GUARD; 3 * n + 4];
        let own = if h < 2 || h > 3 { init.real() } else { BitVecValue::zero(1) };
        if h == 2 || h == 3 {
            store[n + 2..2 * n + 2].copy_from_slice(&init.words());
        }
        Target { h, w: init.w(), own, foreign: Foreign { width: init.w(), words: init.words() }, store }
    }
    fn apply(&mut self, op: &Upd, cur: &mut M) -> Result<(), String> {
        let n = self.w.div_ceil(64);
        let (src, dst, src2) = (BitVecValueIndex::new(1, self.w), BitVecValueIndex::new(n + 2, self.w), BitVecValueIndex::new(2 * n + 2, self.w));
        let next = op.model(cur);
        let mut exp = self.store.clone();
        match self.h {
            0 => op.real(&mut self.own)?,
            1 => {
                let mut r = BitVecValueMutRef::from(&mut self.own);
                op.real(&mut r)?;
                same(&r, &next)?;
            }
            2 => {
                let mut r: BitVecValueMutRef = self.store.as_mut_slice().get_mut_ref(dst);
                op.real(&mut r)?;
                same(&r, &next)?;
            }
            4 => {
                op.real(&mut self.foreign)?;
                same(&self.foreign, &next)?;
                if self.foreign.words.len() != n as usize {
                    return Err("a user's own vector changed its number of words".into());
                }
            }
            _ => {
                // the sources directly before and after the destination
                if let Upd::AssignSlot(v) = op {
                    self.store[1..1 + n as usize].copy_from_slice(&v.words());
                    self.store[2 * n as usize + 2..3 * n as usize + 2].copy_from_slice(&v.words());
                    exp = self.store.clone();
                }
                let (mut r, a, b): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = self.store.as_mut_slice().get_mut_ref((dst, src, src2));
                match op {
                    Upd::AssignSlot(_) => {
                        r.assign(a);
                        same(&r, &next)?;
                        r.clear();
                        r.assign(b);
                    }
                    _ => op.real(&mut r)?,
                }
                same(&r, &next)?;
            }
        }
        if self.h < 2 {
            same(&self.own, &next)?;
        } else if self.h < 4 {
            exp[n as usize + 2..2 * n as usize + 2].copy_from_slice(&next.words());
        }
        check_store("storage around the target", &self.store, &exp)?;
        *cur = next;
        Ok(())
    }
}

fn updates(init: &M, h: u32, ops: &[Upd]) -> Result<u64, String> {
    let mut t = Target::new(init, h);
    let mut cur = init.clone();
    for (n, op) in ops.iter().enumerate() {
        t.apply(op, &mut cur).map_err(|e| format!("update {n} ({}): {e}", op.text()))?;
    }
    Ok(cur.words().iter().fold(0, |h, w| fnv(h, *w)))
}

fn upds(w: u32, rich: bool) -> Vec<Upd> {
    if w == 0 {
        return single_updates(0, rich);
    }
    let pat = patterns(w);
    let (p, q) = (pat[pat.len() - 1].clone(), pat[pat.len() - 2].clone());
    let top = M::one_hot(w, w - 1);
    let umax = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    let (imin, imax) = if w >= 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
    let mut o = vec![
        Upd::Assign(p.clone()),
        Upd::AssignRef(top.clone()),
        Upd::AssignSlot(q.clone()),
        Upd::U64(0),
        Upd::U64(1),
        Upd::U64(umax),
        Upd::I64(imin),
        Upd::I64(imax),
        Upd::I64(-1),
        Upd::Str("".into(), 2),
        Upd::Str("".into(), 16),
        Upd::Str("1".into(), 10),
        Upd::Str("-1".into(), 16),
        Upd::Str(p.hex_str(), 16),
        Upd::Str(q.uint().to_str_radix(10), 10),
        Upd::Str("1x".into(), 10),
        Upd::Str("g".into(), 16),
        Upd::Clear,
        Upd::Ones,
        Upd::Set(0),
        Upd::Set(w - 1),
        Upd::Unset(w - 1),
        Upd::Unset(w / 2),
        Upd::Mask,
        Upd::Dirty,
    ];
    if rich {
        o.extend([
            Upd::AssignSlot(M::ones(w)),
            Upd::Assign(M::zero(w)),
            Upd::Str(p.bit_str(), 2),
            Upd::Str("1".into(), 2),
            Upd::Str("".into(), 10),
            Upd::Str("-".into(), 10),
            Upd::Str("--1".into(), 16),
            Upd::Str("2".into(), 2),
            Upd::Str(format!("-{}", top.bit_str()), 2),
            Upd::Str(format!("+{}", top.uint().to_str_radix(10)), 10),
            Upd::Str((BigUint::from(1u32) << w).to_str_radix(16), 16),
            Upd::Str((BigUint::from(1u32) << w).to_str_radix(2), 2),
            Upd::Str((BigUint::from(1u32) << w).to_str_radix(10), 10),
            Upd::Unset(0),
            Upd::Set(w / 2),
            Upd::U64(umax / 3),
            Upd::I64(0),
        ]);
        for k in [31u32, 32, 62, 63, 64, 65, 127, 128] {
            if k < w {
                o.push(Upd::Set(k));
                o.push(Upd::Unset(k));
            }
        }
    }
    let mut out: Vec<Upd> = vec![];
    for u in o {
        if !out.contains(&u) {
            out.push(u);
        }
    }
    out
}

/// every kind of numeral, integer and value that fits
fn single_updates(w: u32, deep: bool) -> Vec<Upd> {
    let mut o = vec![Upd::Clear, Upd::Ones, Upd::Mask, Upd::Dirty];
    let mut vals = if w <= 6 { full(w) } else if deep { edges(w) } else { edges_sparse(w) };
    if w > 20 {
        vals.extend(shapes(w).into_iter().step_by(if deep { 1 } else { 4 }));
    }
    let mut nums: Vec<(String, u32)> = vec![];
    let bases: &[u32] = if w <= 128 { &[2, 3, 8, 10, 16, 36] } else { &[2, 10, 16] };
    for r in bases.iter().copied() {
        let hi = char::from_digit(r - 1, r).unwrap();
        for s in ["", "0", "00", "-0", "+0", "1", "01", "-1", "+1", "10", "-10", "11", "000000000000000000000000"] {
            nums.push((s.into(), r));
        }
        // every length
        let digits = M::ones(w).uint().to_str_radix(r).len();
        for n in 1..=digits + 1 {
            nums.push((format!("1{}", "0".repeat(n - 1)), r));
            if deep || n % 3 == 0 || n + 2 > digits {
                nums.push((hi.to_string().repeat(n), r));
                nums.push((format!("-1{}", "0".repeat(n - 1)), r));
                nums.push((format!("{}1", "0".repeat(n - 1)), r));
                nums.push(("0".repeat(n), r));
            }
        }
        for v in vals.iter().step_by(if deep || w <= 6 { 1 } else { 3 }) {
            nums.push((v.uint().to_str_radix(r), r));
            nums.push((v.int().to_str_radix(r).to_uppercase(), r));
        }
    }
    if w == 0 {
        // the only numerals that denote a value without bits
        nums.retain(|(s, _)| s.is_empty() || s == "0");
    }
    o.extend(nums.into_iter().map(|(s, r)| Upd::Str(s, r)));
    for v in &vals {
        o.push(Upd::Assign(v.clone()));
        o.push(Upd::AssignSlot(v.clone()));
    }
    let umax = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    let (imin, imax) = if w >= 64 { (i64::MIN, i64::MAX) } else if w == 0 { (0, 0) } else { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
    for k in 0..64u32 {
        for x in [1u64 << k, (1u64 << k) - 1, !(1u64 << k), u64::MAX << k, u64::MAX >> k] {
            if x <= umax {
                o.push(Upd::U64(x));
            }
            if x as i64 >= imin && x as i64 <= imax {
                o.push(Upd::I64(x as i64));
            }
        }
    }
    o
}

#[allow(clippy::too_many_arguments)]
fn dfs22(l: &mut Loc, init: &M, h: u32, ops: &[Upd], path: &mut Vec<usize>, t: &Target, cur: &M, depth: usize) -> R {
    for k in 0..ops.len() {
        let (mut t2, mut c2) = (t.clone(), cur.clone());
        path.push(k);
        l.states += 1;
        l.check(
            || {
                let s: Vec<String> = path.iter().map(|p| ops[*p].text()).collect();
                format!("upd h={h} init={} ops={}", init.text(), s.join(";"))
            },
            || {
                t2.apply(&ops[k], &mut c2)?;
                Ok(c2.words().iter().fold(k as u64, |h, w| fnv(h, *w)))
            },
        )?;
        if depth > 1 {
            dfs22(l, init, h, ops, path, &t2, &c2, depth - 1)?;
        }
        path.pop();
    }
    Ok(())
}

pub fn c22(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 200 } else { 330 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)) {
        jobs.push(job(format!("all pairs of updates, width {w}"), move |l| {
            let ops = upds(w, true);
            let pat = patterns(w).pop().unwrap();
            for h in 0..TARGETS {
                for init in dedup(vec![M::ones(w), pat.clone()]) {
                    dfs22(l, &init, h, &ops, &mut vec![], &Target::new(&init, h), &init, 2)?;
                }
            }
            Ok(())
        }));
        jobs.push(job(format!("every kind of source over old contents, width {w}"), move |l| {
            let ops = single_updates(w, t == Tier::Thorough && w <= 330);
            for h in 0..TARGETS {
                if w > 1100 && h != 0 && h != 2 {
                    continue;
                }
                for init in dedup(vec![M::ones(w), if w == 0 { M::zero(0) } else { M::one_hot(w, w - 1) }, patterns(w).pop().unwrap()]) {
                    for op in &ops {
                        l.states += 1;
                        let o = std::slice::from_ref(op);
                        l.check(|| format!("upd h={h} init={} ops={}", init.text(), op.text()), || Ok(updates(&init, h, o)?))?;
                    }
                }
            }
            Ok(())
        }));
        jobs.push(job(format!("every bit position, width {w}"), move |l| {
            for h in 0..TARGETS {
                for init in [M::zero(w), M::ones(w), patterns(w).pop().unwrap()] {
                    for i in 0..w {
                        for op in [Upd::Set(i), Upd::Unset(i)] {
                            l.states += 1;
                            let ops = [op];
                            l.check(|| format!("upd h={h} init={} ops={}", init.text(), ops[0].text()), || Ok(updates(&init, h, &ops)?))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    for w in [16385u32, 65537] {
        for h in 0..TARGETS {
            jobs.push(job(format!("updates, width {w}, target {h}"), move |l| {
                let ops: Vec<Upd> = upds(w, false);
                for init in [M::ones(w), M::zero(w)] {
                    dfs22(l, &init, h, &ops, &mut vec![], &Target::new(&init, h), &init, 1)?;
                }
                Ok(())
            }));
        }
    }
    let (depth, ws): (usize, Vec<u32>) = if t == Tier::Quick {
        (3, vec![1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256])
    } else {
        (4, vec![1, 2, 8, 32, 63, 64, 65, 127, 128, 129, 192, 193])
    };
    for w in ws {
        for h in 0..TARGETS {
            jobs.push(job(format!("every update sequence up to depth {depth}, width {w}, target {h}"), move |l| {
                let ops = upds(w, false);
                for init in dedup(vec![M::ones(w), patterns(w).pop().unwrap()]) {
                    dfs22(l, &init, h, &ops, &mut vec![], &Target::new(&init, h), &init, depth)?;
                }
                Ok(())
            }));
        }
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["canonical"]);
    jobs
}
