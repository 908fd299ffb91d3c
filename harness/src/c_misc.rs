//! C25 rejection of calls outside the contract, C26 independence of earlier calls.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{eq, same, M};
use crate::ops::*;
use baa::*;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub fn replay(c: &Case) -> Result<(), Fail> {
    match c.op.as_str() {
        "mixed" => {
            mixed(c.u("op"), &c.m("a"), &c.m("b"), c.u("ha"), c.u("hb"))?;
        }
        "assign" => {
            assign(&c.m("a"), &c.m("b"), c.u("ha"), c.u("hb"))?;
        }
        "slice" => {
            slice(&c.m("a"), c.u("hi"), c.u("lo"), c.u("h"))?;
        }
        "fixed" => {
            fixed(&c.m("a"), c.u("f"), c.u("h"))?;
        }
        "array" => {
            array(c.u("kind"), c.u("iw"), c.u("dw"), c.u("wi"), c.u("wd"))?;
        }
        "limit" => {
            limit(c.u("iw"), c.u("dw"), c.u("how"))?;
        }
        "calls" => {
            let cs: Vec<Call> = c.s("seq").split(';').map(Call::parse).collect();
            calls(&cs)?;
        }
        "again" => {
            again(&Call::parse(c.s("x")), &Call::parse(c.s("y")), c.u("n"))?;
        }
        "inplace" => {
            in_place(c.u("kind"), &c.m("a"), &c.m("b"), &c.m("c"), c.u("how"))?;
        }
        "pcalls" => {
            let seq: Vec<PCall> = c.s("seq").split(';').map(PCall::parse).collect();
            pcalls(&seq)?;
        }
        "interners" => {
            interners(&Step::list(c.s("seq")))?;
        }
        "arrays" => {
            arrays(c.u("reps"), c.u("dw"), &ArrStep::list(c.s("seq")))?;
        }
        o => panic!("unknown trace op {o}"),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25

/// Judges a call outside the contract: with debug assertions it must panic; without them it is
/// unspecified what it returns (but see the callers: nothing else may change).
fn refused<T>(what: &str, f: impl FnOnce() -> T) -> Result<u64, String> {
    let r = catch(f);
    if cfg!(debug_assertions) && r.is_ok() {
        return Err(format!("{what} was not rejected"));
    }
    Ok(r.is_ok() as u64)
}

/// Runs `$body` with `$v` bound to the value of `$m` held in one of five ways; afterwards neither
/// the value nor the store around it may have changed.
macro_rules! held {
    ($m:expr, $h:expr, $v:ident => $body:expr) => {{
        let m: &M = $m;
        let mut owned = m.real();
        let n = m.words().len();
        let ix = BitVecValueIndex::new(2, m.w());
        let mut store: Vec<u64> = (0..n as u64 + 4).map(|i| 0xfeed_ffff_dead_0001 ^ (i << 33)).collect();
        store[2..2 + n].copy_from_slice(&m.words());
        let before = store.clone();
        let r = match $h {
            0 => {
                let $v = &owned;
                $body
            }
            1 => {
                let $v = &BitVecValueRef::from(&owned);
                $body
            }
            2 => {
                let $v = &BitVecValueMutRef::from(&mut owned);
                $body
            }
            3 => {
                let x: BitVecValueRef = store.as_slice().get_ref(ix);
                let $v = &x;
                $body
            }
            _ => {
                let x: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ix);
                let $v = &x;
                $body
            }
        };
        if store != before {
            return Err("the store changed".into());
        }
        same(&owned, m).map_err(|e| format!("the operand changed: {e}"))?;
        r
    }};
}

const HOLD: u32 = 5;
const MIXED: u32 = 21;

/// a two-operand operation on operands of different widths
fn mixed(op: u32, a: &M, b: &M, ha: u32, hb: u32) -> Result<u64, String> {
    held!(a, ha, va => held!(b, hb, vb => match op as usize {
        n @ 0..=8 => {
            let (o, name) = BINS[n];
            refused(name, || o.real(va, vb))
        }
        n @ 9..=18 => refused(PREDS[n - 9], || match n - 9 {
            0 => va.is_equal(vb),
            1 => va.is_not_equal(vb),
            2 => va.is_greater(vb),
            3 => va.is_greater_or_equal(vb),
            4 => va.is_less(vb),
            5 => va.is_less_or_equal(vb),
            6 => va.is_greater_signed(vb),
            7 => va.is_greater_or_equal_signed(vb),
            8 => va.is_less_signed(vb),
            _ => va.is_less_or_equal_signed(vb),
        }),
        19 => refused("operator +", || &a.real() + vb),
        _ => refused("operator -", || &a.real() - vb),
    }))
}

/// assigning a value of another width: the target keeps its value when this is rejected
fn assign(a: &M, b: &M, ha: u32, hb: u32) -> Result<u64, String> {
    let n = a.words().len();
    let mut own = a.real();
    let mut store: Vec<u64> = (0..n as u64 + 4).map(|i| 0xfeed_ffff_dead_0001 ^ (i << 33)).collect();
    store[2..2 + n].copy_from_slice(&a.words());
    let before = store.clone();
    let src = b.real();
    let view = b.words();
    let r = {
        let s: BitVecValueRef = if hb == 0 { (&src).into() } else { view.as_slice().get_ref(BitVecValueIndex::new(0, b.w())) };
        match ha {
            0 => refused("assigning a value of another width", || own.assign(s)),
            1 => refused("assigning a value of another width", || BitVecValueMutRef::from(&mut own).assign(s)),
            _ => refused("assigning a value of another width", || {
                let mut d: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(BitVecValueIndex::new(2, a.w()));
                d.assign(s)
            }),
        }?
    };
    eq("the source changed", &src, &b.real())?;
    eq("words before the target", &store[..2], &before[..2])?;
    eq("words after the target", &store[2 + n..], &before[2 + n..])?;
    if cfg!(debug_assertions) {
        same(&own, a).map_err(|e| format!("target after a rejected assignment: {e}"))?;
        eq("store after a rejected assignment", store, before)?;
    }
    Ok(r)
}

fn slice(a: &M, hi: u32, lo: u32, h: u32) -> Result<u64, String> {
    held!(a, h, v => {
        let r = refused("a slice out of bounds", || if cfg!(debug_assertions) { Some(v.slice(hi, lo)) } else { None });
        r
    })
}

fn fixed(a: &M, f: u32, h: u32) -> Result<u64, String> {
    held!(a, h, v => {
        refused("more fraction bits than bits", || if cfg!(debug_assertions) { Some(v.to_unsigned_fixed_point(f)) } else { None })?;
        refused("more fraction bits than bits", || if cfg!(debug_assertions) { Some(v.to_signed_fixed_point(f)) } else { None })
    })
}

/// select and store with an index of `wi` bits and data of `wd` bits on an array of another type
fn array(kind: u32, iw: u32, dw: u32, wi: u32, wd: u32) -> Result<u64, String> {
    let zero = BitVecValue::zero(iw);
    let d = M::ones(dw).real();
    let (good, bad) = (M::of_u64(1, iw).real(), M::of_u64(1, wi).real());
    let data = M::of_u64(1, wd).real();
    let mut h = 0;
    if kind == 2 {
        let mut s = SparseArrayValue::new(iw, &d);
        s.store(&good, &M::zero(dw).real());
        let n0 = s.non_default_entries().count();
        if wi != iw {
            h += refused("select with an index of another width", || s.select(&bad))?;
        }
        h += refused("store with another type", || s.store(if wi == iw { &good } else { &bad }, &data))?;
        if cfg!(debug_assertions) {
            eq("entries after a rejected store", s.non_default_entries().count(), n0)?;
            same(&s.select(&zero), &(if zero == good { M::zero(dw) } else { M::ones(dw) })).map_err(|e| format!("after a rejected store: {e}"))?;
        }
        return Ok(h);
    }
    let mut a = if kind == 0 { ArrayValue::new_dense(iw, &d) } else { ArrayValue::new_sparse(iw, &d) };
    a.store(&good, &M::zero(dw).real());
    let before = a.clone();
    if wi != iw {
        h += refused("select with an index of another width", || a.select(&bad))?;
    }
    h += refused("store with another type", || a.store(if wi == iw { &good } else { &bad }, &data))?;
    if cfg!(debug_assertions) {
        eq("array equals its copy after a rejected store", a.is_equal(&before), Some(true))?;
        same(&a.select(&good), &M::zero(dw)).map_err(|e| format!("after a rejected store: {e}"))?;
        eq("representation", a.is_dense(), kind == 0)?;
    }
    Ok(h)
}

/// dense arrays beyond (how 0: created, 1: converted) or exactly at (how 2) the limit of 1 GiB
fn limit(iw: u32, dw: u32, how: u32) -> Result<u64, String> {
    let zero = BitVecValue::zero(dw);
    match how {
        0 if cfg!(debug_assertions) => refused("a dense array above 1 GiB", || ArrayValue::new_dense(iw, &zero).num_elements()),
        1 if cfg!(debug_assertions) => {
            let mut a = ArrayValue::new_sparse(iw, &zero);
            refused("making an array above 1 GiB dense", || a.make_dense())
        }
        2 => {
            let a = ArrayValue::new_dense(iw, &zero);
            let last = M::ones(iw).real();
            eq("elements", a.num_elements(), 1usize << iw)?;
            same(&a.select(&last), &M::zero(dw))?;
            Ok(2)
        }
        _ => Ok(0),
    }
}

pub fn c25(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 70u32 } else { 140 };
    let edge: [u32; 14] = [127, 128, 129, 130, 191, 192, 193, 200, 256, 257, 320, 512, 1024, 4097];
    let widths: Vec<u32> = (0..=dense).chain(edge.into_iter().filter(|w| *w > dense)).collect();
    // a few values that have the same words at many widths
    let vals = |w: u32| dedup(vec![M::zero(w), M::of_u64(1, w), M::of_u64(5, w), M::ones(w)]);
    for &wa in &widths {
        let ws = widths.clone();
        jobs.push(job(format!("operands of different widths, first {wa}"), move |l| {
            for &wb in ws.iter().filter(|w| **w != wa) {
                for a in &vals(wa) {
                    for b in &vals(wb) {
                        for op in 0..MIXED {
                            l.states += 1;
                            l.check(|| format!("mixed op={op} a={} b={} ha=0 hb=0", a.text(), b.text()), || Ok(mixed(op, a, b, 0, 0)?))?;
                        }
                        for ha in 0..3 {
                            for hb in 0..2 {
                                l.states += 1;
                                l.check(|| format!("assign a={} b={} ha={ha} hb={hb}", a.text(), b.text()), || Ok(assign(a, b, ha, hb)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    const SOME: [u32; 12] = [0, 1, 2, 8, 31, 63, 64, 65, 127, 128, 129, 192];
    for wa in SOME {
        jobs.push(job(format!("operands of different widths in every holder, first {wa}"), move |l| {
            for wb in SOME.into_iter().filter(|w| *w != wa) {
                for (a, b) in vals(wa).iter().zip(vals(wb).iter()) {
                    for ha in 0..HOLD {
                        for hb in 0..HOLD {
                            for op in 0..MIXED {
                                l.states += 1;
                                l.check(|| format!("mixed op={op} a={} b={} ha={ha} hb={hb}", a.text(), b.text()), || Ok(mixed(op, a, b, ha, hb)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    for &w in &widths {
        jobs.push(job(format!("slices and fractions out of bounds, width {w}"), move |l| {
            for a in &[M::zero(w), M::ones(w)] {
                for h in 0..HOLD {
                    let out: Vec<u32> = vec![w, w + 1, w + 2, w + 63, w + 64, w + 65, (w + 1).next_multiple_of(64), 2 * w + 1, 65536, u32::MAX - 1, u32::MAX];
                    for &hi in &out {
                        for lo in [0, w / 2, w.saturating_sub(1), w, hi] {
                            if lo <= hi {
                                l.states += 1;
                                l.check(|| format!("slice a={} hi={hi} lo={lo} h={h}", a.text()), || Ok(slice(a, hi, lo, h)?))?;
                            }
                        }
                    }
                    for hi in 0..w.min(140) {
                        for lo in [hi + 1, hi + 2, w - 1, w, w + 64] {
                            if lo > hi {
                                l.states += 1;
                                l.check(|| format!("slice a={} hi={hi} lo={lo} h={h}", a.text()), || Ok(slice(a, hi, lo, h)?))?;
                            }
                        }
                    }
                    for f in (w + 1..=w + 70).chain([2 * w + 1, 128, 256, 65536, u32::MAX].into_iter().filter(move |f| *f > w)) {
                        l.states += 1;
                        l.check(|| format!("fixed a={} f={f} h={h}", a.text()), || Ok(fixed(a, f, h)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    for iw in 0..=if t == Tier::Quick { 8u32 } else { 12 } {
        jobs.push(job(format!("array accesses of another type, {iw} index bits"), move |l| {
            for dw in [0u32, 1, 2, 7, 8, 9, 32, 63, 64, 65, 66, 128, 129, 200] {
                for kind in 0..3 {
                    for wi in (0..=20u32).chain([31, 32, 33, 63, 64, 65, 128, 129]) {
                        for wd in [dw, 0, 1, 2, dw.saturating_sub(1), dw + 1, dw + 64, 64, 65] {
                            if wi == iw && wd == dw {
                                continue;
                            }
                            l.states += 1;
                            l.check(|| format!("array kind={kind} iw={iw} dw={dw} wi={wi} wd={wd}"), || Ok(array(kind, iw, dw, wi, wd)?))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    jobs.push(job("accesses of another type, many index bits", move |l| {
        for iw in [31u32, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200] {
            for dw in [1u32, 8, 64, 65, 129] {
                for kind in 1..3 {
                    for wi in (iw - 2..=iw + 2).chain([0, 1, 64, 65, 128]) {
                        for wd in [dw, dw - 1, dw + 1, 1, 64, 65] {
                            if wi == iw && wd == dw {
                                continue;
                            }
                            l.states += 1;
                            l.check(|| format!("array kind={kind} iw={iw} dw={dw} wi={wi} wd={wd}"), || Ok(array(kind, iw, dw, wi, wd)?))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    jobs.push(job("dense arrays around the limit of 1 GiB", move |l| {
        // (data width, bytes per element as a power of two; -3: one bit)
        for (dw, log) in [(1u32, -3i32), (2, 0), (8, 0), (9, 3), (64, 3), (65, 4), (128, 4), (129, 5), (256, 5), (512, 6), (1024, 7), (4096, 9)] {
            let last = (30 - log) as u32;
            for iw in last + 1..=60 {
                for how in 0..2 {
                    l.states += 1;
                    l.check(|| format!("limit iw={iw} dw={dw} how={how}"), || Ok(limit(iw, dw, how)?))?;
                }
            }
            if dw == 2 || dw == 64 {
                l.check(|| format!("limit iw={last} dw={dw} how=2"), || Ok(limit(last, dw, 2)?))?;
            }
        }
        Ok(())
    }));
    jobs
}

// ------------------------------------------------------------------------------------------ C26

/// one call of a pure function, judged by the model
#[derive(Clone)]
struct Call {
    kind: u32,
    a: M,
    b: M,
}
const KINDS: u32 = 42;

impl Call {
    fn text(&self) -> String {
        format!("{}:{}:{}", self.kind, self.a.text(), self.b.text())
    }
    fn parse(s: &str) -> Call {
        let mut p = s.split(':');
        let kind = p.next().unwrap().parse().unwrap();
        Call { kind, a: M::parse(p.next().unwrap()), b: M::parse(p.next().unwrap()) }
    }
}

/// a name for messages, and whether the operation needs operands of the same width
fn kind_name(k: u32) -> (&'static str, bool) {
    match k {
        0..=8 => (BINS[k as usize].1, true),
        9..=18 => (PREDS[k as usize - 9], true),
        19 => ("not", false),
        20 => ("negate", false),
        21 => ("slice", false),
        22 => ("zero_extend", false),
        23 => ("sign_extend", false),
        24 => ("concat", false),
        25 => ("to_bit_str", false),
        26 => ("to_hex_str", false),
        27 => ("to_dec_str", false),
        28 => ("signed strings", false),
        29 => ("to_bytes_le", false),
        30 => ("to_big_uint/int", false),
        31 => ("to_u64/i64/bool", false),
        32 => ("predicates", false),
        33 => ("bit reads", false),
        34 => ("==", false),
        35 => ("cmp", false),
        36 => ("hash", false),
        37 => ("parse hex", false),
        38 => ("parse decimal", false),
        39 => ("from bytes", false),
        40 => ("from big integers", false),
        _ => ("ValueInterner", false),
    }
}

fn hash_of(v: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// executes operation `k` on the given objects, whose values are `ma` and `mb`
fn perform<A: BitVecOps, B: BitVecOps>(k: u32, a: &A, b: &B, ma: &M, mb: &M) -> Result<u64, String> {
    let w = ma.w();
    let r = match k {
        0..=8 => {
            let op = BINS[k as usize].0;
            let r = op.real(a, b);
            same(&r, &op.model(ma, mb))?;
            fp(&r)
        }
        9..=18 => {
            let i = k as usize - 9;
            let got = match i {
                0 => a.is_equal(b),
                1 => a.is_not_equal(b),
                2 => a.is_greater(b),
                3 => a.is_greater_or_equal(b),
                4 => a.is_less(b),
                5 => a.is_less_or_equal(b),
                6 => a.is_greater_signed(b),
                7 => a.is_greater_or_equal_signed(b),
                8 => a.is_less_signed(b),
                _ => a.is_less_or_equal_signed(b),
            };
            eq("result", got, preds_model(ma, mb)[i])?;
            got as u64
        }
        19..=23 => {
            if k == 21 && w == 0 {
                return Ok(0);
            }
            let op = match k {
                19 => Un::Not,
                20 => Un::Neg,
                21 => Un::Slice(w.saturating_sub(1), mb.w().min(w.saturating_sub(1)) / 2),
                22 => Un::Zext(mb.w()),
                _ => Un::Sext(mb.w()),
            };
            let r = op.real(a);
            same(&r, &op.model(ma))?;
            fp(&r)
        }
        24 => {
            let r = a.concat(b);
            same(&r, &ma.concat(mb))?;
            fp(&r)
        }
        25 => {
            eq("text", a.to_bit_str(), ma.bit_str())?;
            1
        }
        26 => {
            eq("text", a.to_hex_str(), ma.hex_str())?;
            2
        }
        27 => {
            eq("text", a.to_dec_str(), ma.uint().to_str_radix(10))?;
            3
        }
        28 => {
            for (s, radix) in [(a.to_bit_str_signed(), 2), (a.to_hex_str_signed(), 16)] {
                let n = num_bigint::BigInt::parse_bytes(if s.is_empty() { b"0" } else { s.as_bytes() }, radix);
                eq("number denoted by the text", n, Some(ma.int()))?;
            }
            4
        }
        29 => {
            eq("bytes", a.to_bytes_le(), ma.bytes())?;
            5
        }
        30 => {
            eq("to_big_uint", a.to_big_uint(), ma.uint())?;
            eq("to_big_int", a.to_big_int(), ma.int())?;
            6
        }
        31 => {
            eq("to_u64", a.to_u64(), u64::try_from(ma.uint()).ok())?;
            eq("to_i64", a.to_i64(), i64::try_from(ma.int()).ok())?;
            eq("to_bool", a.to_bool(), if w == 1 { Some(ma.bit(0)) } else { None })?;
            7
        }
        32 => {
            eq("is_zero", a.is_zero(), ma.is_zero())?;
            eq("is_negative", a.is_negative(), ma.sign())?;
            eq("is_tru", a.is_tru(), w == 1 && ma.bit(0))?;
            eq("is_fals", a.is_fals(), w == 1 && !ma.bit(0))?;
            8
        }
        33 => {
            for p in 0..w {
                eq("is_bit_set", a.is_bit_set(p), ma.bit(p))?;
            }
            9
        }
        _ => unreachable!(),
    };
    Ok(r)
}

impl Call {
    fn run(&self) -> Result<u64, String> {
        let (ma, mb) = (&self.a, &self.b);
        let name = kind_name(self.kind).0;
        let e = |e: String| format!("{name}: {e}");
        let (a, b) = (ma.real(), mb.real());
        let w = ma.w();
        match self.kind {
            k @ 0..=33 => perform(k, &a, &b, ma, mb).map_err(e),
            34 => {
                eq("owned", a == b, ma == mb).map_err(e)?;
                eq("borrowed", BitVecValueRef::from(&a) == BitVecValueRef::from(&b), ma == mb).map_err(e)?;
                Ok(1)
            }
            35 => {
                eq("equal", a.cmp(&b).is_eq(), ma == mb).map_err(e)?;
                eq("reversed", b.cmp(&a), a.cmp(&b).reverse()).map_err(e)?;
                Ok(2)
            }
            36 => {
                eq("owned and borrowed", hash_of(&a), hash_of(&BitVecValueRef::from(&a))).map_err(e)?;
                Ok(hash_of(&a))
            }
            37 => {
                let s = ma.hex_str();
                match BitVecValue::from_str_radix(&s, 16, w) {
                    Ok(v) => same(&v, ma).map_err(e)?,
                    Err(x) => return Err(format!("parsing {s} at width {w} fails: {x:?}")),
                }
                Ok(3)
            }
            38 => {
                let s = ma.int().to_str_radix(10);
                match BitVecValue::from_str_radix(&s, 10, w) {
                    Ok(v) => same(&v, ma).map_err(e)?,
                    Err(x) => return Err(format!("parsing {s} at width {w} fails: {x:?}")),
                }
                Ok(4)
            }
            39 => {
                same(&BitVecValue::from_bytes_le(&ma.bytes(), w), ma).map_err(e)?;
                Ok(5)
            }
            40 => {
                same(&BitVecValue::from_big_int(&ma.int(), w), ma).map_err(e)?;
                same(&BitVecValue::from_big_uint(&ma.uint(), w), ma).map_err(e)?;
                Ok(6)
            }
            _ => {
                let mut i = ValueInterner::new();
                let (x, y) = (i.get_index(&a), i.get_index(&b));
                for (m, ix) in [(ma, x), (mb, y)] {
                    let r: BitVecValueRef = i.words().get_ref(ix);
                    same(&r, m).map_err(e)?;
                }
                eq("same index", x == y, ma == mb).map_err(e)?;
                Ok(7)
            }
        }
    }
}

/// the calls one after the other, each judged
fn calls(cs: &[Call]) -> Result<u64, String> {
    let mut h = 0;
    for (n, c) in cs.iter().enumerate() {
        h = fnv(h, c.run().map_err(|e| format!("call {n}: {e}"))?);
    }
    Ok(h)
}

/// one call that takes more than bit-vectors, judged by the model
#[derive(Clone)]
enum PCall {
    /// text, base, width
    Parse(String, u32, u32),
    BitStr(String),
    HexStr(String),
    U64(u64, u32),
    I64(i64, u32),
    Bytes(Vec<u8>, u32),
    Big(i64, u32, u32),
    /// value, fraction bits
    Fixed(M, u32),
    Slice(M, u32, u32),
    Bit(M, u32),
    Extend(M, u32),
    Set(M, u32, bool),
}

impl PCall {
    fn text(&self) -> String {
        match self {
            PCall::Parse(s, r, w) => format!("parse:{}:{r}:{w}", crate::c_conv::hex(s.as_bytes())),
            PCall::BitStr(s) => format!("bitstr:{}", crate::c_conv::hex(s.as_bytes())),
            PCall::HexStr(s) => format!("hexstr:{}", crate::c_conv::hex(s.as_bytes())),
            PCall::U64(v, w) => format!("u64:{v}:{w}"),
            PCall::I64(v, w) => format!("i64:{v}:{w}"),
            PCall::Bytes(b, w) => format!("bytes:{}:{w}", crate::c_conv::hex(b)),
            PCall::Big(v, s, w) => format!("big:{v}:{s}:{w}"),
            PCall::Fixed(a, f) => format!("fixed:{}:{f}", a.text()),
            PCall::Slice(a, hi, lo) => format!("slice:{}:{hi}:{lo}", a.text()),
            PCall::Bit(a, p) => format!("bit:{}:{p}", a.text()),
            PCall::Extend(a, by) => format!("extend:{}:{by}", a.text()),
            PCall::Set(a, p, v) => format!("set:{}:{p}:{}", a.text(), *v as u32),
        }
    }
    fn parse(s: &str) -> PCall {
        let p: Vec<&str> = s.split(':').collect();
        let u = |i: usize| p[i].parse().unwrap();
        match p[0] {
            "parse" => PCall::Parse(crate::c_conv::unhex(p[1]), u(2), u(3)),
            "bitstr" => PCall::BitStr(crate::c_conv::unhex(p[1])),
            "hexstr" => PCall::HexStr(crate::c_conv::unhex(p[1])),
            "u64" => PCall::U64(p[1].parse().unwrap(), u(2)),
            "i64" => PCall::I64(p[1].parse().unwrap(), u(2)),
            "bytes" => PCall::Bytes(crate::c_conv::unhex_bytes(p[1]), u(2)),
            "big" => PCall::Big(p[1].parse().unwrap(), u(2), u(3)),
            "fixed" => PCall::Fixed(M::parse(p[1]), u(2)),
            "slice" => PCall::Slice(M::parse(p[1]), u(2), u(3)),
            "bit" => PCall::Bit(M::parse(p[1]), u(2)),
            "extend" => PCall::Extend(M::parse(p[1]), u(2)),
            "set" => PCall::Set(M::parse(p[1]), u(2), p[3] == "1"),
            o => panic!("unknown call {o}"),
        }
    }
    fn run(&self) -> Result<u64, String> {
        match self {
            PCall::Parse(s, r, w) => {
                crate::c_conv::parse(s, *r, &M::ones(*w))?;
            }
            PCall::BitStr(s) | PCall::HexStr(s) => {
                crate::c_conv::infer(s)?;
            }
            PCall::U64(v, w) => same(&BitVecValue::from_u64(*v, *w), &M::of_u64(*v, *w))?,
            PCall::I64(v, w) => {
                let m = M::of_u64(v.unsigned_abs(), *w);
                same(&BitVecValue::from_i64(*v, *w), &if *v < 0 { m.neg() } else { m })?
            }
            PCall::Bytes(b, w) => same(&BitVecValue::from_bytes_le(b, *w), &M::of_uint(&num_bigint::BigUint::from_bytes_le(b), *w))?,
            PCall::Big(v, s, w) => {
                let x = num_bigint::BigInt::from(*v) << *s;
                let m = M::of_uint(x.magnitude(), *w);
                same(&BitVecValue::from_big_int(&x, *w), &if *v < 0 { m.neg() } else { m.clone() })?;
                same(&BitVecValue::from_big_uint(x.magnitude(), *w), &m)?;
            }
            PCall::Fixed(a, f) => {
                crate::c_conv::fixed(a, *f)?;
            }
            PCall::Slice(a, hi, lo) => same(&a.real().slice(*hi, *lo), &a.slice(*hi, *lo))?,
            PCall::Bit(a, p) => eq("bit", a.real().is_bit_set(*p), a.bit(*p))?,
            PCall::Extend(a, by) => {
                same(&a.real().zero_extend(*by), &Un::Zext(*by).model(a))?;
                same(&a.real().sign_extend(*by), &Un::Sext(*by).model(a))?;
            }
            PCall::Set(a, p, v) => {
                let mut x = a.real();
                if *v {
                    x.set_bit(*p);
                } else {
                    x.clear_bit(*p);
                }
                let mut m = a.clone();
                m.0[*p as usize] = *v;
                same(&x, &m)?;
            }
        }
        Ok(1)
    }
    /// calls that a careless key would confuse
    fn groups() -> Vec<Vec<PCall>> {
        let mut o = vec![];
        for ws in [vec![8u32, 9, 16, 64], vec![65, 127, 128], vec![129, 192, 256, 300]] {
            let mut g = vec![];
            for s in ["", "0", "1", "10", "11", "101", "-1", "-10", "+1", "7", "1f", "00000001", "1x", "-"] {
                for r in if ws[0] > 128 { vec![2, 16] } else { vec![2, 10, 16] } {
                    for w in &ws {
                        g.push(PCall::Parse(s.into(), r, *w));
                    }
                }
            }
            o.push(g);
        }
        o.push(["", "0", "1", "10", "-1", "1f", "01", "-01", "+1", "1x", "000000000000000000000000000000000001", "fffffffffffffffffffffffffffffffff"].iter().flat_map(|s| [PCall::BitStr(s.to_string()), PCall::HexStr(s.to_string())]).collect());
        o.push(
            [2u32, 8, 9, 63, 64, 65, 128, 129, 256]
                .into_iter()
                .flat_map(|w| [PCall::U64(1, w), PCall::U64(0, w), PCall::U64(3, w), PCall::I64(1, w), PCall::I64(-1, w), PCall::I64(-2, w), PCall::I64(0, w), PCall::Bytes(vec![1], w), PCall::Bytes(vec![], w), PCall::Bytes(vec![3], w), PCall::Big(-1, 0, w), PCall::Big(1, 0, w), PCall::Big(-1, w - 1, w), PCall::Big(1, w - 2, w)])
                .collect(),
        );
        let mut g = vec![];
        for a in [M::of_u64(0b1011_0110, 8), M::of_u64(0b1011_0110, 64), M::of_words(&[6, u64::MAX << 60], 128), M::of_words(&[6, 1, 9], 192), M::of_words(&[9, 1, 6], 192)] {
            let w = a.w();
            for f in [0, 1, 2, 7] {
                g.push(PCall::Fixed(a.clone(), f));
            }
            for (hi, lo) in [(w - 1, 0), (w - 1, 1), (w - 2, 0), (w - 2, 1), (w / 2, w / 2), (w / 2, 0), (w - 1, w / 2), (w / 2 - 1, 0)] {
                g.push(PCall::Slice(a.clone(), hi, lo));
            }
            for p in [0, 1, w / 2, w - 2, w - 1] {
                g.push(PCall::Bit(a.clone(), p));
                g.push(PCall::Set(a.clone(), p, true));
                g.push(PCall::Set(a.clone(), p, false));
            }
            for by in [0, 1, 8, 63, 64, 65, 128] {
                g.push(PCall::Extend(a.clone(), by));
            }
        }
        o.push(g);
        o
    }
}

fn pcalls(cs: &[PCall]) -> Result<u64, String> {
    for (n, c) in cs.iter().enumerate() {
        c.run().map_err(|e| format!("call {n} ({}): {e}", c.text()))?;
    }
    Ok(cs.len() as u64)
}

/// `x` and `y` in turns, n times, always with the first result
fn again(x: &Call, y: &Call, n: u32) -> Result<u64, String> {
    let one = |k: &Call, a: &BitVecValue, b: &BitVecValue| -> u64 {
        match k.kind {
            k @ 0..=8 => fp(&BINS[k as usize].0.real(a, b)),
            k @ 9..=18 => preds_real(a, b)[k as usize - 9] as u64,
            19 => fp(&a.not()),
            20 => fp(&a.negate()),
            21 => fp(&a.slice(a.width() - 1, a.width() / 2)),
            22 => fp(&a.zero_extend(7)),
            23 => fp(&a.sign_extend(70)),
            24 => fp(&a.concat(b)),
            25 => hash_of(&a.to_bit_str()),
            26 => hash_of(&a.to_hex_str()),
            27 => hash_of(&a.to_dec_str()),
            28 => hash_of(&a.to_hex_str_signed()),
            29 => hash_of(&a.to_bytes_le()),
            30 => hash_of(&a.to_big_int()),
            31 => hash_of(&(a.to_u64(), a.to_i64(), a.to_bool())),
            32 => hash_of(&(a.is_zero(), a.is_negative(), a.is_tru(), a.is_fals())),
            33 => hash_of(&(0..a.width()).map(|p| a.is_bit_set(p)).collect::<Vec<_>>()),
            34 => (a == b) as u64,
            35 => a.cmp(b) as i8 as u64,
            36 => hash_of(a),
            37 => fp(&BitVecValue::from_str_radix("7", 16, a.width()).unwrap()),
            38 => fp(&BitVecValue::from_str_radix("-3", 10, a.width()).unwrap()),
            39 => fp(&BitVecValue::from_bytes_le(&[0x35], a.width())),
            40 => fp(&BitVecValue::from_u64(3, a.width()).add(&BitVecValue::from_i64(-2, a.width()))),
            _ => hash_of(&ValueInterner::new().get_index(a)),
        }
    };
    x.run()?;
    y.run()?;
    let (xa, xb, ya, yb) = (x.a.real(), x.b.real(), y.a.real(), y.b.real());
    let (fx, fy) = (one(x, &xa, &xb), one(y, &ya, &yb));
    for i in 1..n {
        if one(x, &xa, &xb) != fx {
            return Err(format!("{} gives another result in round {i}", kind_name(x.kind).0));
        }
        if one(y, &ya, &yb) != fy {
            return Err(format!("{} gives another result in round {i}", kind_name(y.kind).0));
        }
    }
    x.run().map_err(|e| format!("in the end: {e}"))?;
    y.run().map_err(|e| format!("in the end: {e}"))?;
    Ok(fnv(fx, fy))
}

/// The operation on an object, then on the same object (the same storage) after it was changed in
/// place from `a` to `c`; `b` is the other operand throughout. how: 0 owned value, 1 slot of a
/// store, 2 the other operand is changed instead
fn in_place(kind: u32, a: &M, b: &M, c: &M, how: u32) -> Result<u64, String> {
    let name = kind_name(kind).0;
    let e = |when: &'static str| move |e: String| format!("{name} {when}: {e}");
    match how {
        0 => {
            let (mut x, y) = (a.real(), b.real());
            let h = perform(kind, &x, &y, a, b).map_err(e("at first"))?;
            x.assign(&c.real());
            let g = perform(kind, &x, &y, c, b).map_err(e("after an assignment"))?;
            x.words_mut().copy_from_slice(&a.words());
            perform(kind, &x, &y, a, b).map_err(e("after restoring the words"))?;
            Ok(fnv(h, g))
        }
        1 => {
            let n = a.words().len();
            let mut store = vec![u64::MAX; n + 2];
            let ix = BitVecValueIndex::new(1, a.w());
            let y = b.real();
            let mut h = 0;
            for m in [a, c, a] {
                store[1..1 + n].copy_from_slice(&m.words());
                let x: BitVecValueRef = store.as_slice().get_ref(ix);
                h = fnv(h, perform(kind, &x, &y, m, b).map_err(e("on a store slot"))?);
            }
            Ok(h)
        }
        _ => {
            let (x, mut y) = (b.real(), a.real());
            let h = perform(kind, &x, &y, b, a).map_err(e("at first"))?;
            y.assign(&c.real());
            let g = perform(kind, &x, &y, b, c).map_err(e("after changing the second operand"))?;
            Ok(fnv(h, g))
        }
    }
}

/// insertions into one of two interners; (which, value)
#[derive(Clone)]
struct Step(u32, M);
impl Step {
    fn list(s: &str) -> Vec<Step> {
        s.split(';')
            .map(|x| {
                let (i, m) = x.split_once(':').unwrap();
                Step(i.parse().unwrap(), M::parse(m))
            })
            .collect()
    }
    fn text(v: &[Step]) -> String {
        v.iter().map(|s| format!("{}:{}", s.0, s.1.text())).collect::<Vec<_>>().join(";")
    }
}

/// each of two interners gives the indices and has the words it has when it is alone
fn interners(seq: &[Step]) -> Result<u64, String> {
    let mut both = [ValueInterner::new(), ValueInterner::default()];
    let got: Vec<BitVecValueIndex> = seq.iter().map(|s| both[s.0 as usize].get_index(&s.1.real())).collect();
    for which in 0..2u32 {
        let mut alone = ValueInterner::new();
        for (n, s) in seq.iter().enumerate().filter(|x| x.1 .0 == which) {
            let ix = alone.get_index(&s.1.real());
            eq("index next to another interner", got[n], ix)?;
            let r: BitVecValueRef = both[which as usize].words().get_ref(ix);
            same(&r, &s.1).map_err(|e| format!("interner {which}: {e}"))?;
        }
        eq("words next to another interner", both[which as usize].words(), alone.words())?;
    }
    Ok(both.iter().map(|i| i.words().len() as u64).fold(0, |a, b| a * 64 + b))
}

/// one step on one of two arrays
#[derive(Clone, Debug)]
enum ArrStep {
    Store(u32, u32, u32),
    Clear(u32),
    Turn(u32),
    Replace(u32),
}
impl ArrStep {
    fn text(&self) -> String {
        match self {
            ArrStep::Store(w, i, d) => format!("s{w}.{i}.{d}"),
            ArrStep::Clear(w) => format!("c{w}"),
            ArrStep::Turn(w) => format!("t{w}"),
            ArrStep::Replace(w) => format!("r{w}"),
        }
    }
    fn list(s: &str) -> Vec<ArrStep> {
        s.split(';')
            .map(|x| {
                let p: Vec<u32> = x[1..].split('.').map(|n| n.parse().unwrap()).collect();
                match &x[..1] {
                    "s" => ArrStep::Store(p[0], p[1], p[2]),
                    "c" => ArrStep::Clear(p[0]),
                    "t" => ArrStep::Turn(p[0]),
                    _ => ArrStep::Replace(p[0]),
                }
            })
            .collect()
    }
}

/// Two arrays side by side: what is done to one is not seen in the other one. Everything is looked
/// at before and after every step, so that the same question is asked about changing objects.
fn arrays(reps: u32, dw: u32, seq: &[ArrStep]) -> Result<u64, String> {
    let datum = |d: u32| match d {
        0 => M::zero(dw),
        1 => M::of_u64(1, dw),
        _ => M::ones(dw),
    };
    let mk = |which: u32| {
        let d = datum(which + 1).real();
        if reps >> which & 1 == 1 {
            ArrayValue::new_dense(2, &d)
        } else {
            ArrayValue::new_sparse(2, &d)
        }
    };
    let mut real = [mk(0), mk(1)];
    let fresh = |which: u32| (0..4u64).map(|i| (i, datum(which + 1))).collect::<BTreeMap<_, _>>();
    let mut model = [fresh(0), fresh(1)];
    let look = |real: &[ArrayValue; 2], model: &[BTreeMap<u64, M>; 2], when: &str| -> Result<u64, String> {
        let mut h = 0;
        for i in 0..4u64 {
            for k in 0..2 {
                let v = real[k].select(&M::of_u64(i, 2).real());
                same(&v, &model[k][&i]).map_err(|e| format!("array {k} at index {i} {when}: {e}"))?;
                h = fnv(h, fp(&v));
            }
        }
        eq(&format!("equality {when}"), real[0].is_equal(&real[1]), Some(model[0] == model[1]))?;
        eq(&format!("equality with itself {when}"), real[1].is_equal(&real[1].clone()), Some(true))?;
        for k in 0..2 {
            let s = SparseArrayValue::from(real[k].clone());
            let d = s.default();
            let n = model[k].values().filter(|m| m.real() != d).count();
            eq(&format!("entries of array {k} {when}"), s.non_default_entries().count(), n)?;
        }
        Ok(h)
    };
    let mut h = look(&real, &model, "at first")?;
    for (n, s) in seq.iter().enumerate() {
        match *s {
            ArrStep::Store(w, i, d) => {
                real[w as usize].store(&M::of_u64(i as u64, 2).real(), &datum(d).real());
                model[w as usize].insert(i as u64, datum(d));
            }
            ArrStep::Clear(w) => {
                real[w as usize].clear();
                model[w as usize].values_mut().for_each(|v| *v = M::zero(dw));
            }
            ArrStep::Turn(w) => {
                if real[w as usize].is_sparse() {
                    real[w as usize].make_dense();
                } else {
                    // back to sparse by way of the serialised form of its entries
                    let s = SparseArrayValue::from(real[w as usize].clone());
                    let mut a = ArrayValue::new_sparse(2, &s.default());
                    for (i, v) in s.non_default_entries() {
                        a.store(&i, &v);
                    }
                    real[w as usize] = a;
                }
            }
            ArrStep::Replace(w) => {
                // another array at the same place
                real[w as usize] = mk(w);
                model[w as usize] = fresh(w);
            }
        }
        h = fnv(h, look(&real, &model, &format!("after step {n} ({})", s.text()))?);
    }
    Ok(h)
}

/// operands that a careless key would confuse: the same low word, the same high word, the same
/// words at another width, the same number of bits set, rotations of words
fn confusing() -> Vec<Vec<M>> {
    vec![
        vec![M::of_u64(5, 8), M::of_u64(5, 9), M::of_u64(0xfb, 8), M::of_u64(1, 1), M::zero(1), M::of_u64(0x1fb, 9), M::zero(0)],
        vec![M::of_u64(5, 64), M::of_u64(5, 65), M::of_u64(5, 63), M::of_words(&[5, 1], 65), M::of_words(&[1, 1], 65), M::of_words(&[u64::MAX, 1], 65), M::ones(64)],
        vec![
            M::of_words(&[5, 7], 128),
            M::of_words(&[7, 5], 128),
            M::of_words(&[5, 7, 0], 129),
            M::of_words(&[5, 7, 1], 129),
            M::of_words(&[5, 8], 128),
            M::of_words(&[6, 7], 128),
            M::of_words(&[5 ^ 9, 7 ^ 9], 128),
        ],
        vec![
            M::of_words(&[3, 0, 0, 9], 256),
            M::of_words(&[3, 1, 0, 9], 256),
            M::of_words(&[3, 0, 1, 9], 256),
            M::of_words(&[9, 0, 0, 3], 256),
            M::of_words(&[3, 0, 0, 1 << 63], 256),
            M::of_words(&[3, 0, 0, 9], 200),
            M::of_words(&[4, 0, 0, 8], 256),
        ],
        vec![
            M::of_words(&[2, 4, 6, 8, 10], 320),
            M::of_words(&[2, 4, 7, 8, 10], 320),
            M::of_words(&[2, 4, 6, 8, 11], 320),
            M::of_words(&[2, 4, 6, 8, 10], 319),
            M::ones(320),
            M::one_hot(320, 100),
            M::one_hot(320, 228),
        ],
        vec![M::of_u64(3, 32), M::of_u64(3, 33), M::of_u64(1 << 31, 32), M::of_u64(1 << 32, 33), M::of_u64((1 << 32) + 3, 64), M::of_u64(3 << 32, 64), M::of_u64(3, 2)],
    ]
}

pub fn c26(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    let mut families = confusing();
    // everything once more across the families
    families.push(families.iter().flat_map(|f| f.iter().take(2).cloned()).collect());
    for (n, f) in families.into_iter().enumerate() {
        let cs: Vec<Call> = (0..KINDS)
            .flat_map(|kind| {
                let f = f.clone();
                let unary = kind_name(kind).0 == "not" || (25..=33).contains(&kind) || (36..=40).contains(&kind) || kind == 20;
                f.clone().into_iter().flat_map(move |a| {
                    let f = if unary { vec![a.clone()] } else { f.clone() };
                    f.into_iter()
                        .filter(|b| !kind_name(kind).1 || a.w() == b.w())
                        .map(|b| Call { kind, a: a.clone(), b })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for first in 0..KINDS {
            let cs = cs.clone();
            jobs.push(job(format!("every pair of calls, operands {n}, first {}", kind_name(first).0), move |l| {
                for x in cs.iter().filter(|c| c.kind == first) {
                    for y in &cs {
                        l.states += 1;
                        l.check(|| format!("calls seq={};{}", x.text(), y.text()), || Ok(calls(&[x.clone(), y.clone()])?))?;
                    }
                }
                Ok(())
            }));
        }
        // longer histories of the same operation
        let len = if q { 3 } else { 4 };
        for kind in 0..KINDS {
            let cs: Vec<Call> = cs.iter().filter(|c| c.kind == kind).take(if q { 16 } else { 12 }).cloned().collect();
            jobs.push(job(format!("every history of {len} calls of {}, operands {n}", kind_name(kind).0), move |l| {
                let mut ix = vec![0usize; len];
                loop {
                    let h: Vec<Call> = ix.iter().map(|i| cs[*i].clone()).collect();
                    l.states += 1;
                    l.check(|| format!("calls seq={}", h.iter().map(|c| c.text()).collect::<Vec<_>>().join(";")), || Ok(calls(&h)?))?;
                    let mut p = 0;
                    while p < len {
                        ix[p] += 1;
                        if ix[p] < cs.len() {
                            break;
                        }
                        ix[p] = 0;
                        p += 1;
                    }
                    if p == len {
                        return Ok(());
                    }
                }
            }));
        }
    }
    // calls with numbers and texts
    for (n, g) in PCall::groups().into_iter().enumerate() {
        let parts = 8;
        for part in 0..parts {
            let g = g.clone();
            jobs.push(job(format!("every pair of calls with numbers and texts, group {n} part {part}/{parts}"), move |l| {
                for x in g.iter().skip(part).step_by(parts) {
                    for y in &g {
                        l.states += 1;
                        l.check(|| format!("pcalls seq={};{}", x.text(), y.text()), || Ok(pcalls(&[x.clone(), y.clone()])?))?;
                    }
                }
                // longer histories
                let g: Vec<&PCall> = g.iter().step_by(if q { 3 } else { 1 }).collect();
                for x in g.iter().skip(part).step_by(parts) {
                    for y in &g {
                        for z in &g {
                            l.states += 1;
                            l.check(|| format!("pcalls seq={};{};{}", x.text(), y.text(), z.text()), || Ok(pcalls(&[(*x).clone(), (*y).clone(), (*z).clone()])?))?;
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    // many calls
    for kind in 0..KINDS {
        jobs.push(job(format!("{} again and again", kind_name(kind).0), move |l| {
            let n = if q { 66_000 } else { 2_000_000 };
            for w in [5u32, 64, 130] {
                let p = patterns(w);
                let x = Call { kind, a: p[p.len() - 1].clone(), b: p[p.len() - 2].clone() };
                for y in [&x, &Call { kind, a: x.b.clone(), b: x.a.clone() }] {
                    // (long loops of the expensive ones are cut)
                    let n = if (25..=33).contains(&kind) && !q { n / 10 } else { n };
                    l.states += 1;
                    l.check(|| format!("again x={} y={} n={n}", x.text(), y.text()), || Ok(again(&x, y, n)?))?;
                }
            }
            Ok(())
        }));
    }
    // the same storage with other contents
    for w in (1..=if q { 70u32 } else { 140 }).chain([127, 128, 129, 192, 200, 256, 257, 320, 513, 1024]) {
        jobs.push(job(format!("operands changed in place, width {w}"), move |l| {
            let mut vs = if w <= 3 { full(w) } else { few(w) };
            if w > 6 {
                vs.push(M::of_u64(3, w));
            }
            for kind in 0..=33 {
                for a in &vs {
                    for c in &vs {
                        for b in [&vs[vs.len() - 1], &vs[vs.len() / 2]] {
                            for how in 0..if kind <= 18 || kind == 24 { 3 } else { 2 } {
                                l.states += 1;
                                l.check(|| format!("inplace kind={kind} a={} b={} c={} how={how}", a.text(), b.text(), c.text()), || Ok(in_place(kind, a, b, c, how)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // two interners
    let vals = [M::of_u64(1, 8), M::of_u64(9, 8), M::of_u64(9, 64), M::of_u64(1 << 40, 64), M::of_words(&[9, 1], 65), M::of_words(&[9, 1], 128), M::of_words(&[9, 0], 128)];
    let steps: Vec<Step> = (0..2).flat_map(|w| vals.clone().map(|v| Step(w, v))).collect();
    for first in steps.clone() {
        let steps = steps.clone();
        let depth = if q { 4 } else { 5 };
        jobs.push(job(format!("two interners, first {}", Step::text(&[first.clone()])), move |l| {
            fn go(l: &mut Loc, steps: &[Step], pre: &mut Vec<Step>, depth: usize) -> R {
                l.states += 1;
                let p = pre.clone();
                l.check(|| format!("interners seq={}", Step::text(&p)), || Ok(interners(&p)?))?;
                if pre.len() < depth {
                    for s in steps {
                        pre.push(s.clone());
                        go(l, steps, pre, depth)?;
                        pre.pop();
                    }
                }
                Ok(())
            }
            go(l, &steps, &mut vec![first.clone()], depth)
        }));
    }
    // two arrays
    let ops: Vec<ArrStep> = (0..2)
        .flat_map(|w| {
            let mut o = vec![ArrStep::Clear(w), ArrStep::Turn(w), ArrStep::Replace(w)];
            for i in [0, 3] {
                for d in 0..3 {
                    o.push(ArrStep::Store(w, i, d));
                }
            }
            o
        })
        .collect();
    for dw in [1u32, 2, 8, 64, 65, 130] {
        for reps in 0..4 {
            let ops = ops.clone();
            let depth = if q { 3 } else { 4 };
            jobs.push(job(format!("two arrays of {dw} data bits, representations {reps}"), move |l| {
                fn go(l: &mut Loc, ops: &[ArrStep], pre: &mut Vec<ArrStep>, depth: usize, reps: u32, dw: u32) -> R {
                    for o in ops {
                        pre.push(o.clone());
                        l.states += 1;
                        if pre.len() == depth {
                            let p = pre.clone();
                            l.check(|| format!("arrays reps={reps} dw={dw} seq={}", p.iter().map(|s| s.text()).collect::<Vec<_>>().join(";")), || Ok(arrays(reps, dw, &p)?))?;
                        } else {
                            go(l, ops, pre, depth, reps, dw)?;
                        }
                        pre.pop();
                    }
                    Ok(())
                }
                go(l, &ops, &mut vec![], depth, reps, dw)
            }));
        }
    }
    jobs
}
