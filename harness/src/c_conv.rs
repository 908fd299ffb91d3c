//! C08 machine integers and booleans, C09 binary and hexadecimal strings, C10 decimal strings,
//! C11 parsing, C12 bytes, C13 big integers, C14 fixed point.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{eq, same, M};
use crate::ops::fp;
use baa::*;
use fraction::Fraction;
use num_bigint::{BigInt, BigUint, Sign};

const CHECKED: bool = cfg!(debug_assertions);

pub fn replay(c: &Case) -> Result<(), Fail> {
    match c.op.as_str() {
        "read" => read(&c.m("a"))?,
        "from_u64" => from_u64(c.s("v").parse().unwrap(), c.u("w"))?,
        "from_i64" => from_i64(c.s("v").parse().unwrap(), c.u("w"))?,
        "consts" => consts(c.u("w"))?,
        "bools" => bools(c.u("v") == 1)?,
        "debug" => debug_text(&c.m("a"))?,
        "strings" => strings(&c.m("a"))?,
        "dec" => dec(&c.m("a"))?,
        "parse" => parse(&unhex(c.s("s")), c.u("radix"), &c.m("dst"))?,
        "infer" => infer(&unhex(c.s("s")))?,
        "export" => export(&c.m("a"))?,
        "import" => import(&unhex_bytes(c.s("bytes")), c.u("w"))?,
        "big" => big(&c.m("a"))?,
        "from_big_uint" => from_big_uint(&c.s("v").parse().unwrap(), c.u("w"))?,
        "from_big_int" => from_big_int(&c.s("v").parse().unwrap(), c.u("w"))?,
        "infer_big" => infer_big(&c.s("v").parse().unwrap())?,
        "fixed" => fixed(&c.m("a"), c.u("f"))?,
        "huge" => crate::c_huge::run(c.s("what"), c.u("w"))?,
        o => panic!("unknown trace op {o}"),
    };
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex_bytes(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn unhex(s: &str) -> String {
    String::from_utf8(unhex_bytes(s)).unwrap()
}

// ------------------------------------------------------------------------------------------ C08

fn read(a: &M) -> Result<u64, String> {
    let v = a.real();
    let ws = a.words();
    let u = if ws.iter().skip(1).all(|w| *w == 0) { Some(ws.first().copied().unwrap_or(0)) } else { None };
    eq("to_u64", v.to_u64(), u)?;
    // representable as i64 iff bits 63.. all equal the sign (64-bit two's complement)
    let bit = |i: u32| if i < a.w() { a.bit(i) } else { a.sign() };
    let s = if (63..a.w()).all(|i| a.bit(i) == a.sign()) {
        Some((0..64).fold(0u64, |x, i| x | (bit(i) as u64) << i) as i64)
    } else {
        None
    };
    eq("to_i64", v.to_i64(), s)?;
    eq("to_bool", v.to_bool(), if a.w() == 1 { Some(a.bit(0)) } else { None })?;
    eq("is_zero", v.is_zero(), a.is_zero())?;
    eq("is_negative", v.is_negative(), a.sign())?;
    eq("is_tru", v.is_tru(), a.w() == 1 && a.bit(0))?;
    eq("is_fals", v.is_fals(), a.w() == 1 && !a.bit(0))?;
    same(&v, a)?;
    Ok(fp(&v) ^ s.is_some() as u64)
}

fn construct(what: &str, fits: bool, exp: &M, f: impl Fn() -> BitVecValue) -> Result<u64, String> {
    match catch(&f) {
        Ok(r) if fits || !CHECKED => {
            same(&r, exp).map_err(|e| format!("{what}: {e}"))?;
            Ok(fp(&r))
        }
        Ok(r) => Err(format!("{what}: a number that does not fit gave {r:?} although debug assertions are on")),
        Err(_) if !fits && CHECKED => Ok(7),
        Err(e) => Err(format!("{what} panicked: {e}")),
    }
}

fn from_u64(v: u64, w: u32) -> Result<u64, String> {
    let fits = w >= 64 || v >> w == 0;
    let exp = M::of_u64(v, w);
    construct("from_u64", fits, &exp, || BitVecValue::from_u64(v, w))?;
    construct("assign_from_u64", fits, &exp, || {
        let mut x = M::ones(w).real();
        x.assign_from_u64(v);
        x
    })?;
    if fits {
        eq("to_u64 after from_u64", BitVecValue::from_u64(v, w).to_u64(), Some(v))?;
    }
    Ok(v ^ w as u64)
}

fn from_i64(v: i64, w: u32) -> Result<u64, String> {
    let fits = w >= 64 || if w == 0 { v == 0 } else { v >> (w - 1) == 0 || v >> (w - 1) == -1 };
    let exp = M((0..w).map(|i| (v >> i.min(63)) & 1 == 1).collect());
    construct("from_i64", fits, &exp, || BitVecValue::from_i64(v, w))?;
    construct("assign_from_i64", fits, &exp, || {
        let mut x = M::ones(w).real();
        x.assign_from_i64(v);
        x
    })?;
    if fits {
        eq("to_i64 after from_i64", BitVecValue::from_i64(v, w).to_i64(), Some(v))?;
    }
    Ok(v as u64 ^ w as u64)
}

fn consts(w: u32) -> Result<u64, String> {
    same(&BitVecValue::zero(w), &M::zero(w)).map_err(|e| format!("zero: {e}"))?;
    same(&BitVecValue::ones(w), &M::ones(w)).map_err(|e| format!("ones: {e}"))?;
    Ok(w as u64)
}

fn bools(v: bool) -> Result<u64, String> {
    let m = M(vec![v]);
    same(&BitVecValue::from_bool(v), &m).map_err(|e| format!("from_bool: {e}"))?;
    same(&BitVecValue::from(v), &m).map_err(|e| format!("From<bool>: {e}"))?;
    same(&if v { BitVecValue::tru() } else { BitVecValue::fals() }, &m).map_err(|e| format!("tru/fals: {e}"))?;
    eq("to_bool", BitVecValue::from(v).to_bool(), Some(v))?;
    Ok(v as u64)
}

/// values around the limits of u64 and i64 at width w
fn near_int_limits(w: u32) -> Vec<M> {
    let mut o = vec![];
    let lim: [i128; 9] = [0, 1 << 63, 1 << 64, -(1 << 63), -(1 << 64), (1 << 63) + (1 << 40), -(1 << 62), 1 << 62, 1 << 32];
    for l in lim {
        for d in -2i128..=2 {
            let v = l + d;
            let m = M((0..w).map(|i| (v >> i.min(127)) & 1 == 1).collect());
            // and everything that differs from it in a single bit
            if w <= 2100 {
                for i in 0..w {
                    o.push(m.with_bit(i, !m.bit(i)));
                }
            } else {
                for i in interesting_positions(w) {
                    o.push(m.with_bit(i, !m.bit(i)));
                }
            }
            o.push(m);
        }
    }
    dedup(o)
}

pub fn c08(t: Tier) -> Vec<Job> {
    let mut jobs = vec![job("booleans and constants", |l| {
        for v in 0..2 {
            l.check(|| format!("bools v={v}"), || Ok(bools(v == 1)?))?;
        }
        for w in (0..=1100).chain(WIDE).chain(HUGE) {
            l.states += 1;
            l.check(|| format!("consts w={w}"), || Ok(consts(w)?))?;
        }
        Ok(())
    })];
    let dense = if t == Tier::Quick { 280 } else { 700 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain(HUGE) {
        jobs.push(job(format!("reading, width {w}"), move |l| {
            let mut ms = if w == 0 { vec![M::zero(0)] } else { std(w, 13, 140) };
            if w > 13 {
                if w <= 70 || (t == Tier::Thorough && w <= 200) {
                    ms.extend(runs(w));
                }
                if w <= 5000 {
                    ms.extend(near_int_limits(w));
                }
                if w <= 192 {
                    ms.extend(tuples(w, 8));
                } else if w <= 256 {
                    ms.extend(tuples(w, 5));
                }
            }
            for m in dedup(ms) {
                l.states += 1;
                l.check(|| format!("read a={}", m.text()), || Ok(read(&m)?))?;
            }
            Ok(())
        }));
    }
    for w in (0..=dense.min(300)).chain(WIDE) {
        jobs.push(job(format!("constructing, width {w}"), move |l| {
            let mut us: Vec<u64> = vec![];
            if w <= 12 {
                us.extend(0..(1u64 << w) + 3);
            }
            let mut ms = edges(64);
            if w <= 70 || t == Tier::Thorough {
                ms.extend(runs(64));
            }
            us.extend(dedup(ms).iter().map(|m| m.words()[0]));
            if w < 64 {
                for c in [1u64 << w, (1 << w) >> 1, (1 << w) - 1] {
                    for d in 0..4 {
                        us.push(c.wrapping_add(d).wrapping_sub(2));
                        us.push(c.wrapping_neg().wrapping_add(d).wrapping_sub(2));
                    }
                }
                // in-range low part, one bit beyond the width
                for i in w..64 {
                    us.push(1 << i | 1);
                    us.push(1 << i | (1 << w) - 1);
                }
            }
            us.sort();
            us.dedup();
            for v in us {
                l.states += 1;
                l.check(|| format!("from_u64 v={v} w={w}"), || Ok(from_u64(v, w)?))?;
                let s = v as i64;
                l.check(|| format!("from_i64 v={s} w={w}"), || Ok(from_i64(s, w)?))?;
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["words"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C09

/// the integer a signed string denotes; no digits stand for zero
fn denoted(s: &str, radix: u32) -> Option<(bool, BigUint)> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    Some((neg, digits_value(d, radix)?))
}
fn digits_value(d: &str, radix: u32) -> Option<BigUint> {
    let mut ds = vec![];
    for c in d.chars() {
        if !c.is_ascii() {
            return None;
        }
        ds.push(c.to_digit(radix)? as u8);
    }
    if ds.is_empty() {
        return Some(BigUint::from(0u32));
    }
    BigUint::from_radix_be(&ds, radix)
}

fn strings(a: &M) -> Result<u64, String> {
    let v = a.real();
    let (b, h) = (v.to_bit_str(), v.to_hex_str());
    eq("to_bit_str", &b, &a.bit_str())?;
    eq("to_hex_str", &h, &a.hex_str())?;
    let (bs, hs) = (v.to_bit_str_signed(), v.to_hex_str_signed());
    let int = a.int();
    for (what, s, radix) in [("to_bit_str_signed", &bs, 2), ("to_hex_str_signed", &hs, 16)] {
        match denoted(s, radix) {
            Some((neg, mag)) if neg == (int.sign() == Sign::Minus) && &mag == int.magnitude() => {}
            _ => return Err(format!("{what}: {s:?} does not denote {int}")),
        }
    }
    if a.w() > 0 {
        for (what, s, radix) in [("bit", &b, 2), ("hex", &h, 16), ("signed bit", &bs, 2), ("signed hex", &hs, 16)] {
            match BitVecValue::from_str_radix(s, radix, a.w()) {
                Ok(r) => same(&r, a).map_err(|e| format!("parsing the {what} string {s:?}: {e}"))?,
                Err(e) => return Err(format!("parsing the {what} string {s:?} failed: {e:?}")),
            }
        }
        match BitVecValue::from_bit_str(&b) {
            Ok(r) => same(&r, a).map_err(|e| format!("from_bit_str: {e}"))?,
            Err(e) => return Err(format!("from_bit_str({b:?}) failed: {e:?}")),
        }
        match BitVecValue::from_hex_str(&h) {
            Ok(r) => same(&r, &a.zext(4 * a.w().div_ceil(4) - a.w())).map_err(|e| format!("from_hex_str: {e}"))?,
            Err(e) => return Err(format!("from_hex_str({h:?}) failed: {e:?}")),
        }
    }
    Ok(fp(&v))
}

pub fn c09(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 280 } else { 600 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain([16385, 65537]) {
        jobs.push(job(format!("strings, width {w}"), move |l| {
            let ms = if w == 0 {
                vec![M::zero(0)]
            } else {
                let mut m = std(w, if t == Tier::Quick { 11 } else { 14 }, 270);
                if (15..=70).contains(&w) {
                    m.extend(runs(w));
                }
                if w <= 192 && w > 64 {
                    m.extend(tuples(w, 8));
                } else if w <= 256 && w > 64 {
                    m.extend(tuples(w, 4));
                }
                // every hex digit at every digit position
                if w > 11 && w <= 270 {
                    for p in 0..w.div_ceil(4) {
                        for d in 1..16u64 {
                            m.push(M::of_u64(d, w).shl(4 * p as usize));
                        }
                    }
                }
                dedup(m)
            };
            for m in ms {
                l.states += 1;
                l.check(|| format!("strings a={}", m.text()), || Ok(strings(&m)?))?;
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["strings", "hexadecimal", "readback"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C27

/// every form in which a value can be printed for debugging shows its bits
fn debug_text(a: &M) -> Result<u64, String> {
    let mut v = a.real();
    let bits = format!("({})", a.bit_str());
    let shows = |what: &str, s: String| -> Result<(), String> {
        // nothing else in the text looks like bits, whatever the text around them is
        match s.rfind('(') {
            Some(i) if s[i..].starts_with(&bits) && !s[..i].contains(['0', '1']) && !s[i + bits.len()..].contains(['0', '1']) => Ok(()),
            _ => Err(format!("{what}: {} does not show {}", crate::model::trunc(&s), crate::model::trunc(&bits))),
        }
    };
    shows("a value", format!("{v:?}"))?;
    shows("a value, pretty", format!("{v:#?}"))?;
    shows("a value inside others", format!("{:?}", Some([&v])))?;
    shows("a wrapped value", format!("{:?}", Value::BitVec(v.clone())))?;
    shows("a reference", format!("{:?}", BitVecValueRef::from(&v)))?;
    shows("a reference, pretty", format!("{:#?}", BitVecValueRef::from(&v)))?;
    shows("a mutable reference", format!("{:?}", BitVecValueMutRef::from(&mut v)))?;
    shows("a mutable reference, pretty", format!("{:#?}", BitVecValueMutRef::from(&mut v)))?;
    // a view whose neighbours are all ones
    let n = a.words().len();
    let mut store = vec![u64::MAX; n + 2];
    store[1..n + 1].copy_from_slice(&a.words());
    if a.w() > 0 {
        let ix = BitVecValueIndex::new(1, a.w());
        let r: BitVecValueRef = store.as_slice().get_ref(ix);
        shows("a view", format!("{r:?}"))?;
        let r: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ix);
        shows("a mutable view", format!("{r:?}"))?;
    }
    same(&v, a).map_err(|e| format!("printing changed the value: {e}"))?;
    Ok(fp(&v))
}

pub fn c27(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 280 } else { 600 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain(HUGE) {
        jobs.push(job(format!("debug output, width {w}"), move |l| {
            let mut ms = std(w, if t == Tier::Quick { 10 } else { 13 }, 270);
            if (15..=70).contains(&w) {
                ms.extend(runs(w));
            }
            if w <= 256 && w > 64 {
                ms.extend(tuples(w, 4));
            }
            for m in dedup(ms) {
                l.states += 1;
                l.check(|| format!("debug a={}", m.text()), || Ok(debug_text(&m)?))?;
            }
            Ok(())
        }));
    }
    jobs
}

// ------------------------------------------------------------------------------------------ C10

fn dec(a: &M) -> Result<u64, String> {
    let v = a.real();
    let s = v.to_dec_str();
    eq("to_dec_str", &s, &a.uint().to_str_radix(10))?;
    if a.w() > 0 {
        match BitVecValue::from_str_radix(&s, 10, a.w()) {
            Ok(r) => same(&r, a).map_err(|e| format!("parsing {s}: {e}"))?,
            Err(e) => return Err(format!("parsing {s} failed: {e:?}")),
        }
    }
    Ok(fp(&v))
}

/// numbers whose decimal representation is at an edge, below 2^w
fn dec_edges(w: u32, dense: bool) -> Vec<M> {
    let mut o = vec![];
    let ten = BigUint::from(10u32);
    let lim = BigUint::from(1u32) << w;
    let mut p = BigUint::from(1u32);
    let mut k = 0;
    while p < lim {
        if dense || k % 19 <= 1 || k % 19 == 18 {
            for d in 1u32..=9 {
                if !dense && d != 1 && d != 9 {
                    continue;
                }
                let x = &p * d;
                for y in [x.clone() - 1u32, x.clone(), x.clone() + 1u32, x.clone() + &p / 10u32, x + &p / 1000u32] {
                    if y < lim {
                        o.push(M::of_uint(&y, w));
                    }
                }
            }
        }
        p *= &ten;
        k += 1;
    }
    dedup(o)
}

pub fn c10(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 270 } else { 530 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain(if t == Tier::Thorough { vec![16385, 65537] } else { vec![16385] }) {
        jobs.push(job(format!("decimal, width {w}"), move |l| {
            let ms = if w == 0 {
                vec![M::zero(0)]
            } else {
                let mut m = std(w, if t == Tier::Quick { 13 } else { 16 }, 270);
                if (17..=70).contains(&w) {
                    m.extend(runs(w));
                }
                if w <= 192 && w > 64 {
                    m.extend(tuples(w, 8));
                } else if w <= 256 && w > 64 {
                    m.extend(tuples(w, 4));
                }
                m.extend(dec_edges(w, w <= 300));
                dedup(m)
            };
            for m in ms {
                l.states += 1;
                l.check(|| format!("dec a={}", m.text()), || Ok(dec(&m)?))?;
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["decimal"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C11

pub enum P {
    Ok(M),
    Exceeds,
    Malformed,
}

/// The reference parser.
pub fn parse_model(s: &str, radix: u32, w: u32) -> P {
    if s.is_empty() {
        return P::Ok(M::zero(w));
    }
    let (neg, d) = match s.as_bytes()[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() {
        return P::Malformed;
    }
    let Some(mag) = digits_value(d, radix) else {
        return P::Malformed;
    };
    let one = BigUint::from(1u32);
    let ok = if neg { mag <= (one << (w - 1)) } else { mag < (one << w) };
    if !ok {
        return P::Exceeds;
    }
    let m = M::of_uint(&mag, w);
    P::Ok(if neg { m.neg() } else { m })
}

/// Parses `s` into a destination holding `dst`, and into a new value.
pub fn parse(s: &str, radix: u32, dst: &M) -> Result<u64, String> {
    let w = dst.w();
    let exp = parse_model(s, radix, w);
    let mut d = dst.real();
    let r = d.assign_from_str_radix(s, radix);
    let fresh = BitVecValue::from_str_radix(s, radix, w);
    match (&r, &fresh) {
        (Ok(()), Ok(f)) => same(f, &crate::model::model_of(&d)).map_err(|e| format!("from_str_radix vs. assign_from_str_radix: {e}"))?,
        (Err(a), Err(b)) => eq("error of from_str_radix vs. assign_from_str_radix", b, a)?,
        _ => return Err(format!("from_str_radix gives {fresh:?} where assign_from_str_radix gives {r:?}")),
    }
    match (r, exp) {
        (Ok(()), P::Ok(m)) => {
            same(&d, &m)?;
            Ok(fp(&d))
        }
        (Ok(()), P::Exceeds) => Err(format!("accepted a numeral that does not fit as {d:?}")),
        (Ok(()), P::Malformed) => Err(format!("accepted a malformed numeral as {d:?}")),
        (Err(e), P::Ok(m)) => Err(format!("rejected a numeral for {} with {e:?}", m.text())),
        (Err(e), x) => {
            same(&d, dst).map_err(|e| format!("the destination of a rejected numeral changed: {e}"))?;
            let k = format!("{:?}", e.kind);
            if matches!(x, P::Exceeds) {
                eq("error kind of a well-formed numeral that does not fit", k.as_str(), "ExceedsWidth")?;
            } else {
                // a malformed string too short for any overflow
                let bits = 32 - (radix - 1).leading_zeros();
                if s.len() as u32 * bits <= w {
                    eq("error kind of a short malformed string", k.as_str(), "InvalidDigit")?;
                }
            }
            Ok(k.len() as u64)
        }
    }
}

/// the constructors that infer the width
pub fn infer(s: &str) -> Result<u64, String> {
    for (radix, bits) in [(2u32, 1u32), (16, 4)] {
        let body = s.strip_prefix(['+', '-']).unwrap_or(s);
        let well = s.is_empty() || (!body.is_empty() && body.bytes().all(|c| (c as char).is_digit(radix)));
        let r = if radix == 2 { BitVecValue::from_bit_str(s) } else { BitVecValue::from_hex_str(s) };
        match (r, well) {
            (Ok(v), true) => {
                let w = body.len() as u32 * bits + s.starts_with('-') as u32;
                let exp = match if w == 0 { P::Ok(M::zero(0)) } else { parse_model(s, radix, w) } {
                    P::Ok(m) => m,
                    _ => return Err("model: inferred width does not fit".into()),
                };
                same(&v, &exp).map_err(|e| format!("radix {radix}: {e}"))?;
            }
            (Ok(v), false) => return Err(format!("radix {radix}: accepted a malformed numeral as {v:?}")),
            (Err(e), true) => return Err(format!("radix {radix}: rejected a well-formed numeral with {e:?}")),
            (Err(_), false) => {}
        }
    }
    Ok(s.len() as u64)
}

fn chk_parse(l: &mut Loc, s: &str, radix: u32, dst: &M) -> R {
    l.check(|| format!("parse s={} radix={radix} dst={}", hex(s.as_bytes()), dst.text()), || Ok(parse(s, radix, dst)?))
}

fn strings_over(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alphabet {
                next.push(format!("{s}{a}"));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn radix_alphabet(radix: u32) -> Vec<String> {
    let d = |v: u32| char::from_digit(v, 36).unwrap();
    let mut a = vec!["0".to_string(), "1".into(), "+".into(), "-".into()];
    a.push(d(radix - 1).to_string());
    a.push(d(radix - 1).to_uppercase().to_string());
    if radix < 36 {
        a.push(d(radix).to_string());
    }
    for x in ["_", " ", "é", "٣", "/", ":", "@", "G", "\0"] {
        a.push(x.to_string());
    }
    a.sort();
    a.dedup();
    // digits and signs first
    a.sort_by_key(|s| !(s.len() == 1 && (s.as_bytes()[0] as char).is_digit(radix) || s == "+" || s == "-"));
    a
}

const PW: [u32; 18] = [1, 2, 3, 4, 5, 7, 8, 31, 32, 63, 64, 65, 127, 128, 129, 192, 193, 257];

fn radices(w: u32) -> Vec<u32> {
    if w <= 128 {
        vec![2, 3, 8, 10, 16, 17, 36]
    } else {
        vec![2, 10, 16]
    }
}

/// numerals around the limits of the width
fn boundary(w: u32, t: Tier) -> Vec<BigInt> {
    let p = |k: u32| BigInt::from(1) << k;
    let mut o: Vec<BigInt> = vec![];
    let mut ks = vec![0, 1, w - 1, w, w + 1, w.saturating_sub(2)];
    ks.extend([3, 4, 31, 32, 60, 63, 64, 65, 124, 127, 128, 129, 192, 256]);
    if t == Tier::Thorough || w <= 200 {
        ks.extend((0..w + 70).step_by(if t == Tier::Thorough { 1 } else { 5 }));
    }
    ks.extend([w + 63, w + 64, w + 65, w + 128, 2 * w]);
    ks.sort();
    ks.dedup();
    for k in ks {
        for d in -2i32..=2 {
            o.push(p(k) + d);
            o.push(-p(k) + d);
        }
    }
    let mut d = BigInt::from(10);
    while d.bits() < w as u64 + 8 {
        if d.bits() + 8 > w as u64 || w <= 200 {
            o.push(d.clone());
            o.push(-d.clone());
        }
        d = d * 10;
    }
    for m in few(w) {
        o.push(BigInt::from(m.uint()));
        o.push(m.int());
    }
    o.sort_by_key(|x| x.magnitude().clone());
    o.dedup();
    o
}

pub fn c11(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    // every integer around the range of a small width, every base
    for w in 1..=if t == Tier::Quick { 8 } else { 10u32 } {
        jobs.push(job(format!("every integer near the range, width {w}, every base"), move |l| {
            let lim = (1i64 << w) + 9;
            for radix in 2..=36 {
                for v in -lim..=lim {
                    l.states += 1;
                    let s = BigInt::from(v).to_str_radix(radix);
                    chk_parse(l, &s, radix, &M::zero(w))?;
                    if v >= 0 {
                        chk_parse(l, &format!("+{s}"), radix, &M::ones(w))?;
                        chk_parse(l, &format!("00{s}"), radix, &M::ones(w))?;
                    } else {
                        chk_parse(l, &s.replace('-', "-0"), radix, &M::ones(w))?;
                    }
                }
            }
            Ok(())
        }));
    }
    // all short strings over a hostile alphabet
    for w in PW {
        for radix in radices(w) {
            jobs.push(job(format!("all short strings, width {w}, base {radix}"), move |l| {
                let a = radix_alphabet(radix);
                let refs: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                let mut all = strings_over(&refs, 3);
                let few: Vec<&str> = refs.iter().take(7).copied().collect();
                all.extend(strings_over(&few, if t == Tier::Quick { 4 } else { 6 }).into_iter().filter(|s| s.chars().count() > 3));
                let ones = M::ones(w);
                for s in &all {
                    l.states += 1;
                    chk_parse(l, s, radix, &ones)?;
                }
                Ok(())
            }));
        }
    }
    // every ASCII string of up to two characters, alone and embedded in a long numeral
    for w in [1u32, 4, 8, 64, 65, 128, 129, 192, 320] {
        for radix in [2u32, 10, 16] {
            jobs.push(job(format!("all ASCII pairs, width {w}, base {radix}"), move |l| {
                let dst = M::ones(w);
                let pad = "1".repeat((w / 5) as usize);
                for x in 0..128u8 {
                    for y in 0..=128u8 {
                        let mut s = String::new();
                        s.push(x as char);
                        if y < 128 {
                            s.push(y as char);
                        }
                        l.states += 1;
                        chk_parse(l, &s, radix, &dst)?;
                        if w >= 64 && y >= 44 {
                            chk_parse(l, &format!("{s}{pad}"), radix, &dst)?;
                            chk_parse(l, &format!("{pad}{s}"), radix, &dst)?;
                            chk_parse(l, &format!("-1{s}{pad}"), radix, &dst)?;
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    // boundary numerals, leading zeros, signs, dirty destinations
    let dense = if t == Tier::Quick { 270 } else { 400 };
    for w in (1..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)) {
        jobs.push(job(format!("boundary numerals, width {w}"), move |l| {
            let dsts = [M::zero(w), M::ones(w), patterns(w).pop().unwrap()];
            let mut n = 0usize;
            for v in boundary(w, t) {
                for radix in radices(w) {
                    let s = v.to_str_radix(radix);
                    let (sign, digits) = match s.strip_prefix('-') {
                        Some(d) => ("-", d),
                        None => ("", s.as_str()),
                    };
                    let signs: &[&str] = if sign == "-" { &["-"] } else { &["", "+"] };
                    let zeros: &[usize] = if w <= 400 { &[0, 1, 2, 15, 16, 17, 63, 64, 65, 128, 200, 700] } else { &[0, 1, 64] };
                    for (zi, z) in zeros.iter().enumerate() {
                        // the zero counts are rotated through beyond the smallest ones
                        if zi >= 3 && t == Tier::Quick && (n + zi) % 5 != 0 {
                            continue;
                        }
                        for sg in signs {
                            n += 1;
                            l.states += 1;
                            let x = format!("{sg}{}{digits}", "0".repeat(*z));
                            chk_parse(l, &x, radix, &dsts[n % 3])?;
                            if radix > 10 && *z == 0 {
                                chk_parse(l, &x.to_uppercase(), radix, &dsts[n % 3])?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // very long numerals
    for w in [16385u32, 65535, 65537] {
        for radix in [2u32, 10, 16] {
            jobs.push(job(format!("very long numerals, width {w}, base {radix}"), move |l| {
                let p = |k: u32| BigInt::from(1) << k;
                for v in [
                    p(w) - 1,
                    p(w),
                    p(w) + 1,
                    p(w - 1),
                    -p(w - 1),
                    -p(w - 1) - 1,
                    -p(w),
                    BigInt::from(0),
                    BigInt::from(1),
                    BigInt::from(-1),
                    p(w / 2) - 1,
                    -p(w / 2),
                    p(64),
                    p(16384) - 1,
                    patterns(w).pop().unwrap().int(),
                ] {
                    let s = v.to_str_radix(radix);
                    let (sign, digits) = match s.strip_prefix('-') {
                        Some(d) => ("-", d),
                        None => ("", s.as_str()),
                    };
                    for z in [0usize, 1, 65536, 70001] {
                        l.states += 1;
                        chk_parse(l, &format!("{sign}{}{digits}", "0".repeat(z)), radix, &M::ones(w))?;
                    }
                    l.states += 1;
                    chk_parse(l, &format!("{s}x"), radix, &M::ones(w))?;
                }
                Ok(())
            }));
        }
    }
    jobs.push(job("long numerals at small widths", move |l| {
        for w in [1u32, 7, 64, 65, 128, 129, 256, 257] {
            for radix in [2u32, 10, 16] {
                for n in [255usize, 256, 257, 1000, 16384, 65535, 65536, 65537, 70000] {
                    for (head, tail) in [("", "1"), ("-", "1"), ("+", "0"), ("1", "1"), ("1", "0"), ("-1", "0"), ("", "_")] {
                        l.states += 1;
                        chk_parse(l, &format!("{head}{}{tail}", "0".repeat(n)), radix, &M::ones(w))?;
                    }
                }
            }
        }
        Ok(())
    }));
    // one invalid character at every position of a numeral of about the width
    for w in (5..=dense).step_by(if t == Tier::Quick { 3 } else { 1 }).chain([64, 128, 129, 130, 191, 192, 193, 320, 321]) {
        jobs.push(job(format!("misplaced characters, width {w}"), move |l| {
            for radix in [2u32, 10, 16] {
                let per = match radix {
                    2 => w,
                    10 => (w as f64 * 0.301) as u32,
                    _ => w / 4,
                } as usize;
                let dst = M::ones(w);
                for len in [per.saturating_sub(1), per, per + 1, per + 17] {
                    if len == 0 || (len > 40 && len % 2 == 1 && t == Tier::Quick) {
                        continue;
                    }
                    let base = "1".repeat(len);
                    for p in 0..=len {
                        for bad in ["+", "-", "_", " ", "g", "2", "a", "é", "."] {
                            l.states += 1;
                            // inserted
                            let x = format!("{}{bad}{}", &base[..p], &base[p..]);
                            chk_parse(l, &x, radix, &dst)?;
                            if p > 0 {
                                // replacing
                                let y = format!("-{}{bad}{}", &base[..p - 1], &base[p..]);
                                chk_parse(l, &y, radix, &dst)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // width inference
    jobs.push(job("inferred widths, short strings", move |l| {
        let a = ["0", "1", "+", "-", "f", "F", "2", "g", "_", " ", "é"];
        for s in strings_over(&a, if t == Tier::Quick { 4 } else { 5 }) {
            l.states += 1;
            l.check(|| format!("infer s={}", hex(s.as_bytes())), || Ok(infer(&s)?))?;
        }
        Ok(())
    }));
    for sign in ["", "+", "-"] {
        jobs.push(job(format!("inferred widths, long strings, sign '{sign}'"), move |l| {
            for len in (1..=if t == Tier::Quick { 200usize } else { 400 }).chain([4095, 4096, 16384, 65535, 65536, 65537]) {
                for pat in ["1", "0", "10", "01", "110", "f", "8", "80", "0f", "7", "000000000000000001", "x"] {
                    let mut s: String = pat.chars().cycle().take(len).collect();
                    for k in 0..3 {
                        if k == 1 {
                            s = format!("1{}", &s[1..]);
                        }
                        if k == 2 {
                            s = format!("{}1", &s[..len - 1]);
                        }
                        let x = format!("{sign}{s}");
                        l.states += 1;
                        l.check(|| format!("infer s={}", hex(x.as_bytes())), || Ok(infer(&x)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["parse", "overlong"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C12

fn export(a: &M) -> Result<u64, String> {
    let v = a.real();
    let b = v.to_bytes_le();
    eq("to_bytes_le", &b, &a.bytes())?;
    same(&BitVecValue::from_bytes_le(&b, a.w()), a).map_err(|e| format!("import after export: {e}"))?;
    Ok(fp(&v))
}

fn import(b: &[u8], w: u32) -> Result<u64, String> {
    let r = BitVecValue::from_bytes_le(b, w);
    same(&r, &M::of_bytes(b, w))?;
    Ok(fp(&r))
}

pub fn c12(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 280 } else { 700 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain(HUGE) {
        jobs.push(job(format!("export, width {w}"), move |l| {
            let ms = if w == 0 {
                vec![M::zero(0)]
            } else {
                let mut m = std(w, if t == Tier::Quick { 14 } else { 17 }, 270);
                if (18..=130).contains(&w) {
                    m.extend(runs(w));
                }
                dedup(m)
            };
            for m in ms {
                l.states += 1;
                l.check(|| format!("export a={}", m.text()), || Ok(export(&m)?))?;
            }
            Ok(())
        }));
        jobs.push(job(format!("import, width {w}"), move |l| {
            let n = w.div_ceil(8) as usize;
            let mut ins: Vec<Vec<u8>> = vec![];
            let lens: Vec<usize> = if n <= 70 { (0..=n).collect() } else { vec![0, 1, 7, 8, 9, 15, 16, 17, n / 2, n - 8, n - 1, n] };
            for &k in &lens {
                ins.push(vec![0; k]);
                ins.push(vec![0xff; k]);
                ins.push((0..k).map(|i| (i as u8).wrapping_add(1)).collect());
                ins.push((0..k).map(|i| 0xffu8.wrapping_sub(i as u8)).collect());
                let ps: Vec<usize> = if k <= 40 { (0..k).collect() } else { vec![0, 1, 7, 8, 9, k / 2, k - 2, k - 1] };
                for p in ps {
                    for bit in 0..8 {
                        let mut x = vec![0u8; k];
                        x[p] = 1 << bit;
                        ins.push(x.clone());
                        let x: Vec<u8> = x.iter().map(|b| !b).collect();
                        ins.push(x);
                    }
                }
                if k == 1 {
                    ins.extend((0..=255u8).map(|b| vec![b]));
                }
                if k == 2 && (w <= 17 || t == Tier::Thorough) {
                    ins.extend((0..=65535u16).map(|b| b.to_le_bytes().to_vec()));
                }
            }
            for b in ins {
                l.states += 1;
                l.check(|| format!("import bytes={} w={w}", hex(&b)), || Ok(import(&b, w)?))?;
            }
            Ok(())
        }));
    }
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["bytes"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C13

fn big(a: &M) -> Result<u64, String> {
    let v = a.real();
    let (u, s) = (a.uint(), a.int());
    eq("to_big_uint", v.to_big_uint(), u.clone())?;
    eq("to_big_int", v.to_big_int(), s.clone())?;
    same(&BitVecValue::from_big_uint(&u, a.w()), a).map_err(|e| format!("from_big_uint: {e}"))?;
    same(&BitVecValue::from_big_int(&s, a.w()), a).map_err(|e| format!("from_big_int: {e}"))?;
    Ok(fp(&v))
}

fn from_big_uint(v: &BigUint, w: u32) -> Result<u64, String> {
    let r = BitVecValue::from_big_uint(v, w);
    same(&r, &M::of_uint(v, w)).map_err(|e| format!("from_big_uint: {e}"))?;
    eq("round trip", &r.to_big_uint(), v)?;
    Ok(fp(&r))
}

fn from_big_int(v: &BigInt, w: u32) -> Result<u64, String> {
    let r = BitVecValue::from_big_int(v, w);
    same(&r, &M::of_int(v, w)).map_err(|e| format!("from_big_int: {e}"))?;
    eq("round trip", &r.to_big_int(), v)?;
    Ok(fp(&r))
}

/// number of bits of the magnitude
fn bits(v: &BigUint) -> u32 {
    let mut n = 0;
    let mut x = v.clone();
    let zero = BigUint::from(0u32);
    while x != zero {
        let k = if x.to_bytes_le().len() > 9 { 64u32 } else { 1 };
        x >>= k;
        n += k;
    }
    n
}

fn infer_big(v: &BigInt) -> Result<u64, String> {
    let mag = v.magnitude();
    let n = bits(mag);
    let r = BitVecValue::from(v);
    same(&r, &M::of_int(v, n + 1)).map_err(|e| format!("From<&BigInt>: {e}"))?;
    eq("round trip", &r.to_big_int(), v)?;
    let r = BitVecValue::from(mag);
    same(&r, &M::of_uint(mag, n)).map_err(|e| format!("From<&BigUint>: {e}"))?;
    eq("round trip", &r.to_big_uint(), mag)?;
    Ok(fp(&r))
}

pub fn c13(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 280 } else { 700 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)).chain(HUGE) {
        jobs.push(job(format!("there and back, width {w}"), move |l| {
            let ms = if w == 0 {
                vec![M::zero(0)]
            } else {
                let mut m = std(w, if t == Tier::Quick { 13 } else { 16 }, 270);
                if (17..=100).contains(&w) {
                    m.extend(runs(w));
                }
                if w <= 192 && w > 64 {
                    m.extend(tuples(w, 8));
                } else if w <= 256 && w > 64 {
                    m.extend(tuples(w, 4));
                }
                dedup(m)
            };
            for m in ms {
                l.states += 1;
                l.check(|| format!("big a={}", m.text()), || Ok(big(&m)?))?;
            }
            Ok(())
        }));
        // numbers much smaller than the width, and the extremes of the width
        jobs.push(job(format!("from big integers, width {w}"), move |l| {
            let one = BigInt::from(1);
            let step = if w <= 200 { 1 } else { (w / 97).max(1) };
            let mut ks: Vec<u32> = (0..=w).step_by(step as usize).collect();
            ks.extend([w, w.saturating_sub(1), 31, 32, 63, 64, 65, 127, 128]);
            for k in ks {
                for d in -2i32..=2 {
                    let v: BigInt = (&one << k) + d;
                    if v.sign() != Sign::Minus && v.bits() <= w as u64 {
                        l.states += 1;
                        let u = v.magnitude().clone();
                        l.check(|| format!("from_big_uint v={u} w={w}"), || Ok(from_big_uint(&u, w)?))?;
                    }
                    for v in [v.clone(), -v] {
                        let fits = w > 0 && v < (&one << (w - 1)) && v >= -(&one << (w - 1));
                        if fits {
                            l.states += 1;
                            l.check(|| format!("from_big_int v={v} w={w}"), || Ok(from_big_int(&v, w)?))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    for base in (0..=dense).step_by(10) {
        jobs.push(job(format!("inferred widths from 2^{base}"), move |l| {
            let one = BigInt::from(1);
            for k in base..base + 10 {
                for d in -3i32..=3 {
                    for v in [(&one << k) + d, -(&one << k) + d, (&one << k) + (&one << (k / 2)) + d] {
                        l.states += 1;
                        l.check(|| format!("infer_big v={v}"), || Ok(infer_big(&v)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    jobs.push(job("inferred widths of small numbers", |l| {
        for v in -5000i32..=5000 {
            let v = BigInt::from(v);
            l.states += 1;
            l.check(|| format!("infer_big v={v}"), || Ok(infer_big(&v)?))?;
        }
        Ok(())
    }));
    crate::c_huge::jobs(&mut jobs, t == Tier::Quick, &["big"]);
    jobs
}

// ------------------------------------------------------------------------------------------ C14

fn exact(what: &str, f: Option<Fraction>, v: &BigInt, fw: u32, required: bool) -> Result<u64, String> {
    let Some(f) = f else {
        return if required { Err(format!("{what}: no fraction although it is representable")) } else { Ok(1) };
    };
    let (Some(n), Some(d)) = (f.numer(), f.denom()) else {
        return Err(format!("{what}: {f:?} is not a number"));
    };
    let mut n = BigInt::from(*n);
    let neg = f.sign() == Some(fraction::Sign::Minus);
    if neg {
        n = -n;
    }
    if *d != 0 && (n << fw) == v * BigInt::from(*d) {
        Ok(*d ^ neg as u64)
    } else {
        Err(format!("{what}: {f:?} is not {v} / 2^{fw}"))
    }
}

pub fn fixed(a: &M, f: u32) -> Result<u64, String> {
    let v = a.real();
    let req = a.w() <= 64 && f <= 63;
    let x = exact("to_unsigned_fixed_point", v.to_unsigned_fixed_point(f), &BigInt::from(a.uint()), f, req)?;
    let y = exact("to_signed_fixed_point", v.to_signed_fixed_point(f), &a.int(), f, req)?;
    same(&v, a)?;
    Ok(fp(&v) ^ x ^ y << 7)
}

pub fn c14(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let dense = if t == Tier::Quick { 140 } else { 330 };
    for w in (0..=dense).chain(WIDE.into_iter().filter(move |w| *w > dense)) {
        jobs.push(job(format!("fixed point, width {w}"), move |l| {
            let ms = if w == 0 {
                vec![M::zero(0)]
            } else {
                let mut m = std(w, if t == Tier::Quick { 9 } else { 12 }, 300);
                if w > 9 && w <= if t == Tier::Quick { 24 } else { 66 } {
                    m.extend(runs(w));
                }
                if w > 64 {
                    // small numbers, positive and negative, in a wide vector
                    for k in 0..64 {
                        for d in [0u64, 1, 3] {
                            let x = M::of_u64((1u64 << k).wrapping_add(d), w);
                            m.push(x.neg());
                            m.push(x);
                        }
                    }
                }
                dedup(m)
            };
            let fs: Vec<u32> = if w <= 140 { (0..=w).collect() } else { interesting_positions(w) };
            for m in ms {
                for &f in &fs {
                    l.states += 1;
                    l.check(|| format!("fixed a={} f={f}", m.text()), || Ok(fixed(&m, f)?))?;
                }
            }
            Ok(())
        }));
    }
    jobs
}
