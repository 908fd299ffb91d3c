//! Very wide values (2^20 bits up to the largest width there is), where a step-by-step model would be
//! too slow: operands whose results are known in closed form, judged word for word.
use crate::engine::*;
use crate::model::eq;
use baa::*;

/// bits below 2^20 of the expected value are given, all others equal `fill`, but for the listed positions
struct X {
    w: u32,
    fill: bool,
    low: i128,
    flip: Vec<u32>,
}

fn small(v: i128, w: u32) -> X {
    X { w, fill: v < 0, low: v, flip: vec![] }
}
/// the value with just these bits set
fn bits(w: u32, at: &[u32]) -> X {
    X { w, fill: false, low: 0, flip: at.to_vec() }
}
/// ones but for these positions
fn holes(w: u32, at: &[u32]) -> X {
    X { w, fill: true, low: -1, flip: at.to_vec() }
}

fn words(w: u32) -> usize {
    w.div_ceil(64) as usize
}

fn expect<V: BitVecOps + ?Sized>(what: &str, v: &V, x: &X) -> Result<(), String> {
    eq(&format!("{what}: width"), v.width(), x.w)?;
    let ws = v.words();
    let n = words(x.w);
    eq(&format!("{what}: number of words"), ws.len(), n)?;
    let fill = if x.fill { u64::MAX } else { 0 };
    let top = if x.w % 64 == 0 { u64::MAX } else { (1u64 << (x.w % 64)) - 1 };
    let special: Vec<usize> = x.flip.iter().map(|p| *p as usize / 64).chain([0, 1, n - 1]).collect();
    for i in &special {
        let mut e = match i {
            0 => x.low as u64,
            1 => (x.low >> 64) as u64,
            _ => fill,
        };
        for p in x.flip.iter().filter(|p| **p as usize / 64 == *i) {
            e ^= 1 << (p % 64);
        }
        if *i == n - 1 {
            e &= top;
        }
        if ws[*i] != e {
            return Err(format!("{what} (width {}): word {i} of {n} is {:#x}, not {e:#x}", x.w, ws[*i]));
        }
    }
    let mut from = 0;
    let mut cuts = special;
    cuts.sort();
    for c in cuts.into_iter().chain([n]) {
        if c > from {
            if let Some(i) = ws[from..c].iter().position(|w| *w != fill) {
                return Err(format!("{what} (width {}): word {} of {n} is {:#x}, not {fill:#x}", x.w, from + i, ws[from + i]));
            }
        }
        from = from.max(c + 1);
    }
    Ok(())
}

fn mk(v: i64, w: u32) -> BitVecValue {
    BitVecValue::from_i64(v, w)
}

/// positions next to the ends and to word boundaries
fn positions(w: u32) -> Vec<u32> {
    let m = (words(w) as u32 / 2) * 64;
    vec![128, m - 1, m, m + 1, (words(w) as u32 - 1) * 64 - 1, (words(w) as u32 - 1) * 64, w - 2, w - 1]
}

fn hot(w: u32, at: &[u32]) -> BitVecValue {
    let mut v = BitVecValue::zero(w);
    for p in at {
        v.set_bit(*p);
    }
    v
}

/// all characters but the last ones are `c`
fn text(what: &str, got: &str, len: usize, c: u8, end: &str) -> Result<(), String> {
    eq(&format!("{what}: length"), got.len(), len)?;
    let b = got.as_bytes();
    let (head, tail) = b.split_at(len - end.len());
    if tail != end.as_bytes() {
        return Err(format!("{what}: ends in {:?}, not {end:?}", String::from_utf8_lossy(tail)));
    }
    match head.iter().position(|x| *x != c) {
        Some(i) => Err(format!("{what}: character {i} of {len} is {:?}", head[i] as char)),
        None => Ok(()),
    }
}

pub fn run(what: &str, w: u32) -> Result<u64, String> {
    let (a, m) = (mk(5, w), mk(-2, w));
    match what {
        // C01, C22
        "canonical" => {
            expect("ones", &BitVecValue::ones(w), &small(-1, w))?;
            expect("zero", &BitVecValue::zero(w), &small(0, w))?;
            let mut x = m.clone();
            x.assign(&a);
            expect("assign", &x, &small(5, w))?;
            x.assign_ones();
            expect("assign_ones", &x, &small(-1, w))?;
            x.clear();
            expect("clear", &x, &small(0, w))?;
        }
        "arith" => {
            expect("add", &a.add(&m), &small(3, w))?;
            expect("add, carry through", &mk(-1, w).add(&mk(1, w)), &small(0, w))?;
            expect("add, carry up to the top", &holes(w, &[w - 1]).real().add(&mk(1, w)), &bits(w, &[w - 1]))?;
            expect("sub", &m.sub(&a), &small(-7, w))?;
            expect("sub, borrow through", &mk(0, w).sub(&mk(1, w)), &small(-1, w))?;
            expect("negate", &a.negate(), &small(-5, w))?;
            expect("negate of zero", &mk(0, w).negate(), &small(0, w))?;
            expect("negate of the minimum", &hot(w, &[w - 1]).negate(), &bits(w, &[w - 1]))?;
            for p in positions(w) {
                let h = hot(w, &[p]);
                expect("sum of two equal powers", &h.add(&h), &if p == w - 1 { small(0, w) } else { bits(w, &[p + 1]) })?;
            }
        }
        "mul" => {
            expect("mul", &a.mul(&m), &small(-10, w))?;
            expect("mul", &mk(-1, w).mul(&mk(-1, w)), &small(1, w))?;
            let p = w / 2 + 3;
            expect("mul of powers", &hot(w, &[p]).mul(&hot(w, &[w - 1 - p])), &bits(w, &[w - 1]))?;
            expect("mul of powers that overflow", &hot(w, &[p]).mul(&hot(w, &[w - p])), &small(0, w))?;
        }
        "bitwise" => {
            expect("not", &a.not(), &small(-6, w))?;
            expect("and", &a.and(&m), &small(4, w))?;
            expect("or", &a.or(&m), &small(-1, w))?;
            expect("xor", &a.xor(&m), &small(-5, w))?;
        }
        "access" => {
            for p in positions(w) {
                let (mut x, mut y) = (mk(4, w), mk(-1, w));
                for _ in 0..2 {
                    x.set_bit(p);
                    y.clear_bit(p);
                }
                expect("set_bit", &x, &X { w, fill: false, low: 4, flip: vec![p] })?;
                expect("clear_bit", &y, &holes(w, &[p]))?;
                eq("is_bit_set of a set bit", (x.is_bit_set(p), y.is_bit_set(p)), (true, false))?;
                for n in [p - 1, p - 64, p / 2, p ^ 1, p ^ 64, p & 0xf_ffff] {
                    if n != p && n > 2 && n < w {
                        eq("is_bit_set of another bit", (x.is_bit_set(n), y.is_bit_set(n)), (false, true))?;
                    }
                }
                x.clear_bit(p);
                y.set_bit(p);
                expect("clear_bit of a set bit", &x, &small(4, w))?;
                expect("set_bit of a clear bit", &y, &small(-1, w))?;
            }
        }
        "shift" => {
            let one = mk(1, w);
            let by = |k: u32| BitVecValue::from_u64(k as u64, w);
            for p in positions(w) {
                expect("shift_left", &one.shift_left(&by(p)), &bits(w, &[p]))?;
                expect("shift_right", &hot(w, &[w - 1]).shift_right(&by(p)), &bits(w, &[w - 1 - p]))?;
                expect("shift_right of a power", &hot(w, &[p]).shift_right(&by(p)), &small(1, w))?;
                expect("arithmetic_shift_right", &m.arithmetic_shift_right(&by(p)), &small(-1, w))?;
            }
        }
        "overshift" => {
            for over in [BitVecValue::from_u64(w as u64, w), hot(w, &[w - 1]), hot(w, &[64]), hot(w, &[64, 0])] {
                expect("shift_left by too much", &a.shift_left(&over), &small(0, w))?;
                expect("shift_right by too much", &m.shift_right(&over), &small(0, w))?;
                expect("arithmetic_shift_right by too much", &m.arithmetic_shift_right(&over), &small(-1, w))?;
                expect("arithmetic_shift_right by too much", &a.arithmetic_shift_right(&over), &small(0, w))?;
            }
        }
        "compare" => {
            let cmp = |x: &BitVecValue, y: &BitVecValue, signed: bool, less: bool| -> Result<(), String> {
                let got = if signed {
                    [x.is_greater_signed(y), x.is_greater_or_equal_signed(y), x.is_less_signed(y), x.is_less_or_equal_signed(y)]
                } else {
                    [x.is_greater(y), x.is_greater_or_equal(y), x.is_less(y), x.is_less_or_equal(y)]
                };
                eq("comparison", got, [!less, !less, less, less])?;
                eq("is_equal", x.is_equal(y), false)
            };
            cmp(&a, &m, false, true)?;
            cmp(&a, &m, true, false)?;
            eq("is_negative", (a.is_negative(), m.is_negative()), (false, true))?;
            for p in positions(w) {
                let (h, n) = (hot(w, &[p]), hot(w, &[p, 1]));
                cmp(&h, &n, false, true)?;
                cmp(&h, &n, true, true)?;
                cmp(&a, &h, false, true)?;
                cmp(&a, &h, true, p < w - 1)?;
                eq("is_equal", h.is_equal(&n), false)?;
                eq("is_equal", h == h.clone(), true)?;
            }
        }
        "slice" => {
            for p in positions(w) {
                let h = hot(w, &[p, 1]);
                expect("slice of everything", &h.slice(w - 1, 0), &bits(w, &[1, p]))?;
                eq("slice of one bit", h.slice(p, p).to_u64(), Some(1))?;
                eq("slice below a bit", h.slice(p - 1, p - 70).to_u64(), Some(0))?;
                eq("slice up to a bit", h.slice(p, p - 69).is_negative(), true)?;
                let top = h.slice(w - 1, p);
                if w - p > 128 {
                    expect("slice from a bit", &top, &bits(w - p, &[0]))?;
                } else {
                    eq("slice from a bit", (top.width(), top.to_u64()), (w - p, Some(1)))?;
                }
                let mut x = h.clone();
                x.clear_bit(p);
                expect("clear_bit", &x, &small(2, w))?;
                eq("is_bit_set", (h.is_bit_set(p), x.is_bit_set(p), h.is_bit_set(p - 1)), (true, false, false))?;
            }
        }
        "extend" => {
            expect("zero_extend", &mk(-2, 192).zero_extend(w - 192), &X { w, fill: false, low: -2, flip: (128..192).collect() })?;
            expect("sign_extend", &mk(-2, 70).sign_extend(w - 70), &small(-2, w))?;
            expect("sign_extend", &mk(5, 70).sign_extend(w - 70), &small(5, w))?;
            expect("concat, long first", &BitVecValue::ones(w - 70).concat(&mk(5, 70)), &X { w, fill: true, low: 5 - (1 << 70), flip: vec![] })?;
            expect("concat, short first", &mk(1, 70).concat(&BitVecValue::zero(w - 70)), &bits(w, &[w - 70]))?;
        }
        "words" => {
            eq("to_u64", (a.to_u64(), m.to_u64()), (Some(5), None))?;
            eq("to_i64", (a.to_i64(), m.to_i64()), (Some(5), Some(-2)))?;
            for p in positions(w) {
                let h = hot(w, &[p]);
                eq("to_u64, to_i64 of a large value", (h.to_u64(), h.to_i64()), (None, None))?;
                eq("is_zero", h.is_zero(), false)?;
            }
            eq("is_zero", (mk(0, w).is_zero(), mk(1, w).is_zero()), (true, false))?;
        }
        "decimal" => {
            eq("to_dec_str", a.to_dec_str(), "5".to_string())?;
            eq("to_dec_str of zero", mk(0, w).to_dec_str(), "0".to_string())?;
        }
        "strings" => {
            text("to_bit_str", &a.to_bit_str(), w as usize, b'0', "101")?;
            text("to_bit_str", &m.to_bit_str(), w as usize, b'1', "0")?;
        }
        "hexadecimal" => {
            let digits = w.div_ceil(4) as usize;
            text("to_hex_str", &a.to_hex_str(), digits, b'0', "5")?;
        }
        "readback" => {
            let back = BitVecValue::from_bit_str(&m.to_bit_str()).map_err(|e| format!("{e:?}"))?;
            expect("from_bit_str", &back, &small(-2, w))?;
        }
        "parse" => {
            for (s, r, v) in [("-2", 16, -2), ("-10", 2, -2), ("5", 16, 5), ("101", 2, 5), ("-8", 10, -8), ("77", 10, 77)] {
                let got = BitVecValue::from_str_radix(s, r, w).map_err(|e| format!("{e:?}"))?;
                expect("from_str_radix", &got, &small(v, w))?;
            }
            let got = BitVecValue::from_str_radix(&a.to_hex_str(), 16, w).map_err(|e| format!("{e:?}"))?;
            expect("from_str_radix of to_hex_str", &got, &small(5, w))?;
        }
        // numerals whose number of digits, or of bits, is more than 2^32
        "overlong" => {
            let exceeds = |s: &str, r: u32, to: u32| match BitVecValue::from_str_radix(s, r, to) {
                Err(e) if format!("{:?}", e).contains("ExceedsWidth") => Ok(()),
                Err(e) => Err(format!("{} digits of base {r}: {e:?}", s.len())),
                Ok(_) => Err(format!("{} digits of base {r} were accepted at width {to}", s.len())),
            };
            let full = BitVecValue::from_str_radix(&BitVecValue::ones(w).to_hex_str(), 16, w).map_err(|e| format!("{e:?}"))?;
            expect("from_str_radix of to_hex_str", &full, &small(-1, w))?;
            drop(full);
            let s = "1".repeat((1 << 30) + 1);
            exceeds(&s, 16, w)?;
            exceeds(&s, 16, 129)?;
            drop(s);
            let s = "1".repeat((1 << 32) + 3);
            exceeds(&s, 16, 129)?;
            exceeds(&s, 2, 129)?;
            exceeds(&s, 2, w)?;
            exceeds(&s, 10, 20)?;
        }
        "bytes" => {
            let b = m.to_bytes_le();
            eq("number of bytes", b.len(), w.div_ceil(8) as usize)?;
            expect("from_bytes_le", &BitVecValue::from_bytes_le(&b, w), &small(-2, w))?;
            expect("from_bytes_le of few bytes", &BitVecValue::from_bytes_le(&[5], w), &small(5, w))?;
        }
        "big" => {
            eq("to_big_int", a.to_big_int(), 5.into())?;
            eq("to_big_int", m.to_big_int(), (-2).into())?;
            let u = m.to_big_uint();
            eq("to_big_uint: bits", u.bits(), w as u64)?;
            expect("from_big_uint", &BitVecValue::from_big_uint(&u, w), &small(-2, w))?;
            expect("from_big_int", &BitVecValue::from_big_int(&(-2).into(), w), &small(-2, w))?;
            expect("From<&BigUint>", &BitVecValue::from(&u), &small(-2, w))?;
        }
        o => panic!("unknown case {o}"),
    }
    Ok(w as u64)
}

impl X {
    fn real(&self) -> BitVecValue {
        let mut v = if self.fill { BitVecValue::ones(self.w) } else { BitVecValue::zero(self.w) };
        for p in &self.flip {
            if self.fill {
                v.clear_bit(*p)
            } else {
                v.set_bit(*p)
            }
        }
        v
    }
}

/// one job: large values need a lot of memory
pub fn jobs(jobs: &mut Vec<Job>, q: bool, what: &'static [&'static str]) {
    jobs.push(job(format!("very wide values: {}", what.join(", ")), move |l| {
        let mut ws = vec![(1u32 << 20) + 1, 1 << 22, (1 << 22) + 1, (1 << 24) - 1, (1 << 25) + 1];
        if !q {
            ws.extend([(1 << 27) + 63, (1 << 31) - 1, (1 << 31) + 65, u32::MAX]);
        }
        if what.contains(&"decimal") {
            // the digits of a number of this width times three exceed 2^32
            ws.push(1_431_655_766);
        }
        for w in ws {
            for what in what {
                if *what == "mul" && w > (1 << 20) + 1 || *what == "overlong" && w != u32::MAX {
                    continue;
                }
                l.states += 1;
                l.check(|| format!("huge what={what} w={w}"), || Ok(run(what, w)?))?;
            }
        }
        Ok(())
    }));
}
