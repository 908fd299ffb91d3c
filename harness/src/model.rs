//! The reference model of a bit-vector: a plain list of bits, least significant first.
//! Deliberately naive: every definition is written bit by bit.
use baa::{BitVecMutOps, BitVecOps, BitVecValue};
use num_bigint::{BigInt, BigUint, Sign};
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct M(pub Vec<bool>);

impl M {
    pub fn zero(w: u32) -> M {
        M(vec![false; w as usize])
    }
    pub fn ones(w: u32) -> M {
        M(vec![true; w as usize])
    }
    pub fn w(&self) -> u32 {
        self.0.len() as u32
    }
    /// low `w` bits of `v`
    pub fn of_u64(v: u64, w: u32) -> M {
        M((0..w).map(|i| i < 64 && (v >> i) & 1 == 1).collect())
    }
    pub fn of_u128(v: u128, w: u32) -> M {
        M((0..w).map(|i| i < 128 && (v >> i) & 1 == 1).collect())
    }
    pub fn of_words(ws: &[u64], w: u32) -> M {
        M((0..w as usize)
            .map(|i| i / 64 < ws.len() && (ws[i / 64] >> (i % 64)) & 1 == 1)
            .collect())
    }
    pub fn words(&self) -> Vec<u64> {
        let n = self.0.len();
        let mut out = vec![0u64; n.div_ceil(64)];
        for (i, o) in out.iter_mut().enumerate() {
            let mut x = 0u64;
            let end = std::cmp::min(64, n - i * 64);
            for (k, b) in self.0[i * 64..i * 64 + end].iter().enumerate() {
                x |= (*b as u64) << k;
            }
            *o = x;
        }
        out
    }
    pub fn bit(&self, i: u32) -> bool {
        self.0[i as usize]
    }
    pub fn with_bit(&self, i: u32, b: bool) -> M {
        let mut o = self.clone();
        o.0[i as usize] = b;
        o
    }
    /// a single one at position i (nothing in a zero-width value)
    pub fn one_hot(w: u32, i: u32) -> M {
        if w == 0 {
            return M::zero(0);
        }
        M::zero(w).with_bit(i, true)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|b| !b)
    }
    pub fn sign(&self) -> bool {
        self.0.last().copied().unwrap_or(false)
    }
    fn addc(&self, o: &M, mut c: bool) -> M {
        assert_eq!(self.w(), o.w());
        let mut out = Vec::with_capacity(self.0.len());
        for (a, b) in self.0.iter().zip(o.0.iter()) {
            out.push(a ^ b ^ c);
            c = (a & b) | (a & c) | (b & c);
        }
        M(out)
    }
    pub fn add(&self, o: &M) -> M {
        self.addc(o, false)
    }
    pub fn sub(&self, o: &M) -> M {
        self.addc(&o.not(), true)
    }
    pub fn neg(&self) -> M {
        M::zero(self.w()).sub(self)
    }
    pub fn mul(&self, o: &M) -> M {
        // independent arbitrary-precision arithmetic, truncated
        M::of_uint(&(self.uint() * o.uint()), self.w())
    }
    /// shift-and-add product, used to cross-check `mul`
    pub fn mul_naive(&self, o: &M) -> M {
        let mut acc = M::zero(self.w());
        for i in 0..self.w() {
            if o.bit(i) {
                acc = acc.add(&self.shl(i as usize));
            }
        }
        acc
    }
    pub fn not(&self) -> M {
        M(self.0.iter().map(|b| !b).collect())
    }
    fn zip(&self, o: &M, f: impl Fn(bool, bool) -> bool) -> M {
        assert_eq!(self.w(), o.w());
        M(self.0.iter().zip(o.0.iter()).map(|(a, b)| f(*a, *b)).collect())
    }
    pub fn and(&self, o: &M) -> M {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &M) -> M {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &M) -> M {
        self.zip(o, |a, b| a ^ b)
    }
    /// value as a shift amount, saturating at "larger than any width"
    pub fn amount(&self) -> usize {
        let mut v = 0usize;
        for (i, b) in self.0.iter().enumerate() {
            if *b {
                if i >= 40 {
                    return usize::MAX;
                }
                v |= 1 << i;
            }
        }
        v
    }
    pub fn shl(&self, n: usize) -> M {
        let w = self.0.len();
        M((0..w).map(|i| i >= n && self.0[i - n]).collect())
    }
    fn shr_fill(&self, n: usize, fill: bool) -> M {
        let w = self.0.len();
        M((0..w)
            .map(|i| if n < w && i + n < w { self.0[i + n] } else { fill })
            .collect())
    }
    pub fn shr(&self, n: usize) -> M {
        self.shr_fill(n, false)
    }
    pub fn sar(&self, n: usize) -> M {
        self.shr_fill(n, self.sign())
    }
    pub fn cmp_u(&self, o: &M) -> Ordering {
        assert_eq!(self.w(), o.w());
        for (a, b) in self.0.iter().rev().zip(o.0.iter().rev()) {
            if a != b {
                return a.cmp(b);
            }
        }
        Ordering::Equal
    }
    pub fn cmp_s(&self, o: &M) -> Ordering {
        match (self.sign(), o.sign()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.cmp_u(o),
        }
    }
    pub fn slice(&self, hi: u32, lo: u32) -> M {
        M(self.0[lo as usize..=hi as usize].to_vec())
    }
    /// `self` becomes the most significant part
    pub fn concat(&self, lsb: &M) -> M {
        M(lsb.0.iter().chain(self.0.iter()).copied().collect())
    }
    pub fn zext(&self, by: u32) -> M {
        M(self.0.iter().copied().chain(std::iter::repeat(false).take(by as usize)).collect())
    }
    pub fn sext(&self, by: u32) -> M {
        let s = self.sign();
        M(self.0.iter().copied().chain(std::iter::repeat(s).take(by as usize)).collect())
    }
    pub fn bit_str(&self) -> String {
        self.0.iter().rev().map(|b| if *b { '1' } else { '0' }).collect()
    }
    pub fn hex_str(&self) -> String {
        let d = self.0.len().div_ceil(4);
        let mut s = String::new();
        for i in (0..d).rev() {
            let mut x = 0u32;
            for k in (0..4).rev() {
                x = x * 2 + self.0.get(i * 4 + k).copied().unwrap_or(false) as u32;
            }
            s.push(char::from_digit(x, 16).unwrap());
        }
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.0.len().div_ceil(8);
        (0..n)
            .map(|i| {
                (0..8).fold(0u8, |a, k| {
                    a | ((self.0.get(i * 8 + k).copied().unwrap_or(false) as u8) << k)
                })
            })
            .collect()
    }
    pub fn of_bytes(b: &[u8], w: u32) -> M {
        M((0..w as usize)
            .map(|i| i / 8 < b.len() && (b[i / 8] >> (i % 8)) & 1 == 1)
            .collect())
    }
    pub fn uint(&self) -> BigUint {
        BigUint::from_bytes_le(&self.bytes())
    }
    pub fn int(&self) -> BigInt {
        let u = BigInt::from_biguint(Sign::Plus, self.uint());
        if self.sign() {
            u - (BigInt::from(1) << self.w())
        } else {
            u
        }
    }
    /// v mod 2^w
    pub fn of_uint(v: &BigUint, w: u32) -> M {
        M::of_bytes(&v.to_bytes_le(), w)
    }
    /// v mod 2^w
    pub fn of_int(v: &BigInt, w: u32) -> M {
        let m = M::of_uint(v.magnitude(), w);
        if v.sign() == Sign::Minus {
            m.neg()
        } else {
            m
        }
    }
    /// Builds the corresponding real value, writing the words directly (no operation under test
    /// besides allocation).
    pub fn real(&self) -> BitVecValue {
        let mut v = BitVecValue::zero(self.w());
        v.words_mut().copy_from_slice(&self.words());
        v
    }
    /// `width'hHEX`
    pub fn text(&self) -> String {
        format!("{}'h{}", self.w(), self.hex_str())
    }
    pub fn parse(s: &str) -> M {
        let (w, h) = s.split_once("'h").expect("bit-vector literal");
        let w: u32 = w.parse().unwrap();
        let mut bits = Vec::new();
        for c in h.chars().rev() {
            let d = c.to_digit(16).unwrap();
            for k in 0..4 {
                bits.push((d >> k) & 1 == 1);
            }
        }
        bits.resize(w as usize, false);
        M(bits)
    }
}

/// Compares a complete real value with the model: width, number of words, every stored bit.
#[inline]
pub fn same<V: BitVecOps + ?Sized>(real: &V, m: &M) -> Result<(), String> {
    let ws = m.words();
    if real.width() == m.w() && real.words() == ws.as_slice() {
        Ok(())
    } else {
        Err(diff(real, m))
    }
}

#[cold]
fn diff<V: BitVecOps + ?Sized>(real: &V, m: &M) -> String {
    let show: Vec<String> = real.words().iter().map(|w| format!("{w:#x}")).collect();
    let exp: Vec<String> = m.words().iter().map(|w| format!("{w:#x}")).collect();
    format!(
        "got width={} words(lsb first)=[{}], expected width={} words=[{}]",
        real.width(),
        trunc(&show.join(",")),
        m.w(),
        trunc(&exp.join(","))
    )
}

pub fn trunc(s: &str) -> String {
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

pub fn model_of<V: BitVecOps + ?Sized>(v: &V) -> M {
    M::of_words(v.words(), v.width())
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: got {}, expected {}", trunc(&format!("{got:?}")), trunc(&format!("{exp:?}"))))
    }
}

/// Exhaustive cross-check of the model itself against u128 arithmetic (all pairs, widths 1..=6).
pub fn self_check() -> u64 {
    let mut n = 0;
    for w in 1..=6u32 {
        let mask = (1u128 << w) - 1;
        let sx = |v: u128| -> i128 { if v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 } };
        for a in 0..=mask {
            let ma = M::of_u128(a, w);
            assert_eq!(ma.uint(), BigUint::from(a));
            assert_eq!(ma.int(), BigInt::from(sx(a)));
            assert_eq!(M::of_int(&BigInt::from(sx(a)), w), ma);
            assert_eq!(M::parse(&ma.text()), ma);
            assert_eq!(ma.neg(), M::of_u128((!a).wrapping_add(1), w));
            assert_eq!(ma.hex_str(), format!("{:0n$x}", a, n = w.div_ceil(4) as usize));
            assert_eq!(ma.bit_str(), format!("{:0n$b}", a, n = w as usize));
            for b in 0..=mask {
                let mb = M::of_u128(b, w);
                assert_eq!(ma.add(&mb), M::of_u128(a + b, w));
                assert_eq!(ma.sub(&mb), M::of_u128(a.wrapping_sub(b), w));
                assert_eq!(ma.mul(&mb), M::of_u128(a * b, w));
                assert_eq!(ma.mul_naive(&mb), M::of_u128(a * b, w));
                assert_eq!(ma.and(&mb), M::of_u128(a & b, w));
                assert_eq!(ma.cmp_u(&mb), a.cmp(&b));
                assert_eq!(ma.cmp_s(&mb), sx(a).cmp(&sx(b)));
                assert_eq!(ma.shl(mb.amount()), M::of_u128(a << b, w));
                assert_eq!(ma.shr(mb.amount()), M::of_u128(a >> b, w));
                assert_eq!(ma.sar(mb.amount()), M::of_u128((sx(a) >> b) as u128, w));
                assert_eq!(ma.concat(&mb), M::of_u128(a << w | b, 2 * w));
                n += 1;
            }
        }
    }
    for w in [65u32, 130] {
        for i in 0..w {
            for j in 0..w {
                let (a, b) = (M::one_hot(w, i).not(), M::one_hot(w, j).not().shr(1));
                assert_eq!(a.mul(&b), a.mul_naive(&b));
                n += 1;
            }
        }
    }
    n
}
