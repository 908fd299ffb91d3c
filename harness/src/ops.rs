//! The operation alphabet: every read-only operation of the public traits, on the model and on
//! the implementation (generic over how operands are held).
use crate::model::{eq, same, M};
use baa::{BitVecOps, BitVecValue};
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Sar,
}
pub const BINS: [(Bin, &str); 9] = [
    (Bin::Add, "add"),
    (Bin::Sub, "sub"),
    (Bin::Mul, "mul"),
    (Bin::And, "and"),
    (Bin::Or, "or"),
    (Bin::Xor, "xor"),
    (Bin::Shl, "shift_left"),
    (Bin::Shr, "shift_right"),
    (Bin::Sar, "arithmetic_shift_right"),
];

impl Bin {
    pub fn name(self) -> &'static str {
        BINS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn of(s: &str) -> Option<Bin> {
        BINS.iter().find(|x| x.1 == s).map(|x| x.0)
    }
    pub fn model(self, a: &M, b: &M) -> M {
        match self {
            Bin::Add => a.add(b),
            Bin::Sub => a.sub(b),
            Bin::Mul => a.mul(b),
            Bin::And => a.and(b),
            Bin::Or => a.or(b),
            Bin::Xor => a.xor(b),
            Bin::Shl => a.shl(b.amount()),
            Bin::Shr => a.shr(b.amount()),
            Bin::Sar => a.sar(b.amount()),
        }
    }
    #[inline]
    pub fn real<A: BitVecOps, B: BitVecOps>(self, a: &A, b: &B) -> BitVecValue {
        match self {
            Bin::Add => a.add(b),
            Bin::Sub => a.sub(b),
            Bin::Mul => a.mul(b),
            Bin::And => a.and(b),
            Bin::Or => a.or(b),
            Bin::Xor => a.xor(b),
            Bin::Shl => a.shift_left(b),
            Bin::Shr => a.shift_right(b),
            Bin::Sar => a.arithmetic_shift_right(b),
        }
    }
}

pub const PREDS: [&str; 10] = [
    "is_equal",
    "is_not_equal",
    "is_greater",
    "is_greater_or_equal",
    "is_less",
    "is_less_or_equal",
    "is_greater_signed",
    "is_greater_or_equal_signed",
    "is_less_signed",
    "is_less_or_equal_signed",
];

pub fn preds_model(a: &M, b: &M) -> [bool; 10] {
    let (u, s) = (a.cmp_u(b), a.cmp_s(b));
    use Ordering::*;
    [
        u == Equal,
        u != Equal,
        u == Greater,
        u != Less,
        u == Less,
        u != Greater,
        s == Greater,
        s != Less,
        s == Less,
        s != Greater,
    ]
}

#[inline]
pub fn preds_real<A: BitVecOps, B: BitVecOps>(a: &A, b: &B) -> [bool; 10] {
    [
        a.is_equal(b),
        a.is_not_equal(b),
        a.is_greater(b),
        a.is_greater_or_equal(b),
        a.is_less(b),
        a.is_less_or_equal(b),
        a.is_greater_signed(b),
        a.is_greater_or_equal_signed(b),
        a.is_less_signed(b),
        a.is_less_or_equal_signed(b),
    ]
}

/// unary and parameterised operations that give a bit-vector
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Un {
    Not,
    Neg,
    Slice(u32, u32),
    Zext(u32),
    Sext(u32),
}

impl Un {
    pub fn model(self, a: &M) -> M {
        match self {
            Un::Not => a.not(),
            Un::Neg => a.neg(),
            Un::Slice(h, l) => a.slice(h, l),
            Un::Zext(b) => a.zext(b),
            Un::Sext(b) => a.sext(b),
        }
    }
    #[inline]
    pub fn real<A: BitVecOps>(self, a: &A) -> BitVecValue {
        match self {
            Un::Not => a.not(),
            Un::Neg => a.negate(),
            Un::Slice(h, l) => a.slice(h, l),
            Un::Zext(b) => a.zero_extend(b),
            Un::Sext(b) => a.sign_extend(b),
        }
    }
    pub fn text(self) -> String {
        match self {
            Un::Not => "not".into(),
            Un::Neg => "negate".into(),
            Un::Slice(h, l) => format!("slice({h},{l})"),
            Un::Zext(b) => format!("zero_extend({b})"),
            Un::Sext(b) => format!("sign_extend({b})"),
        }
    }
    pub fn of(s: &str) -> Option<Un> {
        let (n, args) = match s.split_once('(') {
            None => (s, vec![]),
            Some((n, r)) => (
                n,
                r.trim_end_matches(')').split(',').map(|x| x.parse::<u32>().unwrap()).collect(),
            ),
        };
        Some(match n {
            "not" => Un::Not,
            "negate" => Un::Neg,
            "slice" => Un::Slice(args[0], args[1]),
            "zero_extend" => Un::Zext(args[0]),
            "sign_extend" => Un::Sext(args[0]),
            _ => return None,
        })
    }
}

/// outcome fingerprint of a value
#[inline]
pub fn fp(v: &BitVecValue) -> u64 {
    v.words().iter().fold(v.width() as u64, |h, w| crate::engine::fnv(h, *w))
}

#[inline]
pub fn check_bin(op: Bin, a: &M, b: &M, ra: &BitVecValue, rb: &BitVecValue) -> Result<u64, String> {
    let r = op.real(ra, rb);
    same(&r, &op.model(a, b))?;
    Ok(fp(&r))
}
#[inline]
pub fn check_un(op: Un, a: &M, ra: &BitVecValue) -> Result<u64, String> {
    let r = op.real(ra);
    same(&r, &op.model(a))?;
    Ok(fp(&r))
}
#[inline]
pub fn check_preds(a: &M, b: &M, ra: &BitVecValue, rb: &BitVecValue) -> Result<u64, String> {
    let (m, r) = (preds_model(a, b), preds_real(ra, rb));
    if m == r {
        return Ok(r.iter().fold(0, |h, x| h * 2 + *x as u64));
    }
    for i in 0..10 {
        eq(PREDS[i], r[i], m[i])?;
    }
    unreachable!()
}
