//! C01: chains of public operations, results fed back as operands; canonical form and value after
//! every step.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{same, M};
use crate::ops::*;
use baa::*;
use num_bigint::{BigInt, BigUint};

const MAX_W: u32 = 400;

/// the second operand, relative to the current value
#[derive(Clone, Copy, PartialEq, Debug)]
enum Opd {
    Cur,
    Prev,
    Ones,
    One,
    Top,
    Pat,
    /// a small shift amount / number
    Num(u32),
    /// amounts relative to the width: half, one less than the width, the width itself, a multiple of 64
    Half,
    Last,
    Wid,
    Words,
}

impl Opd {
    fn get(self, s: &St) -> Option<M> {
        let w = s.m.w();
        if w == 0 {
            return if matches!(self, Opd::Prev) { None } else { Some(M::zero(0)) };
        }
        Some(match self {
            Opd::Cur => s.m.clone(),
            Opd::Prev => {
                if s.prev.as_ref()?.0.w() != w {
                    return None;
                }
                s.prev.as_ref()?.0.clone()
            }
            Opd::Ones => M::ones(w),
            Opd::One => M::of_u64(1, w),
            Opd::Top => M::one_hot(w, w - 1),
            Opd::Pat => patterns(w).pop().unwrap(),
            Opd::Num(n) => {
                if w < 20 && n >> w != 0 {
                    return None;
                }
                M::of_u64(n as u64, w)
            }
            Opd::Half => M::of_u64(w as u64 / 2, w),
            Opd::Last => M::of_u64(w as u64 - 1, w),
            Opd::Wid => {
                if w < 3 {
                    return None;
                }
                M::of_u64(w as u64, w)
            }
            Opd::Words => {
                if w <= 128 {
                    return None;
                }
                M::of_u64((w as u64 - 1) / 64 * 64, w)
            }
        })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Bin(Bin, Opd, bool),
    Un(Un),
    /// relative slices
    Sl(u32),
    /// concatenation with the k-th fixed value, or the current value, on either side
    Cat(u32, bool),
    Conv(&'static str),
    Inp(&'static str),
}

const CONVS: [&str; 34] = [
    "clone", "from-ref", "bits", "hex", "dec", "signed-bits", "signed-hex", "bit-str", "hex-str", "bytes", "big-int", "big-uint", "big-int-min", "big-uint-min", "u64", "i64",
    "bool", "json", "bincode", "interner", "store", "sparse-data", "dense-data", "sparse-index",
    "bytes-dirty", "bytes-short", "dec-int", "hex-upper", "hex-plus", "bits-zeros", "dense-sparse", "sparse-dense", "array-json", "clone-from",
];
const INPS: [&str; 20] = [
    "assign-pat", "assign-prev", "ones", "clear", "set-0", "set-top", "set-mid", "unset-0", "unset-top", "unset-mid", "u64-max", "u64-1", "i64-neg1", "i64-min", "str-neg1", "str-hex", "str-empty", "dirty-mask", "i64-max", "str-dec",
];

fn cat_opd(k: u32, cur: &M) -> M {
    match k {
        0 => M::ones(1),
        1 => M::zero(1),
        2 => patterns(63).pop().unwrap(),
        3 => M::ones(64),
        4 => patterns(65).pop().unwrap(),
        5 => M::of_u64(5, 3),
        _ => cur.clone(),
    }
}

impl Step {
    fn text(self) -> String {
        match self {
            Step::Bin(b, o, flip) => format!("{}({o:?}){}", b.name(), if flip { "'" } else { "" }),
            Step::Un(u) => u.text(),
            Step::Sl(k) => format!("slice#{k}"),
            Step::Cat(k, l) => format!("concat{}#{k}", if l { "-left" } else { "-right" }),
            Step::Conv(s) => format!("via-{s}"),
            Step::Inp(s) => format!("inplace-{s}"),
        }
    }
}

fn bounds(k: u32, w: u32) -> Option<(u32, u32)> {
    let r = match k {
        _ if w == 0 => return None,
        0 => (w - 1, 0),
        1 => (w - 1, w / 2),
        2 => (w / 2, 0),
        3 => (w - 1, w - 1),
        4 if w > 2 => (w - 2, 1),
        5 if w > 64 => (w - 1, 64),
        6 if w > 64 => (63, 0),
        7 if w > 64 => (64, 0),
        8 if w > 70 => (67, 61),
        9 if w > 131 => (130, 3),
        _ => return None,
    };
    Some(r)
}

fn alphabet() -> Vec<Step> {
    let mut o = vec![];
    for (b, _) in BINS {
        let opds: Vec<Opd> = match b {
            Bin::Shl | Bin::Shr | Bin::Sar => vec![Opd::Num(1), Opd::Num(3), Opd::Num(63), Opd::Num(64), Opd::Num(65), Opd::Num(128), Opd::Half, Opd::Last, Opd::Wid, Opd::Words, Opd::Cur, Opd::Ones],
            Bin::And | Bin::Or | Bin::Xor => vec![Opd::Pat, Opd::Prev],
            _ => vec![Opd::One, Opd::Ones, Opd::Pat, Opd::Cur, Opd::Prev, Opd::Top],
        };
        for x in opds {
            o.push(Step::Bin(b, x, false));
        }
        o.push(Step::Bin(b, Opd::Pat, true));
    }
    o.push(Step::Un(Un::Not));
    o.push(Step::Un(Un::Neg));
    for by in [0, 1, 2, 62, 63, 64, 65] {
        o.push(Step::Un(Un::Zext(by)));
        o.push(Step::Un(Un::Sext(by)));
    }
    for k in 0..10 {
        o.push(Step::Sl(k));
    }
    for k in 0..7 {
        o.push(Step::Cat(k, true));
        if k < 6 {
            o.push(Step::Cat(k, false));
        }
    }
    o.extend(CONVS.iter().map(|c| Step::Conv(c)));
    o.extend(INPS.iter().map(|c| Step::Inp(c)));
    o
}

#[derive(Clone)]
struct St {
    m: M,
    v: BitVecValue,
    prev: Option<(M, BitVecValue)>,
}

impl St {
    fn new(m: &M) -> St {
        St { m: m.clone(), v: m.real(), prev: None }
    }
    /// the real operand for a model operand: the previous real values themselves where they are meant
    fn real_opd(&self, o: Opd, m: &M) -> BitVecValue {
        match o {
            Opd::Cur => self.v.clone(),
            Opd::Prev => self.prev.as_ref().unwrap().1.clone(),
            _ => m.real(),
        }
    }

    /// None: the step is not enabled here
    fn step(&self, s: Step, n: usize) -> Result<Option<St>, String> {
        let w = self.m.w();
        let v = &self.v;
        let (m2, v2) = match s {
            Step::Bin(b, o, flip) => {
                let Some(x) = o.get(self) else { return Ok(None) };
                if b == Bin::Mul && w > 260 {
                    return Ok(None);
                }
                let rx = self.real_opd(o, &x);
                if flip {
                    (b.model(&x, &self.m), if n % 2 == 0 { b.real(&rx, v) } else { b.real(&BitVecValueRef::from(&rx), &BitVecValueRef::from(v)) })
                } else if o == Opd::Cur && n % 2 == 1 {
                    (b.model(&self.m, &x), b.real(v, v))
                } else {
                    (b.model(&self.m, &x), b.real(v, &BitVecValueRef::from(&rx)))
                }
            }
            Step::Un(u) => {
                if let Un::Zext(b) | Un::Sext(b) = u {
                    if w + b > MAX_W && w <= MAX_W {
                        return Ok(None);
                    }
                }
                (u.model(&self.m), u.real(v))
            }
            Step::Sl(k) => {
                let Some((hi, lo)) = bounds(k, w) else { return Ok(None) };
                (self.m.slice(hi, lo), v.slice(hi, lo))
            }
            Step::Cat(k, left) => {
                let x = cat_opd(k, &self.m);
                if w + x.w() > MAX_W && w <= MAX_W {
                    return Ok(None);
                }
                let r = x.real();
                if left {
                    (x.concat(&self.m), r.concat(v))
                } else {
                    (self.m.concat(&x), v.concat(&BitVecValueRef::from(&r)))
                }
            }
            Step::Conv(c) => match self.convert(c)? {
                Some(x) => x,
                None => return Ok(None),
            },
            Step::Inp(c) => {
                let mut x = v.clone();
                let r = if n % 2 == 0 {
                    self.in_place(&mut x, c)?
                } else {
                    // through a mutable view into a store full of ones
                    let k = w.div_ceil(64) as usize;
                    let mut store = vec![u64::MAX; k + 2];
                    let ix = BitVecValueIndex::new(1, w);
                    store.as_mut_slice().get_mut_ref(ix).assign(v);
                    let mut t: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(ix);
                    let r = self.in_place(&mut t, c)?;
                    if store[0] != u64::MAX || store[k + 1] != u64::MAX {
                        return Err("an update of a slot changed its neighbours".into());
                    }
                    x = BitVecValue::from(store.as_slice().get_ref(ix));
                    r
                };
                match r {
                    Some(m) => (m, x),
                    None => return Ok(None),
                }
            }
        };
        same(&v2, &m2)?;
        same(v, &self.m).map_err(|e| format!("the operand changed: {e}"))?;
        Ok(Some(St { prev: Some((self.m.clone(), self.v.clone())), m: m2, v: v2 }))
    }

    fn in_place<T: BitVecMutOps>(&self, t: &mut T, c: &str) -> Result<Option<M>, String> {
        let m = &self.m;
        let w = m.w();
        let mid = w / 2;
        if w == 0 && (c.contains("set") || c.contains("64") || c == "str-neg1") {
            return Ok(None);
        }
        Ok(Some(match c {
            "assign-pat" => {
                let p = patterns(w).pop().unwrap();
                t.assign(&p.real());
                p
            }
            "assign-prev" => match &self.prev {
                Some((pm, pv)) if pm.w() == w => {
                    t.assign(BitVecValueRef::from(pv));
                    pm.clone()
                }
                _ => return Ok(None),
            },
            "ones" => {
                t.assign_ones();
                M::ones(w)
            }
            "clear" => {
                t.clear();
                M::zero(w)
            }
            "set-0" => {
                t.set_bit(0);
                m.with_bit(0, true)
            }
            "set-top" => {
                t.set_bit(w - 1);
                m.with_bit(w - 1, true)
            }
            "set-mid" => {
                t.set_bit(mid);
                m.with_bit(mid, true)
            }
            "unset-0" => {
                t.clear_bit(0);
                m.with_bit(0, false)
            }
            "unset-top" => {
                t.clear_bit(w - 1);
                m.with_bit(w - 1, false)
            }
            "unset-mid" => {
                t.clear_bit(mid);
                m.with_bit(mid, false)
            }
            "u64-max" => {
                let x = if w < 64 { (1 << w) - 1 } else { u64::MAX };
                t.assign_from_u64(x);
                M::of_u64(x, w)
            }
            "u64-1" => {
                t.assign_from_u64(1);
                M::of_u64(1, w)
            }
            "i64-neg1" => {
                t.assign_from_i64(-1);
                M::ones(w)
            }
            "i64-min" => {
                let x = if w < 64 { -(1i64 << (w - 1)) } else { i64::MIN };
                t.assign_from_i64(x);
                M::of_int(&BigInt::from(x), w)
            }
            "str-neg1" => {
                t.assign_from_str_radix("-1", 10).map_err(|e| format!("{e:?}"))?;
                M::ones(w)
            }
            "str-hex" => {
                let p = patterns(w).pop().unwrap();
                t.assign_from_str_radix(&p.hex_str(), 16).map_err(|e| format!("{e:?}"))?;
                p
            }
            "i64-max" => {
                let x = if w < 64 { (1i64 << (w - 1)) - 1 } else { i64::MAX };
                t.assign_from_i64(x);
                M::of_int(&BigInt::from(x), w)
            }
            "str-dec" => {
                let p = m.neg();
                t.assign_from_str_radix(&p.uint().to_string(), 10).map_err(|e| format!("{e:?}"))?;
                p
            }
            "str-empty" => {
                t.assign_from_str_radix("", 2).map_err(|e| format!("{e:?}"))?;
                M::zero(w)
            }
            "dirty-mask" => {
                for x in t.words_mut() {
                    *x = u64::MAX;
                }
                t.mask_msb();
                M::ones(w)
            }
            o => panic!("unknown in-place step {o}"),
        }))
    }

    fn convert(&self, c: &str) -> Result<Option<(M, BitVecValue)>, String> {
        let (m, v) = (&self.m, &self.v);
        let w = m.w();
        fn e<E: std::fmt::Debug>(e: E) -> String {
            format!("parsing failed: {e:?}")
        }
        let mut out = m.clone();
        // only "0" is a numeral for zero bits
        if w == 0 && matches!(c, "hex-plus" | "bits-zeros" | "hex-upper") {
            return Ok(None);
        }
        let r = match c {
            "clone" => v.clone(),
            "from-ref" => BitVecValue::from(BitVecValueRef::from(v)),
            "bits" => BitVecValue::from_str_radix(&v.to_bit_str(), 2, w).map_err(e)?,
            "hex" => BitVecValue::from_str_radix(&v.to_hex_str(), 16, w).map_err(e)?,
            "dec" => BitVecValue::from_str_radix(&v.to_dec_str(), 10, w).map_err(e)?,
            "signed-bits" => BitVecValue::from_str_radix(&v.to_bit_str_signed(), 2, w).map_err(e)?,
            "signed-hex" => BitVecValue::from_str_radix(&v.to_hex_str_signed(), 16, w).map_err(e)?,
            "bit-str" => BitVecValue::from_bit_str(&v.to_bit_str()).map_err(e)?,
            "hex-str" => {
                out = m.zext(w.div_ceil(4) * 4 - w);
                BitVecValue::from_hex_str(&v.to_hex_str()).map_err(e)?
            }
            "bytes" => BitVecValue::from_bytes_le(&v.to_bytes_le(), w),
            "big-int" => BitVecValue::from_big_int(&v.to_big_int(), w),
            "big-uint" => BitVecValue::from_big_uint(&v.to_big_uint(), w),
            "big-int-min" | "big-uint-min" if m.is_zero() => return Ok(None),
            "big-int-min" => {
                let i: BigInt = m.int();
                out = M::of_int(&i, i.bits() as u32 + 1);
                BitVecValue::from(&v.to_big_int())
            }
            "big-uint-min" => {
                let u: BigUint = m.uint();
                out = M::of_uint(&u, u.bits() as u32);
                BitVecValue::from(&v.to_big_uint())
            }
            "u64" => match v.to_u64() {
                Some(x) => BitVecValue::from_u64(x, w),
                None => return Ok(None),
            },
            "i64" => match v.to_i64() {
                Some(x) => BitVecValue::from_i64(x, w),
                None => return Ok(None),
            },
            "bool" => match v.to_bool() {
                Some(x) => BitVecValue::from(x),
                None => return Ok(None),
            },
            "json" => serde_json::from_str(&serde_json::to_string(v).unwrap()).map_err(|e| e.to_string())?,
            "bincode" => bincode::deserialize(&bincode::serialize(v).unwrap()).map_err(|e| e.to_string())?,
            "interner" => {
                let mut i = ValueInterner::new();
                i.get_index(&BitVecValue::ones(w));
                let ix = i.get_index(v);
                i.get_index(&BitVecValue::ones(w + 1));
                BitVecValue::from(i.words().get_ref(ix))
            }
            "store" => {
                let k = w.div_ceil(64);
                let mut st = vec![u64::MAX; 2 * k as usize];
                let (a, b) = (BitVecValueIndex::new(0, w), BitVecValueIndex::new(k, w));
                st.as_mut_slice().get_mut_ref(b).assign(v);
                let (mut x, y) = st.as_mut_slice().get_mut_ref((a, b));
                x.assign(y);
                BitVecValue::from(st.as_slice().get_ref(a))
            }
            "sparse-data" => {
                let mut a = ArrayValue::new_sparse(3, &BitVecValue::ones(w));
                let i = BitVecValue::from_u64(5, 3);
                a.store(&i, v);
                a.select(&i)
            }
            "dense-data" => {
                let mut a = ArrayValue::new_dense(2, v);
                let i = BitVecValue::from_u64(2, 2);
                a.store(&i, &BitVecValue::ones(w));
                a.store(&i, v);
                a.select(&i)
            }
            "sparse-index" => {
                let mut a = SparseArrayValue::new(w, &BitVecValue::fals());
                a.store(v, &BitVecValue::tru());
                let (i, d) = a.non_default_entries().next().ok_or("the entry is missing")?;
                same(&d, &M::ones(1))?;
                i
            }
            // the last byte carries bits above the width, which are dropped
            "bytes-dirty" => {
                let mut b = v.to_bytes_le();
                if w % 8 != 0 {
                    *b.last_mut().unwrap() |= 0xffu8 << (w % 8);
                }
                BitVecValue::from_bytes_le(&b, w)
            }
            "bytes-short" => {
                if w <= 8 {
                    return Ok(None);
                }
                let b = v.to_bytes_le();
                let k = b.len() / 2;
                out = m.slice(8 * k as u32 - 1, 0).zext(w - 8 * k as u32);
                BitVecValue::from_bytes_le(&b[..k], w)
            }
            "dec-int" => BitVecValue::from_str_radix(&v.to_big_int().to_string(), 10, w).map_err(e)?,
            "hex-upper" => BitVecValue::from_str_radix(&v.to_hex_str().to_uppercase(), 16, w).map_err(e)?,
            "hex-plus" => BitVecValue::from_str_radix(&format!("+00{}", v.to_hex_str()), 16, w).map_err(e)?,
            "bits-zeros" => BitVecValue::from_str_radix(&format!("{}{}", "0".repeat(130), v.to_bit_str()), 2, w).map_err(e)?,
            "dense-sparse" => {
                let mut a = ArrayValue::new_dense(2, &BitVecValue::zero(w));
                let i = BitVecValue::from_u64(3, 2);
                a.store(&i, v);
                SparseArrayValue::from(a).select(&i)
            }
            "sparse-dense" => {
                let mut a = ArrayValue::new_sparse(2, v);
                let i = BitVecValue::from_u64(1, 2);
                a.store(&i, &BitVecValue::ones(w));
                a.make_dense();
                same(&a.select(&i), &M::ones(w))?;
                a.select(&BitVecValue::from_u64(2, 2))
            }
            "array-json" => {
                let mut a = ArrayValue::new_sparse(2, &BitVecValue::ones(w));
                let i = BitVecValue::from_u64(1, 2);
                a.store(&i, v);
                let a: ArrayValue = serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string())?;
                a.select(&i)
            }
            "clone-from" => {
                let mut x = BitVecValue::ones(w + 70);
                x.clone_from(v);
                x
            }
            o => panic!("unknown conversion {o}"),
        };
        Ok(Some((out, r)))
    }
}

pub fn replay(c: &Case) -> Result<(), Fail> {
    let all = alphabet();
    let mut s = St::new(&c.m("init"));
    for (n, t) in c.s("ops").split(';').filter(|x| !x.is_empty()).enumerate() {
        let op = *all.iter().find(|x| x.text() == t).unwrap_or_else(|| panic!("unknown step {t}"));
        match s.step(op, n).map_err(|e| format!("step {n} ({t}): {e}"))? {
            Some(x) => s = x,
            None => return Err(Fail::V(format!("step {n} ({t}) is not enabled"))),
        }
    }
    Ok(())
}

fn dfs(l: &mut Loc, init: &M, ops: &[Step], path: &mut Vec<Step>, s: &St, depth: usize) -> R {
    for op in ops {
        path.push(*op);
        let mut next = None;
        let mut enabled = true;
        {
            let (path, next, enabled) = (&*path, &mut next, &mut enabled);
            l.check(
                || format!("chain init={} ops={}", init.text(), path.iter().map(|p| p.text()).collect::<Vec<_>>().join(";")),
                || match s.step(*op, path.len() - 1)? {
                    Some(n) => {
                        let h = fp(&n.v);
                        *next = Some(n);
                        Ok(h)
                    }
                    None => {
                        *enabled = false;
                        Err(Fail::K("", String::new()))
                    }
                },
            )?;
        }
        if enabled {
            l.states += 1;
            if depth > 1 {
                if let Some(n) = next {
                    dfs(l, init, ops, path, &n, depth - 1)?;
                }
            }
        }
        path.pop();
    }
    Ok(())
}

pub fn c01(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    let deep: Vec<u32> = if q { vec![1, 8, 63, 64, 65, 127, 128, 129, 193] } else { vec![1, 2, 3, 8, 31, 32, 33, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257] };
    let starts = |w: u32| if w == 0 { full(0) } else { dedup(vec![M::ones(w), patterns(w).pop().unwrap(), M::one_hot(w, w - 1)]) };
    for w in 0..=if q { 330 } else { 400 } {
        jobs.push(job(format!("chains of up to 2 operations from width {w}"), move |l| {
            let mut st = starts(w);
            st.push(M::zero(w));
            st.push(M::of_u64(1, w));
            for init in dedup(st) {
                dfs(l, &init, &alphabet(), &mut vec![], &St::new(&init), 2)?;
            }
            Ok(())
        }));
    }
    // single steps from all kinds of values
    for w in [20u32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 192, 200, 256, 300, 320, 385, 512, 700, 1024, 1100] {
        jobs.push(job(format!("single operations at width {w} from word shapes"), move |l| {
            for init in shapes(w) {
                dfs(l, &init, &alphabet(), &mut vec![], &St::new(&init), 1)?;
            }
            Ok(())
        }));
    }
    // single steps at large widths
    for w in WIDE.into_iter().chain(if q { vec![16385, 65537] } else { HUGE.to_vec() }).filter(|w| *w > MAX_W) {
        for init in starts(w) {
            jobs.push(job(format!("single operations at width {w} from {}", &init.text().chars().take(30).collect::<String>()), move |l| {
                dfs(l, &init, &alphabet(), &mut vec![], &St::new(&init), 1)
            }));
        }
    }
    for w in deep {
        for (k, init) in starts(w).into_iter().enumerate() {
            if q && k > 0 {
                continue;
            }
            // one job per first operation
            for first in alphabet() {
                let init = init.clone();
                jobs.push(job(format!("chains of up to 3 operations from {} that start with {}", init.text(), first.text()), move |l| {
                    match catch(|| St::new(&init).step(first, 0)) {
                        Ok(Ok(Some(s))) => dfs(l, &init, &alphabet(), &mut vec![first], &s, 2),
                        _ => Ok(()), // judged by the chains of up to 2 operations
                    }
                }));
            }
        }
    }
    jobs
}
