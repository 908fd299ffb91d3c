//! C18 arrays as maps, C19 representation changes, C20 equality, C21 serialisation, C24 entries.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{eq, same, M};
use crate::ops::{fp, Bin, Un, BINS};
use baa::*;
use std::collections::BTreeMap;

pub fn replay(c: &Case) -> Result<(), Fail> {
    let obs = || c.s("obs").parse::<u32>().unwrap();
    match c.op.as_str() {
        "arr" => {
            run_spec(&Spec::parse(c.s("a")), obs())?;
        }
        "loop" => {
            run_loop(&Spec::parse(c.s("a")), c.u("n"), obs())?;
        }
        "eq" => {
            let (mut a, mut b) = (Spec::parse(c.s("a")).state()?, Spec::parse(c.s("b")).state()?);
            equal_pair(&mut a, &mut b)?;
        }
        "slice" => {
            slice(c.s("kind"), c.u("n") as usize, c.u("pat"))?;
        }
        "sweep" => {
            sweep(c.s("kind"), c.u("iw"), c.u("dw"), c.u("pat"), obs())?;
        }
        "widesweep" => {
            wide_sweep(c.s("kind"), c.u("iw"), c.u("dw"), c.u("pat"), c.u("count") as usize, obs())?;
        }
        "drain" => {
            drain(c.s("kind"), c.u("iw"), c.u("dw"), c.u("pat"), c.u("count") as usize, c.u("order"), obs())?;
        }
        "bulk" => {
            bulk(c.s("kind"), c.u("iw"), c.u("dw"))?;
        }
        "edgestore" => {
            edge_store(c.s("kind"), c.u("iw"), c.u("dw"))?;
        }
        "edgeconvert" => {
            edge_convert(c.u("iw"), c.u("dw"), c.u("zero") == 1)?;
        }
        "edgeequal" => {
            edge_equal(c.u("iw"), c.u("dw"))?;
        }
        "bitbig" => {
            bit_big(c.u("iw"))?;
        }
        "serde" => {
            serde_bv(&c.m("a"))?;
        }
        "serdearr" => {
            serde_array(c.u("iw"), c.u("dw"), c.u("pat"), c.u("kind"))?;
        }
        "diff" => {
            let at: Vec<u64> = c.s("at").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let (iw, dw, pat) = (c.u("iw"), c.u("dw"), c.u("pat"));
            let (ka, kb) = (c.u("ka"), c.u("kb"));
            diff(iw, dw, pat, &diff_base(iw, dw, pat, ka), &diff_base(iw, dw, pat, kb), &at, c.u("how"))?;
        }
        "value" => {
            value_wrapper(&c.m("a"), &c.m("b"))?;
        }
        o => panic!("unknown trace op {o}"),
    }
    Ok(())
}

// what to look at after every transition
const SELECT: u32 = 1;
const REPR: u32 = 2;
const ENTRIES: u32 = 4;
const EQUAL: u32 = 8;

#[derive(Clone)]
enum Obj {
    A(ArrayValue),
    S(SparseArrayValue),
}

macro_rules! with_obj {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Obj::A($x) => $e,
            Obj::S($x) => $e,
        }
    };
}

#[derive(Clone, PartialEq, Debug)]
enum Op {
    St(M, M),
    Clear,
    /// to the dense representation (a `SparseArrayValue` is rebuilt as an `ArrayValue` first)
    Dense,
    /// to a `SparseArrayValue`
    Sparse,
    /// a new sparse `ArrayValue` from the default and the entries of the sparse form
    Rebuild,
    /// change a clone, keep the original
    CloneMut,
    /// continue with a clone, change the original
    Fork,
    Json,
    JsonValue,
    Bincode,
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::St(i, d) => format!("st:{}:{}", i.text(), d.text()),
            Op::Clear => "clear".into(),
            Op::Dense => "dense".into(),
            Op::Sparse => "sparse".into(),
            Op::Rebuild => "rebuild".into(),
            Op::CloneMut => "clonemut".into(),
            Op::Fork => "fork".into(),
            Op::Json => "json".into(),
            Op::JsonValue => "jsonvalue".into(),
            Op::Bincode => "bincode".into(),
        }
    }
    fn parse(s: &str) -> Op {
        let p: Vec<&str> = s.split(':').collect();
        match p[0] {
            "st" => Op::St(M::parse(p[1]), M::parse(p[2])),
            "clear" => Op::Clear,
            "dense" => Op::Dense,
            "sparse" => Op::Sparse,
            "rebuild" => Op::Rebuild,
            "clonemut" => Op::CloneMut,
            "fork" => Op::Fork,
            "json" => Op::Json,
            "jsonvalue" => Op::JsonValue,
            "bincode" => Op::Bincode,
            o => panic!("unknown array op {o}"),
        }
    }
}

/// the model of an array: a default and a map
#[derive(Clone)]
struct Model {
    iw: u32,
    dw: u32,
    default: M,
    map: BTreeMap<M, M>,
    dense: bool,
}
impl Model {
    fn get(&self, i: &M) -> &M {
        self.map.get(i).unwrap_or(&self.default)
    }
    fn store(&mut self, i: &M, d: &M) {
        self.map.insert(i.clone(), d.clone());
    }
    fn clear(&mut self) {
        self.map.clear();
        self.default = M::zero(self.dw);
    }
    /// every index, if there are few; otherwise the stored ones, their neighbours and edges
    fn probes(&self) -> Vec<M> {
        if self.iw <= 4 {
            return (0..1u64 << self.iw).map(|v| M::of_u64(v, self.iw)).collect();
        }
        let mut o = idx_alpha(self.iw);
        for k in self.map.keys() {
            o.push(k.clone());
            o.push(k.add(&M::of_u64(1, self.iw)));
            o.push(k.sub(&M::of_u64(1, self.iw)));
            o.push(k.with_bit(self.iw - 1, !k.bit(self.iw - 1)));
            if self.iw > 8 {
                o.push(k.with_bit(8, !k.bit(8)));
            }
        }
        o.sort();
        o.dedup();
        o
    }
    /// extensional equality
    fn same(&self, o: &Model) -> Option<bool> {
        if self.iw != o.iw || self.dw != o.dw {
            return None;
        }
        let all = |m: &Model, n: &Model| m.map.keys().all(|k| m.get(k) == n.get(k));
        let mut keys: Vec<&M> = self.map.keys().chain(o.map.keys()).collect();
        keys.sort();
        keys.dedup();
        let covered = self.iw < 30 && keys.len() == 1 << self.iw;
        Some(all(self, o) && all(o, self) && (covered || self.default == o.default))
    }
}

fn idx_alpha(iw: u32) -> Vec<M> {
    let mut o = vec![];
    for v in [0u128, 1, 7, 8, 31, 63, 64, 65, 127, 128, 255, 256, 257, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 127] {
        if iw >= 128 || v < 1u128 << iw {
            o.push(M::of_u128(v, iw));
        }
    }
    o.push(M::ones(iw));
    if iw > 0 {
        o.push(M::ones(iw).with_bit(0, false));
        o.push(M::one_hot(iw, iw - 1));
    }
    dedup(o)
}

#[derive(Clone)]
struct State {
    obj: Obj,
    m: Model,
}

#[derive(Clone)]
struct Spec {
    /// dense / sparse (ArrayValue), raw (SparseArrayValue)
    kind: String,
    iw: u32,
    default: M,
    ops: Vec<Op>,
}
impl Spec {
    fn text(&self) -> String {
        format!(
            "{}|{}|{}|{}",
            self.kind,
            self.iw,
            self.default.text(),
            self.ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(";")
        )
    }
    fn parse(s: &str) -> Spec {
        let p: Vec<&str> = s.split('|').collect();
        Spec {
            kind: p[0].into(),
            iw: p[1].parse().unwrap(),
            default: M::parse(p[2]),
            ops: p[3].split(';').filter(|x| !x.is_empty()).map(Op::parse).collect(),
        }
    }
    fn start(&self) -> State {
        let d = self.default.real();
        let obj = match self.kind.as_str() {
            "dense" => Obj::A(ArrayValue::new_dense(self.iw, &d)),
            "sparse" => Obj::A(ArrayValue::new_sparse(self.iw, BitVecValueRef::from(&d))),
            _ => Obj::S(SparseArrayValue::new(self.iw, &d)),
        };
        State {
            obj,
            m: Model {
                iw: self.iw,
                dw: self.default.w(),
                default: self.default.clone(),
                map: BTreeMap::new(),
                dense: self.kind == "dense",
            },
        }
    }
    fn state(&self) -> Result<State, String> {
        let mut s = self.start();
        for op in &self.ops {
            s.apply(op)?;
        }
        Ok(s)
    }
}

fn run_spec(s: &Spec, obs: u32) -> Result<u64, String> {
    let mut st = s.start();
    let mut h = st.observe(obs).map_err(|e| format!("when created: {e}"))?;
    for (n, op) in s.ops.iter().enumerate() {
        st.apply(op).map_err(|e| format!("step {n} ({}): {e}", op.text()))?;
        h = st.observe(obs).map_err(|e| format!("after step {n} ({}): {e}", op.text()))?;
    }
    Ok(h)
}

/// The operations again and again. With `obs` 0 only the indices that the operations touch are looked at.
fn run_loop(s: &Spec, n: u32, obs: u32) -> Result<u64, String> {
    let mut st = s.start();
    let mut touched: Vec<M> = s.ops.iter().filter_map(|o| if let Op::St(i, _) = o { Some(i.clone()) } else { None }).collect();
    touched.push(M::zero(s.iw));
    let touched: Vec<(M, BitVecValue)> = dedup(touched).into_iter().map(|m| (m.clone(), m.real())).collect();
    let mut h = 0;
    for round in 0..n {
        for op in &s.ops {
            let at = |e: String| format!("round {round} ({}): {e}", op.text());
            st.apply(op).map_err(at)?;
            if obs != 0 {
                h = fnv(h, st.observe(obs).map_err(at)?);
            } else {
                for (m, i) in &touched {
                    let v = with_obj!(&st.obj, x => x.select(i));
                    same(&v, st.m.get(m)).map_err(|e| at(format!("value at index {}: {e}", m.text())))?;
                    h = fnv(h, fp(&v));
                }
            }
        }
    }
    Ok(h)
}

/// Every short pattern of operations, repeated often: nothing depends on how often something happened.
fn loops(jobs: &mut Vec<Job>, q: bool, obs: u32, extra: Vec<Op>) {
    for (kind, iw, dw) in [("dense", 2u32, 1u32), ("dense", 2, 8), ("dense", 2, 33), ("dense", 2, 100), ("sparse", 3, 9), ("sparse", 2, 70), ("sparse", 66, 9), ("raw", 3, 9), ("raw", 70, 70)] {
        let (extra, kind) = (extra.clone(), kind.to_string());
        let fits = move |o: &Op| iw <= 64 || !matches!(o, Op::Dense | Op::Json | Op::JsonValue);
        jobs.push(job(format!("short patterns repeated 300 times: {kind} {iw} -> {dw}"), move |l| {
            let mut ops = stores(iw, dw, 2, 2);
            ops.extend(extra.iter().filter(|o| fits(o)).cloned());
            let mut pats: Vec<Vec<Op>> = ops.iter().map(|o| vec![o.clone()]).collect();
            for a in &ops {
                for b in &ops {
                    if a != b {
                        pats.push(vec![a.clone(), b.clone()]);
                        if matches!(a, Op::St(..)) {
                            for c in ops.iter().filter(|c| *c != a && *c != b) {
                                pats.push(vec![a.clone(), b.clone(), c.clone()]);
                            }
                        }
                    }
                }
            }
            for p in pats {
                let spec = Spec { kind: kind.clone(), iw, default: M::zero(dw), ops: p };
                let n = if q { 300 } else { 1100 };
                l.states += n;
                l.check(|| format!("loop a={} n={n} obs={obs}", spec.text()), || Ok(run_loop(&spec, n as u32, obs)?))?;
            }
            Ok(())
        }));
    }
}
fn long_loops(jobs: &mut Vec<Job>, q: bool, extra: Vec<Op>) {
    for (kind, iw, dw) in [("dense", 2u32, 1u32), ("dense", 2, 8), ("dense", 2, 33), ("dense", 2, 100), ("raw", 3, 9), ("raw", 3, 70), ("sparse", 70, 70)] {
        let extra = extra.clone();
        jobs.push(job(format!("short patterns repeated 66000 times: {kind} {iw} -> {dw}"), move |l| {
            let mut ops = stores(iw, dw, 2, 2);
            ops.extend(extra.iter().cloned());
            for a in &ops {
                for b in ops.iter().filter(|b| *b != a) {
                    let spec = Spec { kind: kind.into(), iw, default: M::zero(dw), ops: vec![a.clone(), b.clone()] };
                    let n = if q { 66_000 } else { 140_000 };
                    l.states += n;
                    l.check(|| format!("loop a={} n={n} obs=0", spec.text()), || Ok(run_loop(&spec, n as u32, 0)?))?;
                }
            }
            Ok(())
        }));
    }
}

fn raw_sparse(o: &Obj) -> SparseArrayValue {
    match o.clone() {
        Obj::A(a) => SparseArrayValue::from(a),
        Obj::S(s) => s,
    }
}

fn rebuild(s: &SparseArrayValue) -> ArrayValue {
    let mut a = ArrayValue::new_sparse(s.index_width(), &s.default());
    for (i, d) in s.non_default_entries() {
        a.store(&i, &d);
    }
    a
}

fn st(o: &mut Obj, i: &M, d: &M) {
    let (i, d) = (i.real(), d.real());
    with_obj!(o, x => x.store(&i, BitVecValueRef::from(&d)))
}

fn scribble(o: &mut Obj, m: &Model) {
    for i in m.probes().into_iter().take(3) {
        let d = m.get(&i).not();
        st(o, &i, &d);
    }
    with_obj!(o, x => x.clear());
    st(o, &M::zero(m.iw), &M::ones(m.dw));
    if let Obj::A(a) = o {
        if m.iw <= 12 {
            a.make_dense();
        }
    }
    st(o, &M::ones(m.iw), &M::one_hot(m.dw, m.dw.saturating_sub(1)));
}

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<T, String> {
    let s = serde_json::to_string(v).map_err(|e| format!("serialising to JSON: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("deserialising from JSON: {e}"))
}
fn json_value<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<T, String> {
    let s = serde_json::to_value(v).map_err(|e| format!("serialising to a JSON value: {e}"))?;
    serde_json::from_value(s).map_err(|e| format!("deserialising from a JSON value: {e}"))
}
fn binary<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<T, String> {
    let s = bincode::serialize(v).map_err(|e| format!("serialising to bincode: {e}"))?;
    bincode::deserialize(&s).map_err(|e| format!("deserialising from bincode: {e}"))
}
fn trip(o: &Obj, op: &Op) -> Result<Obj, String> {
    Ok(match o {
        Obj::A(a) => Obj::A(match op {
            Op::Json => json(a)?,
            Op::JsonValue => json_value(a)?,
            _ => binary(a)?,
        }),
        Obj::S(s) => Obj::S(match op {
            Op::Json => json(s)?,
            Op::JsonValue => json_value(s)?,
            _ => binary(s)?,
        }),
    })
}

impl State {
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::St(i, d) => {
                let (ri, rd) = (i.real(), d.real());
                with_obj!(&mut self.obj, x => x.store(&ri, &rd));
                same(&ri, i).map_err(|e| format!("the index operand changed: {e}"))?;
                same(&rd, d).map_err(|e| format!("the data operand changed: {e}"))?;
                self.m.store(i, d);
            }
            Op::Clear => {
                with_obj!(&mut self.obj, x => x.clear());
                self.m.clear();
            }
            Op::Dense => {
                let mut a = match &self.obj {
                    Obj::A(a) => a.clone(),
                    Obj::S(s) => rebuild(s),
                };
                a.make_dense();
                self.obj = Obj::A(a);
                self.m.dense = true;
            }
            Op::Sparse => {
                self.obj = Obj::S(raw_sparse(&self.obj));
                self.m.dense = false;
            }
            Op::Rebuild => {
                self.obj = Obj::A(rebuild(&raw_sparse(&self.obj)));
                self.m.dense = false;
            }
            Op::CloneMut => {
                let mut c = self.obj.clone();
                scribble(&mut c, &self.m);
            }
            Op::Fork => {
                let c = self.obj.clone();
                scribble(&mut self.obj, &self.m);
                self.obj = c;
            }
            Op::Json | Op::JsonValue | Op::Bincode => {
                let back = trip(&self.obj, op)?;
                if let (Obj::A(a), Obj::A(b)) = (&self.obj, &back) {
                    eq("a round trip is equal to the original", a.is_equal(b), Some(true))?;
                    eq("a round trip keeps the representation", (b.is_dense(), b.is_sparse()), (a.is_dense(), a.is_sparse()))?;
                }
                self.obj = back;
            }
        }
        Ok(())
    }

    fn observe(&self, obs: u32) -> Result<u64, String> {
        let m = &self.m;
        let (iw, dw) = (m.iw, m.dw);
        let mut h = 0;
        with_obj!(&self.obj, x => {
            eq("index width", x.index_width(), iw)?;
            eq("data width", x.data_width(), dw)?;
            eq("words per element", x.words_per_element(), dw.div_ceil(64) as usize)?;
            if iw < 64 {
                eq("number of elements", x.num_elements(), 1usize << iw)?;
            }
        });
        if obs & SELECT != 0 {
            for (n, i) in m.probes().iter().enumerate() {
                let ri = i.real();
                let v = if n % 2 == 0 {
                    with_obj!(&self.obj, x => x.select(&ri))
                } else {
                    with_obj!(&self.obj, x => x.select(BitVecValueRef::from(&ri)))
                };
                same(&v, m.get(i)).map_err(|e| format!("value at index {}: {e}", i.text()))?;
                h = fnv(h, fp(&v));
            }
        }
        if obs & REPR != 0 {
            if let Obj::A(a) = &self.obj {
                eq("is_dense", a.is_dense(), m.dense)?;
                eq("is_sparse", a.is_sparse(), !m.dense)?;
            }
        }
        if obs & ENTRIES != 0 {
            h = fnv(h, entries(&self.obj, m)?);
        }
        Ok(h)
    }
}

/// however the entries are consumed, they are the same ones
fn consume(s: &SparseArrayValue) -> Result<(), String> {
    let list: Vec<(BitVecValue, BitVecValue)> = {
        let (mut it, mut v) = (s.non_default_entries(), vec![]);
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    };
    let n = list.len();
    let same_list = |what: &str, got: Vec<(BitVecValue, BitVecValue)>| {
        if got.len() != list.len() || got.iter().zip(&list).any(|(a, b)| a.0 != b.0 || a.1 != b.1) {
            return Err(format!("the entries differ when consumed by {what}: {got:?}, by next(): {list:?}"));
        }
        Ok(())
    };
    eq("count()", s.non_default_entries().count(), n)?;
    eq("last()", s.non_default_entries().last(), list.last().cloned())?;
    same_list("collect", s.non_default_entries().collect())?;
    same_list("fold", s.non_default_entries().fold(vec![], |mut v, x| { v.push(x); v }))?;
    let mut v = vec![];
    s.non_default_entries().for_each(|x| v.push(x));
    same_list("for_each", v)?;
    let mut it = s.non_default_entries();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        if lo > n - k || hi.is_some_and(|h| h < n - k) {
            return Err(format!("size_hint is {:?} with {} entries left", (lo, hi), n - k));
        }
        it.next();
    }
    let few: Vec<usize> = if n <= 6 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] };
    for k in few {
        let mut it = s.non_default_entries();
        eq("nth()", it.nth(k), list.get(k).cloned())?;
        eq("count() after nth()", it.count(), n.saturating_sub(k + 1))?;
        let mut v: Vec<_> = s.non_default_entries().take(k).collect();
        v.extend(s.non_default_entries().skip(k));
        same_list("take and skip", v)?;
        if k > 0 && n <= 64 {
            let v: Vec<_> = s.non_default_entries().step_by(k).collect();
            eq("step_by()", v, list.iter().step_by(k).cloned().collect())?;
        }
    }
    eq("position()", s.non_default_entries().position(|x| Some(&x) == list.last()), n.checked_sub(1))?;
    Ok(())
}

fn dedup_u64(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v.dedup();
    v
}

/// the entries of (the sparse form of) an array against the model
fn entries(o: &Obj, m: &Model) -> Result<u64, String> {
    let s = raw_sparse(o);
    let d = s.default();
    eq("width of the default", d.width(), m.dw)?;
    let dm = crate::model::model_of(&d);
    same(&d, &dm).map_err(|e| format!("default is not canonical: {e}"))?;
    let mut seen = BTreeMap::new();
    for (i, v) in s.non_default_entries() {
        let (mi, mv) = (crate::model::model_of(&i), crate::model::model_of(&v));
        eq("width of an entry index", i.width(), m.iw)?;
        eq("width of an entry value", v.width(), m.dw)?;
        same(&i, &mi).map_err(|e| format!("entry index is not canonical: {e}"))?;
        same(&v, &mv).map_err(|e| format!("entry value is not canonical: {e}"))?;
        if seen.insert(mi.clone(), mv).is_some() {
            return Err(format!("the entry for index {} is listed twice", mi.text()));
        }
    }
    let exp: BTreeMap<M, M> = if m.iw <= 12 {
        (0..1u64 << m.iw)
            .map(|i| M::of_u64(i, m.iw))
            .map(|i| (i.clone(), m.get(&i).clone()))
            .filter(|x| x.1 != dm)
            .collect()
    } else {
        // there are always indices that were never stored
        eq("default", &dm, &m.default)?;
        m.map.iter().filter(|x| *x.1 != dm).map(|(a, b)| (a.clone(), b.clone())).collect()
    };
    consume(&s)?;
    if seen != exp {
        let show = |x: &BTreeMap<M, M>| x.iter().map(|(a, b)| format!("{}={}", a.text(), b.text())).collect::<Vec<_>>().join(" ");
        return Err(format!("entries are [{}], expected [{}] (default {})", show(&seen), show(&exp), dm.text()));
    }
    Ok(seen.len() as u64 + 1000 * dm.is_zero() as u64)
}

fn dfs(l: &mut Loc, spec: &mut Spec, s: &State, ops: &[Op], obs: u32, depth: usize) -> R {
    for op in ops {
        let mut n = s.clone();
        spec.ops.push(op.clone());
        l.states += 1;
        l.check(
            || format!("arr a={} obs={obs}", spec.text()),
            || {
                n.apply(op)?;
                Ok(n.observe(obs)?)
            },
        )?;
        if depth > 1 {
            dfs(l, spec, &n, ops, obs, depth - 1)?;
        }
        spec.ops.pop();
    }
    Ok(())
}

fn explore(l: &mut Loc, kind: &str, iw: u32, default: &M, ops: &[Op], obs: u32, depth: usize) -> R {
    let mut spec = Spec { kind: kind.into(), iw, default: default.clone(), ops: vec![] };
    l.states += 1;
    let sp = spec.clone();
    l.check(|| format!("arr a={} obs={obs}", sp.text()), || Ok(run_spec(&sp, obs)?))?;
    let s = spec.start();
    dfs(l, &mut spec, &s, ops, obs, depth)
}

/// a few data values: zero, all ones, one, the top bit, a pattern
fn data(dw: u32, n: usize) -> Vec<M> {
    let mut o = vec![M::zero(dw), M::ones(dw), patterns(dw).pop().unwrap(), M::one_hot(dw, dw.saturating_sub(1)), M::of_u64(1, dw)];
    if dw > 64 {
        o.insert(2, M::one_hot(dw, 64));
    }
    let mut o = dedup(o);
    o.truncate(n);
    o
}
fn some_idx(iw: u32, n: usize) -> Vec<M> {
    let mut o = vec![M::zero(iw), M::ones(iw)];
    if iw > 1 {
        o.push(M::of_u64(1, iw));
    }
    if iw > 6 {
        o.push(M::of_u64(64, iw));
    }
    if iw > 64 {
        o.insert(2, M::one_hot(iw, 64));
    }
    let mut o = dedup(o);
    o.truncate(n);
    o
}
fn stores(iw: u32, dw: u32, ni: usize, nd: usize) -> Vec<Op> {
    let mut o = vec![];
    for i in some_idx(iw, ni) {
        for d in data(dw, nd) {
            o.push(Op::St(i.clone(), d));
        }
    }
    o
}

const DWS: [u32; 13] = [0, 1, 2, 7, 8, 9, 32, 63, 64, 65, 128, 129, 200];

// ------------------------------------------------------------------------------------------ sweeps

/// a value for element `k` of an array
fn elem(k: u64, dw: u32, pat: u32) -> M {
    let mut x = k.wrapping_mul(0x9e37_79b9) ^ 0xabc;
    match pat {
        0 => M::of_words(&(0..dw.div_ceil(64)).map(|_| splitmix(&mut x)).collect::<Vec<_>>(), dw),
        1 => M::of_u64(k % 2, dw),
        2 => M::of_words(&[k + 1, 0, k ^ 1, 0], dw),
        _ => {
            if k % 7 == 3 {
                M::one_hot(dw, (k % dw.max(1) as u64) as u32)
            } else {
                M::ones(dw)
            }
        }
    }
}

/// fills every index in a scattered order; all values are compared at the end, the neighbourhood of
/// the changed index after every store; then the representation is changed and everything compared
fn sweep(kind: &str, iw: u32, dw: u32, pat: u32, obs: u32) -> Result<u64, String> {
    let spec = Spec { kind: kind.into(), iw, default: elem(99, dw, pat), ops: vec![] };
    let mut s = spec.start();
    let n = 1u64 << iw;
    let near = |s: &State, i: u64| -> Result<(), String> {
        for k in [i, (i + 1) % n, (i + n - 1) % n, i ^ (n / 2), (i + 8) % n, (i + 64) % n] {
            let mi = M::of_u64(k, iw);
            let v = with_obj!(&s.obj, x => x.select(&mi.real()));
            same(&v, s.m.get(&mi)).map_err(|e| format!("value at index {k} after storing at {i}: {e}"))?;
        }
        Ok(())
    };
    let all = |s: &State, when: &str| -> Result<(), String> {
        for k in 0..n {
            let mi = M::of_u64(k, iw);
            let v = with_obj!(&s.obj, x => x.select(&mi.real()));
            same(&v, s.m.get(&mi)).map_err(|e| format!("value at index {k} {when}: {e}"))?;
        }
        s.observe(obs & !SELECT).map_err(|e| format!("{when}: {e}"))?;
        Ok(())
    };
    all(&s, "when created")?;
    for k in 0..n {
        let i = (k.wrapping_mul(0x9e37_79b1)) & (n - 1);
        s.apply(&Op::St(M::of_u64(i, iw), elem(i, dw, pat)))?;
        near(&s, i)?;
    }
    all(&s, "after filling")?;
    for op in [Op::Sparse, Op::Rebuild, Op::Dense, Op::Sparse, Op::Dense] {
        s.apply(&op)?;
        all(&s, &format!("after {}", op.text()))?;
    }
    for k in (0..n).rev().step_by(3) {
        s.apply(&Op::St(M::of_u64(k, iw), elem(k + 1, dw, pat)))?;
        near(&s, k)?;
    }
    s.apply(&Op::Sparse)?;
    all(&s, "after overwriting and sparse")?;
    s.apply(&Op::Clear)?;
    all(&s, "after clear")?;
    Ok(n)
}

/// many different indices of a wide index type: sparse bits, dense bits, equal words in other places
fn wide_indices(iw: u32, count: usize) -> Vec<M> {
    let mut o = edges_sparse(iw);
    let mut k = 1u64;
    while o.len() < count {
        let words: Vec<u64> = (0..iw.div_ceil(64) as u64)
            .map(|j| match k % 5 {
                0 => k / 5,
                1 if j == 0 => k / 5,
                2 if j + 1 == iw.div_ceil(64) as u64 => k / 5,
                3 => (k / 5).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17 * j as u32),
                4 if j == k % 3 => (k / 5) << 20,
                _ => 0,
            })
            .collect();
        o.push(M::of_words(&words, iw));
        k += 1;
    }
    dedup(o)
}

/// a sparse array with many entries
fn wide_sweep(kind: &str, iw: u32, dw: u32, pat: u32, count: usize, obs: u32) -> Result<u64, String> {
    let spec = Spec { kind: kind.into(), iw, default: elem(99, dw, pat), ops: vec![] };
    let mut s = spec.start();
    let ix = wide_indices(iw, count);
    let val = |s: &State, i: &M| with_obj!(&s.obj, x => x.select(&i.real()));
    let all = |s: &State, when: &str| -> Result<(), String> {
        for i in &ix {
            same(&val(s, i), s.m.get(i)).map_err(|e| format!("value at index {} {when}: {e}", i.text()))?;
        }
        s.observe(obs & !SELECT).map_err(|e| format!("{when}: {e}"))?;
        Ok(())
    };
    for (n, i) in ix.iter().enumerate() {
        same(&val(&s, i), s.m.get(i)).map_err(|e| format!("value at index {} before it is stored to: {e}", i.text()))?;
        s.apply(&Op::St(i.clone(), elem(n as u64, dw, pat)))?;
        for j in [n, n / 2, 0] {
            same(&val(&s, &ix[j]), s.m.get(&ix[j])).map_err(|e| format!("value at index {} after storing at {}: {e}", ix[j].text(), i.text()))?;
        }
    }
    all(&s, "after filling")?;
    for op in [Op::Fork, Op::Rebuild, Op::Bincode, Op::CloneMut, Op::Sparse] {
        s.apply(&op)?;
        all(&s, &format!("after {}", op.text()))?;
    }
    let default = spec.default.clone();
    for (n, i) in ix.iter().enumerate().rev() {
        match n % 4 {
            0 => s.apply(&Op::St(i.clone(), default.clone()))?,
            1 => s.apply(&Op::St(i.clone(), elem(n as u64 + 1, dw, pat)))?,
            _ => continue,
        };
        same(&val(&s, i), s.m.get(i)).map_err(|e| format!("value at index {} after overwriting: {e}", i.text()))?;
    }
    all(&s, "after overwriting")?;
    s.apply(&Op::Clear)?;
    all(&s, "after clear")?;
    s.apply(&Op::St(ix[ix.len() / 2].clone(), elem(5, dw, pat)))?;
    all(&s, "after one store after clear")?;
    Ok(ix.len() as u64)
}

/// a sparse array that grows to `count` entries and shrinks again, twice, looked at after every step
fn drain(kind: &str, iw: u32, dw: u32, pat: u32, count: usize, order: u32, obs: u32) -> Result<u64, String> {
    let spec = Spec { kind: kind.into(), iw, default: elem(99, dw, pat), ops: vec![] };
    let mut s = spec.start();
    let all = wide_indices(iw, 3 * count);
    let ix: Vec<M> = (0..count.min(all.len())).map(|k| all[k * all.len() / count.max(1).min(all.len())].clone()).collect();
    let n = ix.len();
    let at = |k: usize| match order {
        0 => k,
        1 => n - 1 - k,
        // from the middle outwards
        2 if k % 2 == 0 => (n - 1) / 2 - k / 2,
        2 => (n - 1) / 2 + 1 + k / 2,
        // every second one first
        _ if 2 * k < n => 2 * k,
        _ => 2 * (k - n.div_ceil(2)) + 1,
    };
    let look = |s: &mut State, when: &str, k: usize| -> Result<(), String> {
        if obs & SELECT != 0 {
            for i in &ix {
                let v = with_obj!(&s.obj, x => x.select(&i.real()));
                same(&v, s.m.get(i)).map_err(|e| format!("value at index {} {when}: {e}", i.text()))?;
            }
        }
        if obs & EQUAL != 0 {
            // the same contents without the history, and a small change of them
            let ops = s.m.map.iter().map(|(i, d)| Op::St(i.clone(), d.clone())).collect();
            let mut fresh = Spec { kind: spec.kind.clone(), iw, default: spec.default.clone(), ops }.state()?;
            equal_pair(s, &mut fresh).map_err(|e| format!("{when}: {e}"))?;
            // the same indices, but other data at one of them; as many entries, but at another index
            let kept: Vec<(M, M)> = s.m.map.iter().map(|(i, d)| (i.clone(), d.clone())).collect();
            for (i, d) in kept.iter().take(1).chain(kept.iter().skip(1).last()) {
                let other = if d.w() == 1 { d.clone() } else { d.add(&M::of_u64(1, d.w())) };
                if other != *d && other != spec.default {
                    fresh.apply(&Op::St(i.clone(), other))?;
                    equal_pair(s, &mut fresh).map_err(|e| format!("{when}, other data at {}: {e}", i.text()))?;
                }
                if let Some(j) = ix.iter().find(|j| !s.m.map.contains_key(*j)) {
                    fresh.apply(&Op::St(i.clone(), spec.default.clone()))?;
                    fresh.apply(&Op::St(j.clone(), d.clone()))?;
                    equal_pair(s, &mut fresh).map_err(|e| format!("{when}, {} in place of {}: {e}", j.text(), i.text()))?;
                    fresh.apply(&Op::St(j.clone(), spec.default.clone()))?;
                }
                fresh.apply(&Op::St(i.clone(), d.clone()))?;
            }
            fresh.apply(&Op::St(ix[k].clone(), elem(k as u64 + 5, dw, pat)))?;
            equal_pair(s, &mut fresh).map_err(|e| format!("{when}, one more store: {e}"))?;
        }
        s.observe(obs & !SELECT).map_err(|e| format!("{when}: {e}"))?;
        Ok(())
    };
    let mut steps = 0;
    for round in 0..2u64 {
        for (k, i) in ix.iter().enumerate() {
            s.apply(&Op::St(i.clone(), elem(k as u64 + round, dw, pat)))?;
        }
        look(&mut s, &format!("after filling, round {round}"), 0)?;
        for k in 0..n {
            s.apply(&Op::St(ix[at(k)].clone(), spec.default.clone()))?;
            if obs & REPR != 0 && iw <= 10 && kind == "sparse" && (k % 8 == 7 || n - k < 8) {
                for op in [Op::Dense, Op::Sparse] {
                    s.apply(&op)?;
                    look(&mut s, &format!("after {}, {} entries set back", op.text(), k + 1), 0)?;
                }
            }
            look(&mut s, &format!("after setting {} entries back, round {round}", k + 1), at((k + n / 2) % n))?;
            steps += n as u64;
        }
    }
    Ok(steps)
}

fn drains(jobs: &mut Vec<Job>, q: bool, obs: u32) {
    for iw in [7u32, 8, 10, 16, 32, 63, 64, 65, 100, 128, 130] {
        if obs & REPR != 0 && iw > 10 {
            continue;
        }
        jobs.push(job(format!("sparse arrays that grow and shrink, {iw} index bits"), move |l| {
            let counts: &[usize] = if q { &[2, 3, 4, 7, 9, 15, 29, 57, 120] } else { &[2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 28, 29, 56, 57, 70, 112, 120, 230, 460] };
            for dw in [1u32, 8, 64, 65, 130] {
                for &count in counts {
                    for order in 0..4 {
                        for kind in ["sparse", "raw"] {
                            let pat = 2 * (order % 2);
                            l.check(
                                || format!("drain kind={kind} iw={iw} dw={dw} pat={pat} count={count} order={order} obs={obs}"),
                                || Ok(drain(kind, iw, dw, pat, count, order, obs)?),
                            )?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
}

fn wide_sweeps(jobs: &mut Vec<Job>, q: bool, obs: u32) {
    drains(jobs, q, obs & !REPR);
    for iw in [13u32, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 257, 320] {
        jobs.push(job(format!("sparse arrays with many entries, {iw} index bits"), move |l| {
            for dw in [0u32, 1, 2, 8, 9, 63, 64, 65, 128, 129, 193] {
                for pat in 0..4 {
                    for kind in ["sparse", "raw"] {
                        let count = if q { 1200 } else { 5000 };
                        l.states += count as u64;
                        l.check(
                            || format!("widesweep kind={kind} iw={iw} dw={dw} pat={pat} count={count} obs={obs}"),
                            || Ok(wide_sweep(kind, iw, dw, pat, count, obs)?),
                        )?;
                    }
                }
            }
            Ok(())
        }));
    }
}

/// slices become dense arrays, padded with zeros
fn slice(kind: &str, n: usize, pat: u32) -> Result<u64, String> {
    let (dw, arr) = match kind {
        "bool" => {
            let v: Vec<bool> = (0..n).map(|k| elem(k as u64, 1, pat).bit(0)).collect();
            (1, ArrayValue::from(v.as_slice()))
        }
        "u8" => {
            let v: Vec<u8> = (0..n).map(|k| elem(k as u64, 8, pat).words()[0] as u8).collect();
            (8, ArrayValue::from(v.as_slice()))
        }
        _ => {
            let v: Vec<u64> = (0..n).map(|k| elem(k as u64, 64, pat).words()[0]).collect();
            (64, ArrayValue::from(v.as_slice()))
        }
    };
    let mut iw = 0;
    while (1usize << iw) < n {
        iw += 1;
    }
    eq("index width", arr.index_width(), iw)?;
    eq("data width", arr.data_width(), dw)?;
    eq("number of elements", arr.num_elements(), 1usize << iw)?;
    eq("is_dense", (arr.is_dense(), arr.is_sparse()), (true, false))?;
    let val = |k: usize| if k < n { elem(k as u64, dw, pat) } else { M::zero(dw) };
    let total = 1usize << iw;
    let all = |o: &Obj, when: &str| -> Result<(), String> {
        for k in 0..total {
            let v = with_obj!(o, x => x.select(&M::of_u64(k as u64, iw).real()));
            same(&v, &val(k)).map_err(|e| format!("element {k} {when}: {e}"))?;
        }
        Ok(())
    };
    let a = Obj::A(arr.clone());
    all(&a, "of the array")?;
    let s = raw_sparse(&a);
    all(&Obj::S(s.clone()), "of the sparse form")?;
    if n <= 300 {
        let m = Model {
            iw,
            dw,
            default: M::zero(dw),
            map: (0..total).map(|k| (M::of_u64(k as u64, iw), val(k))).collect(),
            dense: true,
        };
        entries(&a, &m)?;
    }
    let mut r = rebuild(&s);
    all(&Obj::A(r.clone()), "of the sparse array")?;
    eq("sparse and dense are equal", (r.is_equal(&arr), arr.is_equal(&r)), (Some(true), Some(true)))?;
    eq("is_sparse", (r.is_dense(), r.is_sparse()), (false, true))?;
    r.make_dense();
    eq("is_dense", (r.is_dense(), r.is_sparse()), (true, false))?;
    all(&Obj::A(r.clone()), "after making it dense again")?;
    eq("equal to the original", r.is_equal(&arr), Some(true))?;
    Ok(total as u64)
}

/// more different values than the search for a default is willing to count
fn bulk(kind: &str, iw: u32, dw: u32) -> Result<u64, String> {
    let n = 1u64 << iw;
    // the most frequent value appears only after all the others, or first, or not at all
    let val = |k: u64| -> u64 {
        match kind {
            "distinct" => k + 1,
            "late" => {
                if k < n / 2 + n / 4 {
                    k + 1
                } else {
                    0
                }
            }
            _ => {
                if k < n / 4 {
                    7
                } else {
                    k + 10
                }
            }
        }
    };
    let mk = |k: u64| M::of_words(&[val(k), (val(k) >> 3) & 1], dw);
    let arr = if dw == 64 {
        let v: Vec<u64> = (0..n).map(val).collect();
        ArrayValue::from(v.as_slice())
    } else {
        let mut a = ArrayValue::new_dense(iw, &BitVecValue::zero(dw));
        for k in 0..n {
            a.store(&M::of_u64(k, iw).real(), &mk(k).real());
        }
        a
    };
    let s = SparseArrayValue::from(arr.clone());
    for k in 0..n {
        let i = BitVecValue::from_u64(k, iw);
        same(&s.select(&i), &mk(k)).map_err(|e| format!("element {k} of the sparse form: {e}"))?;
        same(&arr.select(&i), &mk(k)).map_err(|e| format!("element {k}: {e}"))?;
    }
    let d = crate::model::model_of(&s.default());
    let mut seen = vec![false; n as usize];
    for (i, v) in s.non_default_entries() {
        let k = i.to_u64().ok_or("entry index out of range")?;
        if k >= n || std::mem::replace(&mut seen[k as usize], true) {
            return Err(format!("entry {k} is listed twice or out of range"));
        }
        same(&v, &mk(k)).map_err(|e| format!("entry {k}: {e}"))?;
        if mk(k) == d {
            return Err(format!("entry {k} carries the default"));
        }
    }
    for k in 0..n {
        if !seen[k as usize] && mk(k) != d {
            return Err(format!("entry {k} is missing"));
        }
    }
    let mut r = rebuild(&s);
    r.make_dense();
    eq("equal to the original", r.is_equal(&arr), Some(true))?;
    Ok(d.words()[0])
}

const BIT32: &str = "C18:dense-bit-32";

/// very large dense arrays of single bits
fn bit_big(iw: u32) -> Result<u64, Fail> {
    let zero = BitVecValue::fals();
    let one = BitVecValue::tru();
    let idx: Vec<u64> = vec![0, 1, 63, 64, (1 << (iw - 1)) - 1, 1 << (iw - 1), (1 << iw) - 2, (1 << iw) - 1];
    let go = || -> Result<u64, String> {
        let mut a = ArrayValue::new_dense(iw, &zero);
        eq("index width", a.index_width(), iw)?;
        eq("number of elements", a.num_elements(), 1usize << iw)?;
        for (n, i) in idx.iter().enumerate() {
            a.store(&M::of_u64(*i, iw).real(), &one);
            for (k, j) in idx.iter().enumerate() {
                let v = a.select(&M::of_u64(*j, iw).real());
                same(&v, &M::of_u64((k <= n) as u64, 1)).map_err(|e| format!("element {j}: {e}"))?;
            }
        }
        a.store(&M::of_u64(idx[7], iw).real(), &zero);
        same(&a.select(&M::of_u64(idx[7], iw).real()), &M::zero(1))?;
        same(&a.select(&M::of_u64(idx[6], iw).real()), &M::ones(1))?;
        a.clear();
        for j in &idx {
            same(&a.select(&M::of_u64(*j, iw).real()), &M::zero(1))?;
        }
        Ok(idx.len() as u64)
    };
    match catch(go) {
        Ok(r) => Ok(r?),
        Err(e) if iw == 32 && e.contains("index out of bounds") => {
            Err(Fail::K(BIT32, format!("a dense array of single bits with 32 index bits panics on its first access: {e}")))
        }
        Err(e) => Err(Fail::V(format!("panicked: {e}"))),
    }
}

/// the indices next to the ends, the middle and every power of two of a large dense array
fn edge_indices(iw: u32) -> Vec<u64> {
    let n = 1u64 << iw;
    let mut v = vec![0, 1, 2, n - 3, n - 2, n - 1, n / 3, n / 2 + n / 4];
    for k in 5..iw {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, n - (1 << k), n - (1 << k) - 1]);
    }
    v.sort();
    v.dedup();
    v
}
fn edge_elem(k: u64, dw: u32) -> M {
    let e = elem(k, dw, 0);
    if e.is_zero() {
        M::ones(dw)
    } else {
        e
    }
}

/// stores at the edge indices of a large array, read back at all of them and next to them
fn edge_store(kind: &str, iw: u32, dw: u32) -> Result<u64, String> {
    let idx = edge_indices(iw);
    let real = |k: u64| BitVecValue::from_u64(k, iw);
    let d = M::zero(dw);
    let mut a = if kind == "dense" { ArrayValue::new_dense(iw, &d.real()) } else { ArrayValue::new_sparse(iw, &d.real()) };
    eq("number of elements", a.num_elements(), 1usize << iw)?;
    let near: Vec<u64> = idx.iter().flat_map(|k| [k.wrapping_sub(1), *k, k + 1]).filter(|k| *k < 1 << iw).collect();
    let all = |a: &ArrayValue, upto: usize, when: &str| -> Result<(), String> {
        for k in &near {
            let exp = match idx.binary_search(k) {
                Ok(p) if p < upto => edge_elem(*k, dw),
                _ => d.clone(),
            };
            same(&a.select(&real(*k)), &exp).map_err(|e| format!("element {k} {when}: {e}"))?;
        }
        Ok(())
    };
    for (n, k) in idx.iter().enumerate() {
        a.store(&real(*k), &edge_elem(*k, dw).real());
        if n % 8 == 0 || n + 1 == idx.len() {
            all(&a, n + 1, "after the stores")?;
        }
    }
    let b = a.clone();
    all(&b, idx.len(), "of the copy")?;
    a.clear();
    all(&a, 0, "after clear")?;
    all(&b, idx.len(), "of the copy after clear")?;
    Ok(idx.len() as u64)
}

/// a large array that is uniform but for its edge indices, through both representations
fn edge_convert(iw: u32, dw: u32, zero: bool) -> Result<u64, String> {
    let idx = edge_indices(iw);
    let real = |k: u64| BitVecValue::from_u64(k, iw);
    let d = if zero { M::zero(dw) } else { M::of_words(&[0x5aa5_c33c_0ff0_9669; 5], dw) };
    let val = |k: u64| -> M {
        let e = elem(k, dw, 0);
        if e == d {
            d.not()
        } else {
            e
        }
    };
    let mut a = ArrayValue::new_dense(iw, &d.real());
    for k in &idx {
        a.store(&real(*k), &val(*k).real());
    }
    let before = a.clone();
    let look = |a: &ArrayValue, when: &str| -> Result<(), String> {
        for k in idx.iter().flat_map(|k| [k.wrapping_sub(1), *k, k + 1]).filter(|k| *k < 1 << iw) {
            let exp = if idx.binary_search(&k).is_ok() { val(k) } else { d.clone() };
            same(&a.select(&real(k)), &exp).map_err(|e| format!("element {k} {when}: {e}"))?;
        }
        Ok(())
    };
    look(&a, "of the dense array")?;
    let s = SparseArrayValue::from(a.clone());
    // which value becomes the default is free
    let def = crate::model::model_of(&s.default());
    let mut listed = std::collections::HashSet::new();
    for (i, v) in s.non_default_entries() {
        let k = i.to_u64().ok_or("entry index out of range")?;
        let exp = if idx.binary_search(&k).is_ok() { val(k) } else { d.clone() };
        same(&v, &exp).map_err(|e| format!("entry {k}: {e}"))?;
        if k >> iw != 0 || !listed.insert(k) || exp == def {
            return Err(format!("entry {k} is out of range, listed twice or equal to the default"));
        }
    }
    let hidden = idx.iter().filter(|k| val(**k) == def).count() as u64 + if d == def { (1 << iw) - idx.len() as u64 } else { 0 };
    eq("number of entries that are not the default", listed.len() as u64, (1 << iw) - hidden)?;
    a = rebuild(&s);
    eq("is_sparse", a.is_sparse(), true)?;
    look(&a, "of the sparse array")?;
    a.make_dense();
    eq("is_dense", a.is_dense(), true)?;
    look(&a, "of the array made dense again")?;
    eq("equal to the original", a.is_equal(&before), Some(true))?;
    Ok(idx.len() as u64)
}

/// large dense arrays that differ in nothing or in one bit of one element
fn edge_equal(iw: u32, dw: u32) -> Result<u64, String> {
    let idx = edge_indices(iw);
    let real = |k: u64| BitVecValue::from_u64(k, iw);
    let mut a = ArrayValue::new_dense(iw, &M::zero(dw).real());
    for k in &idx {
        a.store(&real(*k), &edge_elem(*k, dw).real());
    }
    let mut b = a.clone();
    for (n, k) in idx.iter().enumerate() {
        let old = edge_elem(*k, dw);
        let bit = [0, dw - 1, dw / 2][n % 3];
        b.store(&real(*k), &old.with_bit(bit, !old.bit(bit)).real());
        eq("is_equal after a change of one bit", a.is_equal(&b), Some(false)).map_err(|e| format!("element {k}: {e}"))?;
        eq("is_equal, the other way round", b.is_equal(&a), Some(false)).map_err(|e| format!("element {k}: {e}"))?;
        b.store(&real(*k), &old.real());
        eq("is_equal after it was undone", a.is_equal(&b), Some(true)).map_err(|e| format!("element {k}: {e}"))?;
    }
    Ok(idx.len() as u64)
}

// ------------------------------------------------------------------------------------------ C18

/// the small operation-sequence spaces: (kind, iw, dw, default)
fn small_spaces(dws: &[u32], iws: &[u32]) -> Vec<(&'static str, u32, u32, M)> {
    let mut o = vec![];
    for iw in iws {
        for dw in dws {
            for kind in ["sparse", "dense", "raw"] {
                let mut ds = data(*dw, 3);
                if kind == "raw" {
                    ds.truncate(2);
                }
                for d in ds {
                    o.push((kind, *iw, *dw, d));
                }
            }
        }
    }
    o
}

fn sequences(jobs: &mut Vec<Job>, spaces: Vec<(&'static str, u32, u32, M)>, obs: u32, depth: usize, ni: usize, nd: usize, extra: Vec<Op>) {
    for (kind, iw, dw, d) in spaces {
        let extra = extra.clone();
        jobs.push(job(format!("operation sequences up to depth {depth}: {kind} {iw} -> {dw}, default {}", d.text()), move |l| {
            let mut ops = stores(iw, dw, ni, nd);
            ops.extend(extra.iter().filter(|o| iw <= 12 || **o != Op::Dense).filter(|o| iw <= 64 || (**o != Op::Json && **o != Op::JsonValue)).cloned());
            explore(l, kind, iw, &d, &ops, obs, depth)
        }));
    }
}

fn sparse_only(iws: &[u32], dws: &[u32]) -> Vec<(&'static str, u32, u32, M)> {
    let mut o = vec![];
    for iw in iws {
        for dw in dws {
            for kind in ["sparse", "raw"] {
                for d in data(*dw, 2) {
                    o.push((kind, *iw, *dw, d));
                }
            }
        }
    }
    o
}

/// an element that differs from the default (and from every other element) in one bit only
fn one_bit(jobs: &mut Vec<Job>, q: bool, obs: u32, extra: Vec<Op>) {
    for dw in (0..=if q { 70 } else { 140 }).chain([127, 128, 129, 130, 191, 192, 193, 256, 257].into_iter().filter(move |w| q || *w > 140)) {
        let extra = extra.clone();
        jobs.push(job(format!("elements that differ in one bit, {dw} data bits"), move |l| {
            for base in dedup(vec![M::zero(dw), M::ones(dw), patterns(dw).pop().unwrap()]) {
                for i in 0..dw {
                    let x = base.with_bit(i, !base.bit(i));
                    for (kind, iw) in [("dense", 2u32), ("sparse", 2), ("sparse", 65)] {
                        let at = M::ones(iw);
                        let mut ops = vec![Op::St(at.clone(), x.clone())];
                        // JSON has no maps whose keys are not strings
                        ops.extend(extra.iter().filter(|o| iw == 2 || !matches!(o, Op::Dense | Op::Json | Op::JsonValue)).cloned());
                        ops.push(Op::St(at.clone(), base.clone()));
                        ops.push(Op::St(at.clone(), x.clone()));
                        ops.push(Op::St(M::zero(iw), x.clone()));
                        ops.push(Op::St(at.clone(), base.clone()));
                        let spec = Spec { kind: kind.into(), iw, default: base.clone(), ops };
                        l.states += 1;
                        l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
}

/// elements, default values and indices from the alphabet of word shapes
fn shaped(jobs: &mut Vec<Job>, q: bool, obs: u32, extra: Vec<Op>) {
    // JSON has no maps whose keys are not strings, and there is no dense array with wide indices
    let for_iw = |extra: &Vec<Op>, iw: u32| -> Vec<Op> { extra.iter().filter(|o| iw == 2 || !matches!(o, Op::Dense | Op::Json | Op::JsonValue)).cloned().collect() };
    for dw in [9u32, 16, 24, 31, 32, 33, 40, 48, 56, 63, 64, 65, 70, 96, 100, 127, 128, 129, 160, 192, 200, 256, 320, 450, 1000, 4097, 8192, 16385, 65537] {
        let extra = extra.clone();
        jobs.push(job(format!("word shapes as elements, {dw} data bits"), move |l| {
            let mut xs = shapes(dw);
            if dw > 200 && q {
                xs = xs.into_iter().step_by(if dw > 8192 { 41 } else if dw > 1000 { 11 } else { 3 }).collect();
            } else if dw > 1000 {
                xs = xs.into_iter().step_by(7).collect();
            }
            for (k, x) in xs.iter().enumerate() {
                for base in dedup(vec![M::zero(dw), M::ones(dw), xs[(k + 1) % xs.len()].clone(), x.clone()]) {
                    for (kind, iw) in [("dense", 2u32), ("sparse", 2), ("sparse", 70)] {
                        let at = M::ones(iw);
                        let mut ops = vec![Op::St(at.clone(), x.clone())];
                        ops.extend(for_iw(&extra, iw));
                        ops.push(Op::St(M::zero(iw), x.clone()));
                        ops.push(Op::St(at.clone(), base.clone()));
                        ops.push(Op::St(at.clone(), x.not()));
                        let spec = Spec { kind: kind.into(), iw, default: base.clone(), ops };
                        l.states += 1;
                        l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    for iw in [13u32, 17, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 129, 192, 200, 256, 320, 450, 1000, 4097, 8192, 16385, 65537] {
        let extra = extra.clone();
        jobs.push(job(format!("word shapes as indices, {iw} index bits"), move |l| {
            let mut xs = shapes(iw);
            if iw > 200 && q {
                xs = xs.into_iter().step_by(if iw > 8192 { 41 } else if iw > 1000 { 11 } else { 3 }).collect();
            } else if iw > 1000 {
                xs = xs.into_iter().step_by(7).collect();
            }
            if iw > 65 {
                // indices that fit a word, half a word, two words
                xs.extend([1u32, 8, 16, 31, 32, 40, 63, 64, 65, 100].into_iter().filter(|i| *i < iw).map(|i| M::one_hot(iw, i).with_bit(0, true)));
                xs = dedup(xs);
            }
            for (k, i) in xs.iter().enumerate() {
                for dw in [1u32, 8, 65] {
                    let (x, y) = (M::ones(dw), M::of_u64(1, dw));
                    let mut ops = vec![Op::St(i.clone(), x.clone())];
                    ops.extend(for_iw(&extra, iw));
                    ops.push(Op::St(xs[(k + 1) % xs.len()].clone(), y.clone()));
                    ops.push(Op::St(i.not(), y.clone()));
                    ops.push(Op::St(i.with_bit(iw / 2, !i.bit(iw / 2)), x.clone()));
                    ops.push(Op::St(i.clone(), M::zero(dw)));
                    let spec = Spec { kind: "sparse".into(), iw, default: M::zero(dw), ops };
                    l.states += 1;
                    l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
                }
            }
            Ok(())
        }));
    }
}

pub fn c18(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    let extra = vec![Op::Clear, Op::Dense, Op::Sparse, Op::CloneMut, Op::Fork];
    sequences(&mut jobs, small_spaces(&DWS, &[0, 1, 2]), SELECT, if q { 3 } else { 4 }, 3, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&[1, 8, 64, 65], &[1, 2]), SELECT, if q { 4 } else { 5 }, 2, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&DWS, &[3, 4]), SELECT, if q { 2 } else { 3 }, 4, 5, extra.clone());
    sequences(&mut jobs, small_spaces(&DWS, &[6, 7, 8, 9]), SELECT, if q { 2 } else { 3 }, 4, 3, extra.clone());
    sequences(&mut jobs, sparse_only(&[17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 192, 200], &[1, 2, 8, 9, 63, 64, 65, 128, 129]), SELECT, if q { 3 } else { 4 }, 4, 3, vec![Op::Clear, Op::Sparse, Op::Rebuild, Op::CloneMut, Op::Fork]);
    // every index, every data width
    for iw in 0..=if q { 8 } else { 10 } {
        for kind in ["dense", "sparse"] {
            jobs.push(job(format!("every index of {iw} bits, all data widths, {kind}"), move |l| {
                for dw in (0..=70).chain([127, 128, 129, 191, 192, 193, 256]) {
                    for pat in if q && iw > 6 { 0..1 } else { 0..4 } {
                        l.states += 1 << iw;
                        l.check(|| format!("sweep kind={kind} iw={iw} dw={dw} pat={pat} obs=0"), || Ok(sweep(kind, iw, dw, pat, 0)?))?;
                    }
                }
                Ok(())
            }));
        }
    }
    for iw in [12u32, 16, 17, 18] {
        for dw in [1u32, 8, 64, 65] {
            jobs.push(job(format!("every index of {iw} bits, {dw} data bits"), move |l| {
                if q && iw > 16 {
                    return Ok(());
                }
                for kind in ["dense", "sparse"] {
                    l.states += 1 << iw;
                    l.check(|| format!("sweep kind={kind} iw={iw} dw={dw} pat=0 obs=0"), || Ok(sweep(kind, iw, dw, 0, 0)?))?;
                }
                Ok(())
            }));
        }
    }
    // index positions: all pairs of edge indices do not interfere
    for iw in (5..=if q { 70 } else { 140 }).chain([255, 256, 257]) {
        jobs.push(job(format!("pairs of edge indices of {iw} bits"), move |l| {
            for dw in [1u32, 64, 65] {
                let (one, pat) = (M::ones(dw), patterns(dw).pop().unwrap());
                let mut ix = edges_sparse(iw);
                ix.truncate(if q { 24 } else { 60 });
                for i in &ix {
                    for j in &ix {
                        let spec = Spec {
                            kind: "sparse".into(),
                            iw,
                            default: M::zero(dw),
                            ops: vec![Op::St(i.clone(), one.clone()), Op::St(j.clone(), pat.clone()), Op::St(i.clone(), M::zero(dw))],
                        };
                        l.states += 1;
                        l.check(|| format!("arr a={} obs={SELECT}", spec.text()), || Ok(run_spec(&spec, SELECT)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    wide_sweeps(&mut jobs, q, SELECT);
    one_bit(&mut jobs, q, SELECT, vec![Op::Fork]);
    shaped(&mut jobs, q, SELECT, vec![Op::Fork, Op::Sparse]);
    loops(&mut jobs, q, SELECT, vec![Op::Clear, Op::CloneMut, Op::Fork]);
    long_loops(&mut jobs, q, vec![Op::Clear]);
    let top = move |dw: u32| match (dw, q) {
        (1, true) => 27,
        (1, false) => 29,
        (2..=8, true) => 26,
        (2..=8, false) => 28,
        (9..=64, true) => 25,
        (9..=64, false) => 27,
        (_, true) => 22,
        _ => 25,
    };
    for dw in [1u32, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 129, 192] {
        jobs.push(job(format!("edge indices of large arrays of {dw} data bits"), move |l| {
            for iw in 10..=top(dw) {
                l.states += 1;
                l.check(|| format!("edgestore kind=dense iw={iw} dw={dw}"), || Ok(edge_store("dense", iw, dw)?))?;
            }
            for iw in 10..=40 {
                l.states += 1;
                l.check(|| format!("edgestore kind=sparse iw={iw} dw={dw}"), || Ok(edge_store("sparse", iw, dw)?))?;
            }
            Ok(())
        }));
    }
    jobs.push(job("dense arrays of single bits with up to 32 index bits", move |l| {
        for iw in [20u32, 26, 29, 30, 31, 32] {
            l.states += 1;
            l.check(|| format!("bitbig iw={iw}"), || bit_big(iw))?;
        }
        Ok(())
    }));
    jobs
}

// ------------------------------------------------------------------------------------------ C19

pub fn c19(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    let obs = SELECT | REPR;
    let extra = vec![Op::Dense, Op::Sparse, Op::Rebuild, Op::Clear];
    sequences(&mut jobs, small_spaces(&DWS, &[0, 1, 2]), obs, if q { 3 } else { 4 }, 3, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&[1, 8, 64, 65], &[1, 2]), obs, if q { 4 } else { 5 }, 2, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&DWS, &[3, 6, 7]), obs, if q { 2 } else { 3 }, 4, 4, extra.clone());
    one_bit(&mut jobs, q, obs, vec![Op::Sparse, Op::Dense, Op::Rebuild, Op::Dense]);
    shaped(&mut jobs, q, obs, vec![Op::Sparse, Op::Dense, Op::Rebuild, Op::Dense]);
    loops(&mut jobs, q, obs, vec![Op::Dense, Op::Sparse, Op::Rebuild, Op::Clear]);
    for kind in ["bool", "u8", "u64"] {
        for chunk in (0..=300usize).collect::<Vec<_>>().chunks(50) {
            let chunk = chunk.to_vec();
            jobs.push(job(format!("{kind} slices of {} to {} elements", chunk[0], chunk[chunk.len() - 1]), move |l| {
                for n in chunk.iter().copied() {
                    for pat in 0..4 {
                        l.states += 1;
                        l.check(|| format!("slice kind={kind} n={n} pat={pat}"), || Ok(slice(kind, n, pat)?))?;
                    }
                }
                Ok(())
            }));
        }
        for n in [511usize, 512, 513, 1000, 4095, 4096, 4097, 65_535, 65_536, 65_537, 131_071, 131_073, (1 << 18) + 1].into_iter().chain((!q).then_some((1 << 20) + 1)) {
            jobs.push(job(format!("a {kind} slice of {n} elements"), move |l| {
                for pat in 0..4 {
                    l.states += 1;
                    l.check(|| format!("slice kind={kind} n={n} pat={pat}"), || Ok(slice(kind, n, pat)?))?;
                }
                Ok(())
            }));
        }
    }
    // every byte value as the most frequent and as a rare one
    jobs.push(job("every value of up to 8 bits as default and as entry", move |l| {
        for dw in 0..=8u32 {
            let n = 1u64 << dw;
            for a in 0..n {
                for b in [0, 1, n / 2, n.saturating_sub(2), n - 1, (a + 1) % n] {
                    let b = b.min(n - 1);
                    for kind in ["dense", "sparse"] {
                        let spec = Spec {
                            kind: kind.into(),
                            iw: 2,
                            default: M::of_u64(a, dw),
                            ops: vec![Op::St(M::of_u64(2, 2), M::of_u64(b, dw)), Op::Sparse, Op::Dense, Op::Sparse, Op::St(M::of_u64(1, 2), M::of_u64(b, dw)), Op::St(M::of_u64(0, 2), M::of_u64(b, dw)), Op::Dense, Op::Sparse],
                        };
                        l.states += 1;
                        l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
                    }
                }
            }
        }
        Ok(())
    }));
    // all contents of tiny arrays over small data alphabets, through every pair of conversions
    for dw in [0u32, 1, 2, 8, 9, 64, 65, 129] {
        jobs.push(job(format!("all contents of arrays with 0..=2 index bits, {dw} data bits"), move |l| {
            let ds = data(dw, 4);
            for iw in 0..=2u32 {
                let n = 1usize << iw;
                for mut c in 0..ds.len().pow(n as u32) {
                    let mut ops = vec![];
                    for i in 0..n {
                        ops.push(Op::St(M::of_u64(i as u64, iw), ds[c % ds.len()].clone()));
                        c /= ds.len();
                    }
                    for kind in ["dense", "sparse"] {
                        for d in &ds {
                            for chain in [vec![Op::Sparse, Op::Dense], vec![Op::Dense, Op::Rebuild, Op::Clear], vec![Op::Rebuild, Op::Sparse, Op::Dense, Op::Dense]] {
                                let spec = Spec { kind: kind.into(), iw, default: d.clone(), ops: ops.iter().cloned().chain(chain).collect() };
                                l.states += 1;
                                l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    for iw in 0..=if q { 9 } else { 11 } {
        jobs.push(job(format!("conversions of full arrays with {iw} index bits"), move |l| {
            for dw in (0..=17).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 192, 193]) {
                for pat in 0..4 {
                    l.states += 1 << iw;
                    l.check(|| format!("sweep kind=dense iw={iw} dw={dw} pat={pat} obs={REPR}"), || Ok(sweep("dense", iw, dw, pat, REPR)?))?;
                }
            }
            Ok(())
        }));
    }
    // conversions of sparse arrays with large indices
    for iw in 8..=if q { 20 } else { 22 } {
        jobs.push(job(format!("making sparse arrays with {iw} index bits dense"), move |l| {
            for dw in [0u32, 1, 2, 8, 9, 64, 65] {
                let ops: Vec<Op> = idx_alpha(iw).into_iter().enumerate().map(|(k, i)| Op::St(i, elem(k as u64, dw, 0))).chain([Op::Dense, Op::Sparse, Op::Dense]).collect();
                let spec = Spec { kind: "sparse".into(), iw, default: M::ones(dw), ops };
                if dw > 8 && iw > 16 && q {
                    continue;
                }
                l.states += 1;
                l.check(|| format!("arr a={} obs={obs}", spec.text()), || Ok(run_spec(&spec, obs)?))?;
            }
            Ok(())
        }));
    }
    for (kind, dw) in [("distinct", 64u32), ("late", 64), ("early", 64), ("distinct", 65), ("late", 65), ("early", 65)] {
        jobs.push(job(format!("more than a million different values ({kind}, {dw} bits)"), move |l| {
            l.states += 1 << 21;
            l.check(|| format!("bulk kind={kind} iw=21 dw={dw}"), || Ok(bulk(kind, 21, dw)?))
        }));
    }
    drains(&mut jobs, q, SELECT | REPR);
    for dw in [1u32, 2, 8, 9, 32, 63, 64, 65, 129] {
        jobs.push(job(format!("large arrays that are uniform but for their edges, {dw} data bits"), move |l| {
            for iw in 8..=if q { 20 } else { 24 } {
                for zero in [true, false] {
                    l.states += 1;
                    l.check(|| format!("edgeconvert iw={iw} dw={dw} zero={}", zero as u32), || Ok(edge_convert(iw, dw, zero)?))?;
                }
            }
            Ok(())
        }));
    }
    jobs
}

// ------------------------------------------------------------------------------------------ C20

fn as_array(s: &mut State) -> Result<ArrayValue, String> {
    if let Obj::S(_) = s.obj {
        s.apply(&Op::Rebuild)?;
    }
    match &s.obj {
        Obj::A(a) => Ok(a.clone()),
        _ => unreachable!(),
    }
}

fn equal_arrays(a: &ArrayValue, b: &ArrayValue, exp: Option<bool>) -> Result<u64, String> {
    eq("is_equal", a.is_equal(b), exp)?;
    eq("is_equal with swapped operands", b.is_equal(a), exp)?;
    let e = exp == Some(true);
    eq("==", a == b, e)?;
    eq("!=", a != b, !e)?;
    Ok(match exp {
        None => 2,
        Some(x) => x as u64,
    })
}

fn equal_pair(a: &mut State, b: &mut State) -> Result<u64, String> {
    let exp = a.m.same(&b.m);
    let (x, y) = (as_array(a)?, as_array(b)?);
    let r = equal_arrays(&x, &y, exp)?;
    let (vx, vy) = (Value::Array(x.clone()), Value::Array(y));
    eq("equality of wrapped arrays", vx == vy, exp == Some(true))?;
    eq("a wrapped array equals itself", vx == vx.clone(), true)?;
    let back = ArrayValue::try_from(vx.clone()).map_err(|_| "a wrapped array is not an array")?;
    eq("unwrapped", back.is_equal(&x), Some(true))?;
    eq("representation after unwrapping", (back.is_dense(), back.is_sparse()), (x.is_dense(), x.is_sparse()))?;
    eq("a wrapped array as a bit-vector", BitVecValue::try_from(vx).is_err(), true)?;
    Ok(r)
}

fn value_wrapper(a: &M, b: &M) -> Result<u64, String> {
    let (x, y) = (Value::BitVec(a.real()), Value::BitVec(b.real()));
    eq("equality of wrapped bit-vectors", x == y, a == b)?;
    eq("inequality of wrapped bit-vectors", x != y, a != b)?;
    let back = BitVecValue::try_from(x.clone()).map_err(|_| "a wrapped bit-vector is not a bit-vector")?;
    same(&back, a).map_err(|e| format!("unwrapped: {e}"))?;
    eq("a wrapped bit-vector as an array", ArrayValue::try_from(x.clone()).is_err(), true)?;
    for iw in [0, 1] {
        for arr in [ArrayValue::new_sparse(iw, &a.real()), ArrayValue::new_dense(iw, &a.real())] {
            eq("a bit-vector and an array", x == Value::Array(arr.clone()), false)?;
            eq("an array and a bit-vector", Value::Array(arr) == x, false)?;
        }
    }
    Ok((a == b) as u64)
}

/// contents for the comparison of nearly equal arrays
fn diff_elem(k: u64, iw: u32, dw: u32, pat: u32) -> M {
    match pat {
        0 => M::zero(dw),
        1 => M::ones(dw),
        2 => elem(k, dw, 0),
        3 => elem(k, dw, 1),
        4 => {
            if k % 37 == 5 || k == (1u64 << iw) - 1 {
                elem(k, dw, 2)
            } else {
                M::zero(dw)
            }
        }
        // all different, as far as the width allows
        _ => M::of_u64(k, dw),
    }
}
/// multipliers of common checksums
const CHECKSUM: [u64; 12] = [1, 2, 3, 31, 33, 37, 131, 257, 65599, 0x0100_0193, 0x0100_0000_01b3, 0x9e37_79b9_7f4a_7c15];
const DIFF_PATS: u32 = 6;
/// dense, sparse with a zero default, sparse with another default, sparse out of dense, dense out of sparse
const DIFF_KINDS: u32 = 5;

fn diff_base(iw: u32, dw: u32, pat: u32, kind: u32) -> ArrayValue {
    let z = BitVecValue::zero(dw);
    let first = diff_elem(0, iw, dw, pat);
    let mut a = match kind {
        0 | 3 => ArrayValue::new_dense(iw, &z),
        1 | 4 => ArrayValue::new_sparse(iw, &z),
        _ => ArrayValue::new_sparse(iw, &first.not().real()),
    };
    for k in 0..1u64 << iw {
        let e = diff_elem(k, iw, dw, pat);
        if kind == 2 || !e.is_zero() {
            a.store(&BitVecValue::from_u64(k, iw), &e.real());
        }
    }
    match kind {
        3 => rebuild(&SparseArrayValue::from(a)),
        4 => {
            a.make_dense();
            a
        }
        _ => a,
    }
}

/// `b` is changed at the given indices (how: 0 lowest bit, 1 highest bit, 2 contents swapped, 3 set to
/// zero, 4 changed and restored, 10.. opposite changes, 1000.. one bit) and compared with `a`, which has the original contents
fn diff(iw: u32, dw: u32, pat: u32, a: &ArrayValue, b: &ArrayValue, at: &[u64], how: u32) -> Result<u64, String> {
    let mut b = b.clone();
    let mut exp = true;
    for (n, k) in at.iter().enumerate() {
        let old = diff_elem(*k, iw, dw, pat);
        let new = match how {
            0 => old.with_bit(0, !old.bit(0)),
            1 => old.with_bit(dw - 1, !old.bit(dw - 1)),
            2 => diff_elem(at[(n + 1) % at.len()], iw, dw, pat),
            3 => M::zero(dw),
            4 => old.not(),
            x if x >= 1000 => old.with_bit(x - 1000, !old.bit(x - 1000)),
            // a change that a checksum of the form (...h * c + e) does not see
            x if n == 0 => {
                let _ = x;
                old.add(&M::of_u64(1, dw))
            }
            x => old.sub(&M::of_u64(CHECKSUM[x as usize - 10], dw)),
        };
        let i = BitVecValue::from_u64(*k, iw);
        b.store(&i, &new.real());
        if how == 4 {
            b.store(&i, &old.real());
        } else {
            exp &= old == new;
        }
    }
    let n = equal_arrays(a, &b, Some(exp))?;
    eq("equality of wrapped arrays", Value::Array(a.clone()) == Value::Array(b), exp)?;
    Ok(n)
}

/// serialises an array with many elements in every format, also as a `SparseArrayValue`
fn serde_array(iw: u32, dw: u32, pat: u32, kind: u32) -> Result<u64, String> {
    let a = diff_base(iw, dw, pat, kind);
    let n = 1u64 << iw;
    let elems: Vec<M> = (0..n).map(|k| diff_elem(k, iw, dw, pat)).collect();
    let other = elem(77, dw, 2).real();
    for (name, mut b) in [("json", json(&a)?), ("json value", json_value(&a)?), ("bincode", binary(&a)?)] {
        let go = |b: &mut ArrayValue| -> Result<(), String> {
            eq("widths", (b.index_width(), b.data_width()), (iw, dw))?;
            eq("representation", (b.is_dense(), b.is_sparse()), (a.is_dense(), a.is_sparse()))?;
            for (k, e) in elems.iter().enumerate() {
                same(&b.select(&BitVecValue::from_u64(k as u64, iw)), e).map_err(|e| format!("element {k}: {e}"))?;
            }
            eq("equal to the original", (b.is_equal(&a), a.is_equal(b)), (Some(true), Some(true)))?;
            // use it
            let mut c = a.clone();
            for k in [0, n / 2, n - 1] {
                let i = BitVecValue::from_u64(k, iw);
                b.store(&i, &other);
                c.store(&i, &other);
            }
            eq("equal after stores to both", (b.is_equal(&c), c.is_equal(b)), (Some(true), Some(true)))?;
            for (k, e) in elems.iter().enumerate() {
                let k = k as u64;
                let got = b.select(&BitVecValue::from_u64(k, iw));
                if k == 0 || k == n / 2 || k == n - 1 {
                    eq("stored element", &got, &other)?;
                } else {
                    same(&got, e).map_err(|e| format!("element {k} after stores: {e}"))?;
                }
            }
            b.clear();
            c.clear();
            eq("equal after clearing both", (b.is_equal(&c), c.is_equal(b)), (Some(true), Some(true)))?;
            Ok(())
        };
        go(&mut b).map_err(|e| format!("restored from {name}: {e}"))?;
    }
    let s = SparseArrayValue::from(a);
    for (name, r) in [("json", json(&s)?), ("json value", json_value(&s)?), ("bincode", binary(&s)?)] {
        eq(&format!("default of the sparse array restored from {name}"), r.default(), s.default())?;
        eq(&format!("number of entries of the sparse array restored from {name}"), r.non_default_entries().count(), s.non_default_entries().count())?;
        for (k, e) in elems.iter().enumerate() {
            same(&r.select(&BitVecValue::from_u64(k as u64, iw)), e).map_err(|e| format!("element {k} of the sparse array restored from {name}: {e}"))?;
        }
    }
    Ok(n)
}

/// one spec per content x representation x default x way to get there
fn pool(iw: u32, dw: u32, nd: usize) -> Vec<Spec> {
    let ds = data(dw, nd);
    let n = 1usize << iw;
    let ix: Vec<M> = (0..n).map(|i| M::of_u64(i as u64, iw)).collect();
    let mut o = vec![];
    for code in 0..ds.len().pow(n as u32) {
        let mut c = code;
        let content: Vec<M> = (0..n)
            .map(|_| {
                let d = ds[c % ds.len()].clone();
                c /= ds.len();
                d
            })
            .collect();
        let fill: Vec<Op> = (0..n).map(|i| Op::St(ix[i].clone(), content[i].clone())).collect();
        // each default; only what differs from it is stored
        for d in &ds {
            let ops: Vec<Op> = (0..n).filter(|i| content[*i] != *d).map(|i| Op::St(ix[i].clone(), content[i].clone())).collect();
            o.push(Spec { kind: "sparse".into(), iw, default: d.clone(), ops });
        }
        o.push(Spec { kind: "dense".into(), iw, default: ds[0].clone(), ops: fill.clone() });
        // conversions
        let mut ops = fill.clone();
        ops.push(Op::Rebuild);
        o.push(Spec { kind: "dense".into(), iw, default: ds[0].clone(), ops });
        // overwritten history in reverse order, after a clear
        let mut ops: Vec<Op> = (0..n).map(|i| Op::St(ix[i].clone(), ds[ds.len() - 1].clone())).collect();
        ops.push(Op::Clear);
        ops.extend(fill.iter().rev().cloned());
        o.push(Spec { kind: "sparse".into(), iw, default: ds[1 % ds.len()].clone(), ops: ops.clone() });
        ops.push(Op::Dense);
        o.push(Spec { kind: "sparse".into(), iw, default: ds[ds.len() - 1].clone(), ops });
    }
    o
}

fn eq_all(l: &mut Loc, specs: &[Spec]) -> R {
    let mut st = vec![];
    for s in specs {
        l.states += 1;
        let mut state = None;
        l.check(
            || format!("arr a={} obs={SELECT}", s.text()),
            || {
                let x = s.state()?;
                let h = x.observe(SELECT)?;
                state = Some(x);
                Ok(h)
            },
        )?;
        let mut x = state.unwrap();
        let _ = as_array(&mut x);
        st.push(x);
    }
    for i in 0..st.len() {
        for j in 0..st.len() {
            let (a, b) = (&st[i], &st[j]);
            l.check(
                || format!("eq a={} b={}", specs[i].text(), specs[j].text()),
                || match (&a.obj, &b.obj) {
                    (Obj::A(x), Obj::A(y)) => Ok(equal_arrays(x, y, a.m.same(&b.m))?),
                    _ => unreachable!(),
                },
            )?;
        }
    }
    Ok(())
}

/// an array with `n` entries and all its small changes
fn near(iw: u32, dw: u32, n: usize, spread: u32, d: &M) -> Vec<(Spec, Spec)> {
    let ix: Vec<M> = match spread {
        0 => (0..n as u64).map(|k| M::of_u64(k, iw)).collect(),
        1 => (0..n as u64).map(|k| M::of_u64(k, iw).not()).collect(),
        // all bits of the index differ somewhere
        _ => {
            let all = wide_indices(iw, 2 * n);
            all.iter().step_by(all.len() / n).take(n).cloned().collect()
        }
    };
    let base: Vec<(M, M)> = ix.iter().enumerate().map(|(k, i)| (i.clone(), elem(k as u64, dw, 0))).collect();
    let n = base.len();
    let spec = |e: &[(M, M)]| Spec { kind: "sparse".into(), iw, default: d.clone(), ops: e.iter().map(|(i, v)| Op::St(i.clone(), v.clone())).collect() };
    let mut others: Vec<Vec<(M, M)>> = vec![base.clone(), base.iter().rev().cloned().collect()];
    let mut rot = base.clone();
    for (k, e) in rot.iter_mut().enumerate() {
        e.1 = base[(k + 1) % n].1.clone();
    }
    others.push(rot);
    let few: Vec<usize> = if n <= 12 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
    for &x in &few {
        for &y in few.iter().filter(|y| **y > x) {
            let mut e = base.clone();
            (e[x].1, e[y].1) = (base[y].1.clone(), base[x].1.clone());
            others.push(e);
        }
        for bit in dedup_u64([0u32, 5, 31, 32, 63, 64, iw - 1].iter().map(|b| *b as u64).collect()) {
            let mut e = base.clone();
            if (bit as u32) < iw {
                e[x].0 = e[x].0.with_bit(bit as u32, !e[x].0.bit(bit as u32));
                if !ix.contains(&e[x].0) {
                    others.push(e);
                }
            }
        }
        for bit in dedup_u64([0u32, 7, 8, 31, 32, 63, 64, dw - 1].iter().map(|b| *b as u64).collect()) {
            let mut e = base.clone();
            if (bit as u32) < dw {
                e[x].1 = e[x].1.with_bit(bit as u32, !e[x].1.bit(bit as u32));
                others.push(e);
            }
        }
        let mut e = base.clone();
        e[x].1 = d.clone();
        others.push(e.clone());
        e.push((M::one_hot(iw, iw / 2 + 1), base[x].1.clone()));
        others.push(e);
    }
    others.into_iter().map(|o| (spec(&base), spec(&o))).collect()
}

pub fn c20(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    for dw in DWS {
        jobs.push(job(format!("all pairs of contents and representations, {dw} data bits"), move |l| {
            eq_all(l, &pool(0, dw, 5))?;
            eq_all(l, &pool(1, dw, if q { 3 } else { 5 }))?;
            eq_all(l, &pool(2, dw, if dw == 1 || !q { 3 } else { 2 }))
        }));
        jobs.push(job(format!("all pairs of contents of 3 index bits, {dw} data bits"), move |l| {
            if q && dw != 1 && dw != 64 && dw != 65 {
                return Ok(());
            }
            // all contents over two values, two representations
            let mut p: Vec<Spec> = pool(3, dw, 2);
            if q {
                p = p.into_iter().step_by(3).collect();
            }
            eq_all(l, &p)
        }));
    }
    for dw in [9u32, 33, 63, 64, 65, 100, 128, 130, 200, 320] {
        jobs.push(job(format!("one element, every two word shapes, {dw} data bits"), move |l| {
            let mut xs = shapes(dw);
            if q && dw > 65 {
                xs = xs.into_iter().step_by(2).collect();
            }
            for (kind, other, iw) in [("dense", "dense", 1u32), ("dense", "sparse", 1), ("sparse", "sparse", 2), ("sparse", "sparse", 70)] {
                let specs: Vec<Spec> = xs
                    .iter()
                    .enumerate()
                    .map(|(k, x)| Spec {
                        kind: (if k % 2 == 0 { kind } else { other }).into(),
                        iw,
                        default: if k % 3 == 0 { x.clone() } else { M::zero(dw) },
                        ops: vec![Op::St(M::ones(iw), x.clone())],
                    })
                    .collect();
                eq_all(l, &specs)?;
            }
            Ok(())
        }));
    }
    for iw in [13u32, 33, 63, 64, 65, 100, 128, 130, 200, 320] {
        jobs.push(job(format!("one element, at any two indices that are word shapes, {iw} index bits"), move |l| {
            let mut xs = shapes(iw);
            if q && iw > 65 {
                xs = xs.into_iter().step_by(2).collect();
            }
            for dw in [1u32, 8, 65] {
                let specs: Vec<Spec> = xs
                    .iter()
                    .map(|x| Spec { kind: "sparse".into(), iw, default: M::zero(dw), ops: vec![Op::St(x.clone(), M::ones(dw))] })
                    .collect();
                eq_all(l, &specs)?;
            }
            Ok(())
        }));
    }
    // two arrays that differ in one or two elements
    for dw in [1u32, 2, 8, 9, 64, 65, 129] {
        for iw in 0..=if q { 14 } else { 18u32 } {
            for pat in 0..DIFF_PATS {
                if q && iw > 10 && ![0, 4, 5].contains(&pat) {
                    continue;
                }
                jobs.push(job(format!("one or two different elements, {iw} index and {dw} data bits, contents {pat}"), move |l| {
                    let n = 1u64 << iw;
                    let bases: Vec<ArrayValue> = (0..DIFF_KINDS).map(|k| diff_base(iw, dw, pat, k)).collect();
                    let mut ix: Vec<u64> = if iw <= if q { 6 } else { 9 } {
                        (0..n).collect()
                    } else {
                        let mut v: Vec<u64> = vec![0, 1, n - 1, n - 2, n / 2 - 1, n / 2 + 1];
                        v.extend((1..iw).map(|k| 1u64 << k));
                        v
                    };
                    ix.sort();
                    ix.dedup();
                    let mut ats: Vec<(Vec<u64>, u32)> = vec![(vec![], 0)];
                    for i in &ix {
                        for how in [0, 1, 3, 4] {
                            ats.push((vec![*i], how));
                        }
                    }
                    for (x, i) in ix.iter().enumerate() {
                        for (y, j) in ix.iter().enumerate() {
                            if x < y && (iw <= 4 || x + 1 == y || (x == 0 && iw <= 10)) {
                                ats.push((vec![*i, *j], 2));
                                ats.push((vec![*i, *j], 0));
                            }
                        }
                    }
                    if q && iw > 10 {
                        // most comparisons take time in proportion to the size here
                        ats = ats.into_iter().enumerate().filter(|(k, x)| k % 3 == 0 || x.0 == [n - 1] || x.0 == [0]).map(|x| x.1).collect();
                    }
                    for k in [0, n / 2, n - 1] {
                        if k + 1 < n && dw > 1 {
                            for c in 0..CHECKSUM.len() as u32 {
                                ats.push((vec![k, k + 1], 10 + c));
                                ats.push((vec![k + 1, k], 10 + c));
                            }
                        }
                    }
                    for (ka, a) in bases.iter().enumerate() {
                        for (kb, b) in bases.iter().enumerate() {
                            for (at, how) in &ats {
                                l.states += 1;
                                l.check(
                                    || {
                                        let at: Vec<String> = at.iter().map(|x| x.to_string()).collect();
                                        format!("diff iw={iw} dw={dw} pat={pat} ka={ka} kb={kb} at={} how={how}", at.join(","))
                                    },
                                    || Ok(diff(iw, dw, pat, a, b, at, *how)?),
                                )?;
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    for dw in (0..=if q { 70 } else { 140u32 }).chain([127, 128, 129, 130, 191, 192, 193, 256, 257].into_iter().filter(move |w| q || *w > 140)) {
        jobs.push(job(format!("one different bit, {dw} data bits"), move |l| {
            for iw in [0, 1, 2, 7u32] {
                let n = 1u64 << iw;
                for pat in [0, 1, 2] {
                    let bases: Vec<ArrayValue> = (0..DIFF_KINDS).map(|k| diff_base(iw, dw, pat, k)).collect();
                    for (ka, a) in bases.iter().enumerate() {
                        for (kb, b) in bases.iter().enumerate() {
                            for at in dedup_u64(vec![0, n / 2, n - 1]) {
                                for bit in 0..dw {
                                    let how = 1000 + bit;
                                    l.states += 1;
                                    l.check(|| format!("diff iw={iw} dw={dw} pat={pat} ka={ka} kb={kb} at={at} how={how}"), || Ok(diff(iw, dw, pat, a, b, &[at], how)?))?;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // arrays of different types are not comparable
    jobs.push(job("all pairs of types", move |l| {
        let mut specs = vec![];
        for iw in [0u32, 1, 2, 3] {
            for dw in [0u32, 1, 2, 7, 8, 9, 63, 64, 65, 66, 128, 129] {
                for kind in ["dense", "sparse"] {
                    for v in [M::zero(dw), M::of_u64(1, dw)] {
                        specs.push(Spec { kind: kind.into(), iw, default: v, ops: vec![] });
                    }
                }
            }
        }
        for iw in [32u32, 63, 64, 65, 66, 128, 129] {
            for dw in [1u32, 2, 64, 65, 66] {
                specs.push(Spec { kind: "sparse".into(), iw, default: M::zero(dw), ops: vec![] });
            }
        }
        eq_all(l, &specs)
    }));
    drains(&mut jobs, q, EQUAL);
    // large index spaces
    for iw in [6u32, 7, 10, 31, 32, 33, 62, 63, 64, 65, 66, 128, 129] {
        for dw in [1u32, 8, 64, 65, 129] {
            jobs.push(job(format!("pairs of arrays with {iw} index and {dw} data bits"), move |l| {
                let ds = data(dw, 3);
                let ix = some_idx(iw, 4);
                let mut specs = vec![];
                for d in &ds {
                    let mut seqs: Vec<Vec<Op>> = vec![vec![], vec![Op::Clear]];
                    for i in &ix {
                        for v in &ds {
                            seqs.push(vec![Op::St(i.clone(), v.clone())]);
                            seqs.push(vec![Op::St(ix[0].clone(), v.clone()), Op::St(i.clone(), ds[1].clone())]);
                            seqs.push(vec![Op::St(i.clone(), v.clone()), Op::St(i.clone(), d.clone())]);
                        }
                    }
                    for s in seqs {
                        specs.push(Spec { kind: "sparse".into(), iw, default: d.clone(), ops: s.clone() });
                        if iw <= 10 {
                            specs.push(Spec { kind: "dense".into(), iw, default: d.clone(), ops: s.clone() });
                            let mut r = s.clone();
                            r.push(Op::Rebuild);
                            specs.push(Spec { kind: "dense".into(), iw, default: d.clone(), ops: r });
                        }
                    }
                }
                eq_all(l, &specs)
            }));
        }
    }
    // a few entries anywhere in a large index space, and every small change of them
    for (iw, dw) in [(12u32, 8u32), (33, 8), (33, 70), (63, 64), (64, 1), (64, 65), (65, 1), (65, 8), (70, 64), (70, 65), (129, 8), (200, 129)] {
        jobs.push(job(format!("small changes of a few entries, {iw} index and {dw} data bits"), move |l| {
            for n in (1..=if q { 7 } else { 12usize }).chain([20, 40]) {
                for spread in 0..3u32 {
                    for d in data(dw, 2) {
                        for (a, b) in near(iw, dw, n, spread, &d) {
                            l.states += 1;
                            l.check(|| format!("eq a={} b={}", a.text(), b.text()), || Ok(equal_pair(&mut a.state()?, &mut b.state()?)?))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // equal maps with different defaults when (almost) every index is stored
    jobs.push(job("defaults that no index shows, up to 6 index bits", move |l| {
        for iw in 0..=6u32 {
            for dw in [1u32, 8, 64, 65] {
                let ds = data(dw, 3);
                let mut specs = vec![];
                let n = 1u64 << iw;
                for miss in [u64::MAX, 0, n / 2, n - 1] {
                    for d in &ds {
                        for change in [u64::MAX, 0, n - 1] {
                            let ops: Vec<Op> = (0..n)
                                .filter(|i| *i != miss)
                                .map(|i| Op::St(M::of_u64(i, iw), if i == change { ds[1].clone() } else { elem(i, dw, 0) }))
                                .collect();
                            specs.push(Spec { kind: "sparse".into(), iw, default: d.clone(), ops });
                        }
                    }
                }
                eq_all(l, &specs)?;
            }
        }
        Ok(())
    }));
    jobs.push(job("wrapped values", move |l| {
        let mut vs: Vec<M> = (1..=4).flat_map(full).collect();
        for w in [8u32, 63, 64, 65, 128, 129] {
            vs.extend(data(w, 6));
        }
        for a in &vs {
            for b in &vs {
                l.states += 1;
                l.check(|| format!("value a={} b={}", a.text(), b.text()), || Ok(value_wrapper(a, b)?))?;
            }
        }
        for (iw, dw) in [(0u32, 1u32), (1, 8), (1, 65)] {
            let p = pool(iw, dw, 3);
            for a in &p {
                for b in &p {
                    l.states += 1;
                    l.check(
                        || format!("eq a={} b={}", a.text(), b.text()),
                        || Ok(equal_pair(&mut a.state()?, &mut b.state()?)?),
                    )?;
                }
            }
        }
        Ok(())
    }));
    for dw in [1u32, 2, 8, 9, 32, 63, 64, 65, 129] {
        jobs.push(job(format!("large dense arrays that differ in one bit, {dw} data bits"), move |l| {
            let top = if dw > 64 { 16 } else if dw > 8 { 21 } else { 24 } + if q { 0 } else { 3 };
            for iw in 10..=top {
                l.states += 1;
                l.check(|| format!("edgeequal iw={iw} dw={dw}"), || Ok(edge_equal(iw, dw)?))?;
            }
            Ok(())
        }));
    }
    // checksums and digests over blocks of a large array: exchanged and compensating elements
    for dw in [1u32, 2, 8, 9, 32, 63, 64, 65, 129] {
        jobs.push(job(format!("large dense arrays with exchanged elements, {dw} data bits"), move |l| {
            for iw in if q { vec![13u32, 16, 17] } else { vec![13u32, 14, 15, 16, 17, 18, 19, 20] } {
                if dw > 64 && iw > 16 {
                    continue;
                }
                let n = 1u64 << iw;
                for pat in [2u32, 5] {
                    let a = diff_base(iw, dw, pat, 0);
                    for k in [0, 1, n / 2 - 1, n / 2 + 5, n - 2] {
                        for d in [1u64, 2, 63, 64, 1024, n / 2] {
                            if k + d >= n {
                                continue;
                            }
                            for how in if dw > 8 { vec![2u32, 10, 11, 12] } else { vec![2] } {
                                if how > 10 && d > 2 || q && iw > 16 && how > 10 {
                                    continue;
                                }
                                l.states += 1;
                                let at = [k, k + d];
                                l.check(|| format!("diff iw={iw} dw={dw} pat={pat} ka=0 kb=0 at={k},{} how={how}", k + d), || Ok(diff(iw, dw, pat, &a, &a, &at, how)?))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    jobs
}

// ------------------------------------------------------------------------------------------ C21

fn serde_bv(m: &M) -> Result<u64, String> {
    let v = m.real();
    let mut h = 0;
    for (name, b) in [("JSON", json(&v)), ("a JSON value", json_value(&v)), ("bincode", binary(&v))] {
        let b = b?;
        same(&b, m).map_err(|e| format!("through {name}: {e}"))?;
        eq("equal to the original", (b == v, v == b), (true, true))?;
        eq("order", b.cmp(&v), std::cmp::Ordering::Equal)?;
        h = fp(&b);
        // the result behaves like the original
        let w = m.w();
        if w > 0 {
            for (op, n) in BINS {
                if op == Bin::Mul && w > 300 {
                    continue;
                }
                same(&op.real(&b, &v), &op.model(m, m)).map_err(|e| format!("{n} after {name}: {e}"))?;
            }
            for op in [Un::Not, Un::Neg, Un::Slice(w - 1, w / 2), Un::Zext(1), Un::Sext(65)] {
                same(&op.real(&b), &op.model(m)).map_err(|e| format!("{} after {name}: {e}", op.text()))?;
            }
            eq("to_bit_str", b.to_bit_str(), m.bit_str())?;
            let mut c = b.clone();
            c.assign_ones();
            same(&c, &M::ones(w)).map_err(|e| format!("assign_ones after {name}: {e}"))?;
            c.assign(&v);
            same(&c, m).map_err(|e| format!("assign after {name}: {e}"))?;
        }
        // containers around it
        let list: Vec<BitVecValue> = binary(&vec![v.clone(), b.clone()])?;
        same(&list[1], m).map_err(|e| format!("in a list: {e}"))?;
        let opt: (u8, Option<BitVecValue>) = json(&(3u8, Some(b)))?;
        same(&opt.1.ok_or("lost")?, m).map_err(|e| format!("in an option: {e}"))?;
    }
    Ok(h)
}

pub fn c21(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    for w in (0..=if q { 330 } else { 700 }).chain(WIDE).chain(HUGE) {
        jobs.push(job(format!("bit-vectors of width {w}"), move |l| {
            let vs = if w == 0 {
                vec![M::zero(0)]
            } else if w <= 10 {
                full(w)
            } else if w <= 5000 {
                let mut o = edges_sparse(w);
                o.extend(shapes(w));
                dedup(o)
            } else {
                few(w)
            };
            for m in vs {
                l.states += 1;
                l.check(|| format!("serde a={}", m.text()), || Ok(serde_bv(&m)?))?;
            }
            Ok(())
        }));
    }
    one_bit(&mut jobs, q, SELECT | REPR, vec![Op::Json, Op::JsonValue, Op::Bincode]);
    shaped(&mut jobs, q, SELECT | REPR, vec![Op::Json, Op::JsonValue, Op::Bincode]);
    loops(&mut jobs, q, SELECT | REPR, vec![Op::Json, Op::Bincode]);
    for w in [64u32, 65, 128, 129, 192] {
        jobs.push(job(format!("word combinations of width {w}"), move |l| {
            for m in tuples(w, if w > 128 { 5 } else { 8 }) {
                l.states += 1;
                l.check(|| format!("serde a={}", m.text()), || Ok(serde_bv(&m)?))?;
            }
            Ok(())
        }));
    }
    for iw in 0..=if q { 11 } else { 14 } {
        for dw in [0u32, 1, 2, 7, 8, 9, 16, 32, 33, 63, 64, 65, 127, 128, 129, 192, 200] {
            jobs.push(job(format!("whole arrays, {iw} index and {dw} data bits"), move |l| {
                for pat in 0..DIFF_PATS {
                    for kind in 0..DIFF_KINDS {
                        l.states += 1 << iw;
                        l.check(|| format!("serdearr iw={iw} dw={dw} pat={pat} kind={kind}"), || Ok(serde_array(iw, dw, pat, kind)?))?;
                    }
                }
                Ok(())
            }));
        }
    }
    wide_sweeps(&mut jobs, q, SELECT | REPR | ENTRIES);
    let obs = SELECT | REPR | ENTRIES;
    let extra = vec![Op::Json, Op::Bincode, Op::JsonValue, Op::Clear, Op::Dense, Op::Sparse];
    sequences(&mut jobs, small_spaces(&DWS, &[0, 1, 2]), obs, if q { 3 } else { 4 }, 2, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&[1, 8, 64, 65], &[3, 6, 7]), obs, if q { 2 } else { 3 }, 3, 3, extra.clone());
    sequences(&mut jobs, sparse_only(&[31, 32, 33, 63, 64], &[1, 8, 64, 65]), obs, if q { 3 } else { 4 }, 3, 2, vec![Op::Json, Op::JsonValue, Op::Bincode, Op::Clear, Op::Rebuild]);
    sequences(&mut jobs, sparse_only(&[65, 66, 128, 129], &[1, 8, 64, 65]), obs, if q { 3 } else { 4 }, 3, 2, vec![Op::Bincode, Op::Clear, Op::Rebuild]);
    jobs
}

// ------------------------------------------------------------------------------------------ C24

pub fn c24(t: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let q = t == Tier::Quick;
    let extra = vec![Op::Clear, Op::Dense, Op::Sparse, Op::Rebuild];
    sequences(&mut jobs, small_spaces(&DWS, &[0, 1, 2]), ENTRIES, if q { 3 } else { 4 }, 3, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&[1, 8, 64, 65], &[1, 2]), ENTRIES, if q { 4 } else { 5 }, 2, 3, extra.clone());
    sequences(&mut jobs, small_spaces(&DWS, &[3, 6, 7]), ENTRIES, if q { 2 } else { 3 }, 4, 4, extra.clone());
    sequences(
        &mut jobs,
        sparse_only(&[13, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 192, 200], &[1, 2, 8, 9, 63, 64, 65, 128, 129]),
        ENTRIES,
        if q { 3 } else { 4 },
        4,
        3,
        vec![Op::Clear, Op::Rebuild, Op::CloneMut, Op::Fork],
    );
    for dw in (0..=70).chain([127, 128, 129, 192, 193]) {
        jobs.push(job(format!("entries of full arrays, {dw} data bits"), move |l| {
            for iw in 0..=if q { 7 } else { 9 } {
                for pat in 0..4 {
                    for kind in ["dense", "sparse"] {
                        l.states += 1 << iw;
                        l.check(|| format!("sweep kind={kind} iw={iw} dw={dw} pat={pat} obs={ENTRIES}"), || Ok(sweep(kind, iw, dw, pat, ENTRIES)?))?;
                    }
                }
            }
            Ok(())
        }));
    }
    wide_sweeps(&mut jobs, q, ENTRIES);
    one_bit(&mut jobs, q, ENTRIES, vec![Op::Rebuild]);
    shaped(&mut jobs, q, ENTRIES, vec![Op::Rebuild]);
    loops(&mut jobs, q, ENTRIES, vec![Op::Clear, Op::Rebuild]);
    // all contents of tiny arrays: every default, every tie between the most frequent values
    for dw in [0u32, 1, 2, 8, 9, 64, 65, 129] {
        jobs.push(job(format!("all contents of arrays with up to 3 index bits, {dw} data bits"), move |l| {
            for iw in 0..=3u32 {
                let ds = data(dw, if iw == 3 { 2 } else { 4 });
                let n = 1usize << iw;
                for mut c in 0..ds.len().pow(n as u32) {
                    let mut ops = vec![];
                    for i in 0..n {
                        ops.push(Op::St(M::of_u64(i as u64, iw), ds[c % ds.len()].clone()));
                        c /= ds.len();
                    }
                    for kind in ["dense", "sparse", "raw"] {
                        for d in &ds {
                            let mut spec = Spec { kind: kind.into(), iw, default: d.clone(), ops: ops.clone() };
                            l.states += 1;
                            spec.ops.push(Op::Rebuild);
                            l.check(|| format!("arr a={} obs={ENTRIES}", spec.text()), || Ok(run_spec(&spec, ENTRIES)?))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    jobs
}
