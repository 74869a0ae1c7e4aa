//! J01: the circular buffer against a plain vector.
use crate::engine::*;
use crate::vensure;
use crate::world::{Map, Store, H};
use astroport_circular_buffer::{BufferManager, CircularBuffer};
use cosmwasm_std::Storage;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

const A: CircularBuffer<u64> = CircularBuffer::new("state_a", "array_a");
const B: CircularBuffer<u64> = CircularBuffer::new("state_b", "array_b");
fn iface(b: bool) -> CircularBuffer<'static, u64> {
    if b {
        B
    } else {
        A
    }
}

#[derive(Clone)]
struct Ref {
    cap: u32,
    head: u32,
    slots: Vec<Option<u64>>,
}
impl Ref {
    fn push(&mut self, v: u64) {
        self.slots[self.head as usize] = Some(v);
        self.head = (self.head + 1) % self.cap;
    }
}
#[derive(Clone)]
pub struct S {
    m: Arc<Map>,
    r: [Ref; 2],
    n: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// one manager: push `a` values, commit, push `b` values, commit unless dropped
    Batch { buf: bool, a: u32, b: u32, many: bool, commit: bool },
    /// one manager: `n` instant pushes
    Instant { buf: bool, n: u32 },
    Clear { buf: bool },
}
struct M {
    caps: [u32; 2],
    values: u64,
}
impl M {
    fn reads(&self, s: &S) -> Result<(), Viol> {
        let st = Store { m: s.m.clone(), dirty: false };
        for (b, r) in [false, true].into_iter().zip(&s.r) {
            let cap = r.cap;
            let m = BufferManager::new(&st, iface(b)).map_err(|e| e.to_string())?;
            vensure!(m.capacity() == cap, "capacity", "capacity {} instead of {}", m.capacity(), cap);
            vensure!(m.head() == r.head, "head", "head {} instead of {}", m.head(), r.head);
            for i in 0..3 * cap + 2 {
                let want = r.slots[(i % cap) as usize];
                let got = m.read_single(&st, i).map_err(|e| e.to_string())?;
                vensure!(got == want, "read_single", "read_single({i}) = {got:?}, want {want:?}");
                let ex = m.exists(&st, i);
                vensure!(ex == want.is_some(), "exists", "exists({i}) = {ex}, want {want:?}");
                let got = m.read(&st, [i], false).ok();
                let want1 = if i < cap { want.map(|v| vec![v]) } else { None };
                vensure!(got == want1, "read", "read([{i}]) = {got:?}, want {want1:?}");
            }
            let last = r.slots[((r.head + cap - 1) % cap) as usize];
            let got = m.read_last(&st).map_err(|e| e.to_string())?;
            vensure!(got == last, "read_last", "read_last = {got:?}, want {last:?}");
            let prefix: Vec<u64> = r.slots.iter().map_while(|x| *x).collect();
            let got = m.read_all(&st).map_err(|e| e.to_string())?;
            vensure!(got == prefix, "read_all", "read_all = {got:?}, want {prefix:?}");
            for from in 0..cap {
                for to in from..cap + 1 {
                    for stop in [false, true] {
                        let got = m.read(&st, from..=to, stop).ok();
                        let mut want = Some(vec![]);
                        for i in from..=to {
                            let v = if i < cap { Some(r.slots[i as usize]) } else { None };
                            match v {
                                Some(Some(v)) => want.as_mut().unwrap().push(v),
                                Some(None) if stop => break,
                                _ => {
                                    want = None;
                                    break;
                                }
                            }
                        }
                        vensure!(got == want, "read_range", "read({from}..={to}, {stop}) = {got:?}, want {want:?}");
                    }
                }
            }
            // oldest to newest
            let got = m.read(&st, (0..cap).map(|i| (r.head + i) % cap), false).ok();
            let want: Option<Vec<u64>> = (0..cap).map(|i| r.slots[((r.head + i) % cap) as usize]).collect();
            vensure!(got == want, "read_order", "oldest-to-newest read {got:?}, want {want:?}");
        }
        Ok(())
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        format!("buffers-{}-{}", self.caps[0], self.caps[1])
    }
    fn init(&self) -> S {
        let mut st = Store { m: Arc::new(Map::new()), dirty: false };
        let e = BufferManager::new(&st, A).is_err();
        assert!(e, "manager on an uninitialised buffer");
        for (b, c) in [false, true].into_iter().zip(self.caps) {
            BufferManager::init(&mut st, iface(b), c).unwrap();
            assert!(BufferManager::init(&mut st, iface(b), c + 1).is_err(), "second init accepted");
        }
        S { m: st.m, r: self.caps.map(|c| Ref { cap: c, head: 0, slots: vec![None; c as usize] }), n: 0 }
    }
    fn ops(&self, _: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        for buf in [false, true] {
            let c = self.caps[buf as usize];
            for a in (0..=c + 1).chain([2 * c + 1]) {
                for many in [false, true] {
                    v.push(Op::Batch { buf, a, b: 0, many, commit: true });
                    for b in [1, c] {
                        for commit in [false, true] {
                            v.push(Op::Batch { buf, a, b, many, commit });
                        }
                    }
                }
            }
            for n in 1..=c + 1 {
                v.push(Op::Instant { buf, n });
            }
            v.push(Op::Clear { buf });
        }
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let mut st = Store { m: s.m.clone(), dirty: false };
        let mut next = || {
            n.n = (n.n + 1) % self.values;
            n.n
        };
        match *op {
            Op::Batch { buf, a, b, many, commit } => {
                let va: Vec<u64> = (0..a).map(|_| next()).collect();
                let vb: Vec<u64> = (0..b).map(|_| next()).collect();
                let mut m = BufferManager::new(&st, iface(buf)).map_err(|e| e.to_string())?;
                let r = &mut n.r[buf as usize];
                if many {
                    m.push_many(&va)
                } else {
                    va.iter().for_each(|x| m.push(x))
                }
                m.commit(&mut st).map_err(|e| e.to_string())?;
                va.iter().for_each(|x| r.push(*x));
                vb.iter().for_each(|x| m.push(x));
                if commit {
                    m.commit(&mut st).map_err(|e| e.to_string())?;
                    vb.iter().for_each(|x| r.push(*x));
                } else {
                    drop(m);
                }
                cov.hit(if commit { "batch" } else { "batch-dropped" });
            }
            Op::Instant { buf, n: k } => {
                let va: Vec<u64> = (0..k).map(|_| next()).collect();
                let mut m = BufferManager::new(&st, iface(buf)).map_err(|e| e.to_string())?;
                for x in &va {
                    m.instant_push(&mut st, x).map_err(|e| e.to_string())?;
                }
                va.iter().for_each(|x| n.r[buf as usize].push(*x));
                cov.hit("instant");
            }
            Op::Clear { buf } => {
                BufferManager::new(&st, iface(buf)).map_err(|e| e.to_string())?.clear_buffer(&mut st);
                n.r[buf as usize].slots.iter_mut().for_each(|x| *x = None);
                cov.hit("clear");
            }
        }
        n.m = st.m;
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        for (k, v) in s.m.iter() {
            h.bytes(k);
            h.bytes(v);
        }
        h.u64(s.n);
        h.done()
    }
    fn check(&self, s: &S, _: &mut Cov) -> Result<(), Viol> {
        self.reads(s)
    }
}
fn large(cap: &u32, cov: &mut Cov) -> Result<(), Viol> {
    // key encodings beyond one byte: push one at a time, watch the slots around the head
    let cap = *cap;
    let mut st = Store { m: Arc::new(Map::new()), dirty: false };
    BufferManager::init(&mut st, A, cap).map_err(|e| e.to_string())?;
    let total = 2 * cap as u64 + 10;
    for k in 0..total {
        let v = k * 3 + 1;
        let mut m = BufferManager::new(&st, A).map_err(|e| e.to_string())?;
        m.instant_push(&mut st, &v).map_err(|e| e.to_string())?;
        vensure!(m.read_last(&st).ok() == Some(Some(v)), "read_last", "after {k} pushes");
        cov.hit("push");
        for j in [0, 1, 2, cap as u64 - 1] {
            if j <= k {
                let got = m.read_single(&st, ((k - j) % cap as u64) as u32).map_err(|e| e.to_string())?;
                vensure!(got == Some((k - j) * 3 + 1), "read_single", "value {j} back after {k} pushes: {got:?}");
            }
        }
    }
    let m = BufferManager::new(&st, A).map_err(|e| e.to_string())?;
    let all = m.read_all(&st).map_err(|e| e.to_string())?;
    vensure!(all.len() == cap as usize, "read_all", "{} values of {cap}", all.len());
    let keys = st.range(None, None, cosmwasm_std::Order::Ascending).count();
    vensure!(keys == cap as usize + 1, "slots", "{keys} storage entries for capacity {cap}");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "J01",
        scenarios: |t| {
            let mut v = vec![];
            for caps in if t { vec![[1, 1], [2, 1], [3, 2], [4, 2], [5, 1], [7, 1]] } else { vec![[1, 1], [2, 1], [3, 2], [4, 1]] } {
                v.push(bounded(M { caps, values: 2 * caps[0].max(caps[1]) as u64 + 2 }, if t { 6 } else { 4 }));
            }
            v.push(grid("large-capacities", if t { vec![255, 256, 257, 300, 1000, 3000, 70000] } else { vec![255, 256, 257, 300, 1000] }, large));
            v
        },
        assumptions: &["values are drawn from a cyclic range larger than twice the capacity, so that an overwritten value is always distinguishable from its successor"],
    }]
}
