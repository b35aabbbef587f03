//! Explicit state exploration of two filter slots.
use crate::ctx::{guard, Ctx, Res};
use crate::util::*;
use poppy_filters::{BloomFilter, Error};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Ins(usize, usize), // slot, key
    Uni(usize),        // dst <- dst | other
    Int(usize),        // dst <- dst & other
    Clr(usize),
    Rld(usize),
    Cpy(usize), // dst <- clone of other
}

pub enum Out {
    Bool(Result<bool, Error>),
    Unit(Result<(), Error>),
    Panic(String),
    Na,
}

#[derive(Clone)]
pub struct St {
    pub f: [BloomFilter; 2],
    pub must: [u32; 2],
    pub dh: [u128; 2],
}

pub struct World {
    pub cfg: Cfg,
    pub keys: Vec<Vec<u8>>,
    pub slots: usize,
    pub ops: Vec<Op>,
    pub limit: usize,
    /// whether states are told apart by fields the saved form does not show
    pub deep: bool,
}

/// The four representative keys: empty, short, 8 bytes with the same low 15 bits as the short one
/// (same first position in version 2), long.
pub fn std_keys() -> Vec<Vec<u8>> {
    vec![
        b"".to_vec(),
        b"a".to_vec(),
        vec![b'a', 0, 0x10, 7, 9, 1, 2, 3],
        b"a key longer than eight bytes".to_vec(),
    ]
}

impl World {
    pub fn new(cfg: Cfg, keys: Vec<Vec<u8>>, slots: usize) -> Self {
        let mut ops = vec![];
        for s in 0..slots {
            for k in 0..keys.len() {
                ops.push(Op::Ins(s, k));
            }
        }
        for s in 0..slots {
            ops.push(Op::Uni(s));
            if cfg.v == 2 {
                ops.push(Op::Int(s));
            }
            ops.push(Op::Clr(s));
            ops.push(Op::Rld(s));
            if slots == 2 {
                ops.push(Op::Cpy(s));
            }
        }
        let small = cfg.cap <= 1 || (cfg.cap == 2 && cfg.fpp == 0.01 && (cfg.v == 1 || cfg.opt == 3));
        let deep = !cfg!(debug_assertions) && (slots == 1 || small);
        World { cfg, keys, slots, ops, limit: 2_000_000, deep }
    }
    pub fn deeper(mut self, ctx: &Ctx) -> Self {
        self.deep |= !cfg!(debug_assertions) && !ctx.quick();
        self
    }
    pub fn init(&self) -> St {
        let f = [self.cfg.make(), self.cfg.make()];
        let dh = [dhash(&f[0], self.deep), dhash(&f[1], self.deep)];
        St { f, must: [0, 0], dh }
    }
    fn src(&self, d: usize) -> usize {
        if self.slots == 2 {
            1 - d
        } else {
            d
        }
    }
    /// Calls with the destination and the source of a merge.
    fn pair<T>(&self, f: &mut [BloomFilter; 2], d: usize, go: impl Fn(&mut BloomFilter, &BloomFilter) -> T) -> T {
        let [x, y] = f;
        match (self.slots, d) {
            (2, 0) => go(x, y),
            (2, _) => go(y, x),
            _ => {
                let o = f[d].clone();
                go(&mut f[d], &o)
            }
        }
    }
    /// Applies an operation to a copy of the state.
    pub fn apply(&self, s: &St, op: Op) -> (St, Out) {
        let mut n = s.clone();
        let r = guard(|| match op {
            Op::Ins(d, k) => {
                let r = n.f[d].insert_bytes(&self.keys[k]);
                if r.is_ok() {
                    n.must[d] |= 1 << k;
                }
                Out::Bool(r)
            }
            Op::Uni(d) => {
                let r = self.pair(&mut n.f, d, |x, o| x.union_merge(o));
                if r.is_ok() {
                    n.must[d] |= n.must[self.src(d)];
                }
                Out::Unit(r)
            }
            Op::Int(d) => {
                match self.pair(&mut n.f, d, intersect) {
                    None => Out::Na,
                    Some(r) => {
                        if r.is_ok() {
                            n.must[d] &= n.must[self.src(d)];
                        }
                        Out::Unit(r)
                    }
                }
            }
            Op::Clr(d) => {
                n.f[d].clear();
                n.must[d] = 0;
                Out::Unit(Ok(()))
            }
            Op::Rld(d) => {
                let mut b = vec![];
                let r = n.f[d].write(&mut b).and_then(|_| load(&b));
                Out::Unit(match r {
                    Ok(x) => {
                        n.f[d] = x;
                        Ok(())
                    }
                    Err(e) => Err(e),
                })
            }
            Op::Cpy(d) => {
                n.f[d] = n.f[self.src(d)].clone();
                n.must[d] = n.must[self.src(d)];
                Out::Unit(Ok(()))
            }
        });
        let out = match r {
            Ok(o) => o,
            Err(m) => return (s.clone(), Out::Panic(m)),
        };
        let d = match op {
            Op::Ins(d, _) | Op::Uni(d) | Op::Int(d) | Op::Clr(d) | Op::Rld(d) | Op::Cpy(d) => d,
        };
        n.dh[d] = dhash(&n.f[d], self.deep);
        (n, out)
    }
    pub fn op_name(&self, op: Op) -> String {
        let sl = |s: usize| ["A", "B"][s];
        match op {
            Op::Ins(d, k) => format!("{}.insert({})", sl(d), hex(&self.keys[k])),
            Op::Uni(d) => format!("{}.union({})", sl(d), sl(self.src(d))),
            Op::Int(d) => format!("{}.intersection({})", sl(d), sl(self.src(d))),
            Op::Clr(d) => format!("{}.clear", sl(d)),
            Op::Rld(d) => format!("{}.reload", sl(d)),
            Op::Cpy(d) => format!("{}=copy({})", sl(d), sl(self.src(d))),
        }
    }
    /// Breadth first search. `step` judges each transition, `state` each new state.
    pub fn explore(
        &self,
        ctx: &Ctx,
        mut state: impl FnMut(&St) -> Res,
        mut step: impl FnMut(&St, Op, &Out, &St) -> Res,
    ) -> Res {
        // states are kept whole only while on the frontier; their trace is a parent chain
        let mut seen: HashMap<(u128, u128, u32, u32), u32> = HashMap::new();
        let mut parent: Vec<(u32, Op)> = vec![];
        let trace = |parent: &Vec<(u32, Op)>, mut i: u32| {
            let mut t = vec![];
            while i != 0 {
                let (p, o) = parent[i as usize];
                t.push(self.op_name(o));
                i = p;
            }
            t.reverse();
            t.join("; ")
        };
        let key = |s: &St| (s.dh[0], s.dh[1], s.must[0], s.must[1]);
        let s0 = self.init();
        seen.insert(key(&s0), 0);
        parent.push((0, Op::Clr(0)));
        state(&s0).map_err(|e| format!("initial state: {e}"))?;
        let mut frontier = vec![(0u32, s0)];
        let (mut tr, mut depth) = (0u64, 0u64);
        let mut res = Ok(());
        'bfs: while !frontier.is_empty() {
            let mut next = vec![];
            for (i, s) in &frontier {
                ctx.beat();
                for op in &self.ops {
                    let (n, out) = self.apply(s, *op);
                    if let Out::Na = out {
                        continue;
                    }
                    tr += 1;
                    if let Err(e) = step(s, *op, &out, &n) {
                        res = Err(format!("after [{}], {}: {e}", trace(&parent, *i), self.op_name(*op)));
                        break 'bfs;
                    }
                    if let Out::Panic(_) = out {
                        continue;
                    }
                    let k = key(&n);
                    if let std::collections::hash_map::Entry::Vacant(v) = seen.entry(k) {
                        let id = parent.len() as u32;
                        v.insert(id);
                        parent.push((*i, *op));
                        if let Err(e) = state(&n) {
                            res = Err(format!("after [{}]: {e}", trace(&parent, id)));
                            break 'bfs;
                        }
                        if parent.len() >= self.limit || ctx.late() {
                            ctx.add("capped", 1);
                            break 'bfs;
                        }
                        next.push((id, n));
                    }
                }
                if ctx.stopped() {
                    break 'bfs;
                }
            }
            frontier = next;
            depth += 1;
        }
        ctx.add("states", parent.len() as u64);
        ctx.add("transitions", tr);
        ctx.add("traces", tr);
        ctx.add("evaluations", tr);
        ctx.sample(format!("{}: {} states, {} transitions, depth {}, e.g. [{}]", self.cfg.name(), parent.len(), tr, depth, trace(&parent, parent.len() as u32 - 1)));
        res
    }
}

/// Configurations of the two slot state space.
pub fn grid(thorough: bool) -> Vec<Cfg> {
    let mut g = vec![];
    for (v, o) in KINDS {
        for cap in [0usize, 1, 2, 3] {
            for fpp in [0.5, 0.01] {
                g.push(cfg(v, o, cap, fpp));
            }
        }
        g.push(cfg(v, o, 2, 1.0));
        // several buckets, about 22 entries each
        if v == 2 {
            g.push(cfg(v, o, 23, 1e-300));
            g.push(cfg(v, o, 45, 1e-300));
        } else {
            g.push(cfg(v, o, 10, 1e-30));
        }
        for cap in [4usize, 5, 8, 9] {
            for fpp in [0.9, 0.3, 0.001] {
                g.push(cfg(v, o, cap, fpp));
            }
        }
        if thorough {
            for cap in [6usize, 7, 10, 16, 17, 22] {
                for fpp in [0.99, 0.2, 1e-4, 1e-12] {
                    g.push(cfg(v, o, cap, fpp));
                }
            }
        }
    }
    g
}
