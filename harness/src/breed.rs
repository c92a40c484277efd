//! Recombining generated cases, knowing nothing of them but their serialized form.
//!
//! Where a value stands in a case tells which generator made it, so a value from the same place of another case may stand
//! there too, and an array whose length has been seen to vary is a sequence, which may be cut, extended and spliced
//! within the lengths seen.

use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub struct Dice(u64);
impl Dice {
    pub fn new(seed: u64) -> Dice {
        Dice(seed | 1)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ self.0 >> 29;
        (x >> 16) as usize % n.max(1)
    }
}

type Place = u64;
const ROOT: Place = 0xcbf29ce484222325;
const MANY: usize = 48;

fn under(p: Place, key: &[u8]) -> Place {
    let mut h = p ^ 0x9E3779B97F4A7C15;
    for b in key {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ h >> 31
}

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    At(usize),
}
type Path = Vec<Step>;

fn reach<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &mut v[k.as_str()],
        Step::At(i) => &mut v[*i],
    })
}

#[derive(Default)]
struct Pool {
    values: Vec<Value>,
    seen: u64,
    lens: Option<(usize, usize)>,
}

#[derive(Default)]
pub struct Grammar {
    sequences: HashSet<Place>,
    pools: HashMap<Place, Pool>,
}

impl Grammar {
    fn walk(&self, v: &Value, at: Place, path: &mut Path, f: &mut dyn FnMut(&Path, Place, &Value)) {
        f(path, at, v);
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    path.push(Step::Key(k.clone()));
                    self.walk(x, under(at, k.as_bytes()), path, f);
                    path.pop();
                }
            }
            Value::Array(a) => {
                let seq = self.sequences.contains(&at);
                for (i, x) in a.iter().enumerate() {
                    path.push(Step::At(i));
                    let p = if seq { under(at, b"*") } else { under(at, &[b'#', i as u8]) };
                    self.walk(x, p, path, f);
                    path.pop();
                }
            }
            _ => {}
        }
    }

    /// Find out what the sequences are, level by level, and fill the pools.
    pub fn learn(&mut self, cases: Vec<Value>) {
        loop {
            let mut lens: HashMap<Place, (usize, usize)> = HashMap::new();
            for c in &cases {
                self.walk(c, ROOT, &mut vec![], &mut |_, p, v| {
                    if let Value::Array(a) = v {
                        let e = lens.entry(p).or_insert((a.len(), a.len()));
                        *e = (e.0.min(a.len()), e.1.max(a.len()));
                    }
                });
            }
            let n = self.sequences.len();
            self.sequences.extend(lens.into_iter().filter(|(_, (lo, hi))| lo != hi).map(|e| e.0));
            if self.sequences.len() == n {
                break;
            }
        }
        let mut x = Dice::new(7);
        for c in &cases {
            self.see(c, &mut x);
        }
    }

    pub fn see(&mut self, c: &Value, x: &mut Dice) {
        let mut all = vec![];
        self.walk(c, ROOT, &mut vec![], &mut |_, p, v| all.push((p, v.clone())));
        for (p, v) in all {
            let pool = self.pools.entry(p).or_default();
            pool.seen += 1;
            if let Value::Array(a) = &v {
                let e = pool.lens.get_or_insert((a.len(), a.len()));
                *e = (e.0.min(a.len()), e.1.max(a.len()));
            }
            if pool.values.len() < MANY {
                pool.values.push(v)
            } else if (x.below(pool.seen as usize) as u64) < MANY as u64 || x.below(6) == 0 {
                let i = x.below(MANY);
                pool.values[i] = v;
            }
        }
    }

    fn some(&self, p: Place, x: &mut Dice) -> Option<Value> {
        let pool = self.pools.get(&p)?;
        Some(pool.values[x.below(pool.values.len())].clone())
    }

    /// The value of another case at such a place.
    fn of(&self, other: &Value, p: Place, x: &mut Dice) -> Option<Value> {
        let mut all = vec![];
        self.walk(other, ROOT, &mut vec![], &mut |path, q, _| {
            if p == q {
                all.push(path.clone())
            }
        });
        if all.is_empty() {
            return None;
        }
        let path = &all[x.below(all.len())];
        Some(reach(&mut other.clone(), path).clone())
    }

    fn nodes(&self, v: &Value) -> Vec<(Path, Place)> {
        let mut all = vec![];
        self.walk(v, ROOT, &mut vec![], &mut |path, p, _| all.push((path.clone(), p)));
        all
    }

    pub fn mutate(&self, v: &mut Value, other: &Value, x: &mut Dice) {
        let nodes = self.nodes(v);
        let seqs: Vec<_> = nodes.iter().filter(|n| self.sequences.contains(&n.1)).collect();
        if !seqs.is_empty() && x.below(2) == 0 {
            // the outer ones are what histories are made of
            let (i, j) = (x.below(seqs.len()), x.below(seqs.len()));
            let (path, p) = if seqs[i].0.len() <= seqs[j].0.len() { seqs[i] } else { seqs[j] };
            let (lo, hi) = self.pools.get(p).and_then(|q| q.lens).unwrap_or((0, 0));
            let theirs = if x.below(2) == 0 { self.of(other, *p, x) } else { None }.or_else(|| self.some(*p, x));
            let one = self.some(under(*p, b"*"), x);
            let a = match reach(v, path) {
                Value::Array(a) => a,
                _ => return,
            };
            let n = a.len();
            match x.below(5) {
                0 if n > lo => {
                    let m = 1 + x.below((n - lo).min(4));
                    let at = x.below(n - m + 1);
                    a.drain(at..at + m);
                }
                1 if n > 0 && n < hi => {
                    let m = 1 + x.below((hi - n).min(n).min(4));
                    let from = x.below(n - m + 1);
                    let part: Vec<Value> = a[from..from + m].to_vec();
                    let at = x.below(n + 1);
                    a.splice(at..at, part);
                }
                2 if n < hi => {
                    if let Some(e) = one {
                        a.insert(x.below(n + 1), e)
                    }
                }
                3 => {
                    if let Some(Value::Array(b)) = theirs {
                        let keep = x.below(n + 1);
                        let from = x.below(b.len() + 1);
                        let mut c: Vec<Value> = a[..keep].iter().chain(&b[from..]).cloned().collect();
                        c.truncate(hi);
                        if c.len() >= lo {
                            *a = c
                        }
                    }
                }
                _ if n > 1 => {
                    let (i, j) = (x.below(n), x.below(n));
                    a.swap(i, j)
                }
                _ => {}
            }
        } else if nodes.len() > 1 {
            let (path, p) = &nodes[1 + x.below(nodes.len() - 1)];
            let new = if x.below(4) == 0 { self.of(other, *p, x) } else { None }.or_else(|| self.some(*p, x));
            if let Some(new) = new {
                *reach(v, path) = new;
            }
        }
    }

    /// One round of making a case smaller while it stays what it is.
    pub fn smaller(&self, v: &mut Value, still: &mut dyn FnMut(&Value) -> bool) {
        let mut i = 0;
        loop {
            let nodes = self.nodes(v);
            if i >= nodes.len() {
                break;
            }
            let (path, p) = nodes[i].clone();
            let pool = self.pools.get(&p);
            if let (true, Some((lo, _))) = (self.sequences.contains(&p), pool.and_then(|q| q.lens)) {
                let mut m = reach(v, &path).as_array().map_or(0, |a| a.len());
                while m > 0 {
                    let mut at = 0;
                    loop {
                        let n = reach(v, &path).as_array().map_or(0, |a| a.len());
                        if at + m > n || n - m < lo {
                            break;
                        }
                        let mut w = v.clone();
                        if let Value::Array(a) = reach(&mut w, &path) {
                            a.drain(at..at + m);
                        }
                        if still(&w) {
                            *v = w
                        } else {
                            at += m
                        }
                    }
                    m /= 2;
                }
            } else if let Some(pool) = pool {
                let size = |v: &Value| {
                    let s = v.to_string();
                    (s.len(), s)
                };
                let now = size(reach(v, &path));
                let mut others: Vec<_> = pool.values.iter().map(|x| (size(x), x)).filter(|x| x.0 < now).collect();
                others.sort_by(|a, b| a.0.cmp(&b.0));
                others.dedup_by(|a, b| a.0 == b.0);
                for (_, o) in others.into_iter().take(5) {
                    let mut w = v.clone();
                    *reach(&mut w, &path) = o.clone();
                    if still(&w) {
                        *v = w;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
}
