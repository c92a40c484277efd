//! C14: thread-shared trees can be read and forked across threads.

use palmtree::{SyncShared, Tree64, TreeConfig};
use palmtree_verif::shared::{live, AK, AV};
use palmtree_verif::world::*;
use palmtree_verif::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    /// change, consume, merge, clone or drop this thread's own trees
    Own(Act),
    /// clone and drop one of its own, over and over
    Churn(u8, u8),
    /// clone and drop the common original
    ChurnRef(u8),
    /// take another clone of the original
    Refork,
    /// read the common original
    ReadRef(u8),
    /// read its own
    ReadOwn(u8, u8),
    Yield,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    recipe: Recipe,
    threads: Vec<Vec<Do>>,
    /// the original stays and is seen by all, or goes away while they run
    keep: bool,
}

type T<C> = Ctx<AK, AV, C>;

/// Whether something may cross threads is another property's business.
struct Carry<X>(X);
unsafe impl<X> Send for Carry<X> {}
unsafe impl<X> Sync for Carry<X> {}
impl<X> Carry<X> {
    fn into(self) -> X {
        self.0
    }
    fn get(&self) -> &X {
        &self.0
    }
}

fn copy<C: TreeConfig<AK, AV> + Sizes>(c: &T<C>, tick: u32) -> T<C> {
    refuel(2 * c.model.len());
    Ctx { tree: c.tree.clone(), model: c.model.clone(), ghosts: c.ghosts.clone(), tick, strict: true, ..*c }
}

fn read<C: TreeConfig<AK, AV> + Sizes>(c: &T<C>, how: u8) -> R {
    refuel(2 * c.model.len());
    match how % 4 {
        0 => c.audit_get(false),
        1 => c.audit_iter(),
        2 => {
            // some lookups only
            let step = c.model.len() / 16 + 1;
            for (k, e) in c.model.iter().skip(how as usize / 4).step_by(step) {
                same!(c.tree.get(&AK::new(*k, 0)).map(|v| v.x()), Some(e.1), "lookup of {}", k);
            }
            Ok(())
        }
        _ => {
            let from = c.model.keys().nth(c.model.len() * (how as usize / 4) / 64).copied().unwrap_or(0);
            let key = AK::new(from, 0);
            let got: Vec<_> = c.tree.range(&key..).map(|(k, v)| (k.n(), v.x())).collect();
            let want: Vec<_> = c.model.range(from..).map(|(k, e)| (*k, e.1)).collect();
            same!(got, want, "range from {}", from);
            Ok(())
        }
    }
}

fn thread<C: TreeConfig<AK, AV> + Sizes>(me: usize, own: Option<T<C>>, orig: Option<&T<C>>, script: &[Do], gate: &Barrier) -> R {
    gate.wait();
    let mut tick = 200_000_000 * (me as u32 + 1);
    let own = match (own, orig) {
        (Some(c), _) => c,
        (None, Some(o)) => copy(o, tick),
        _ => unreachable!(),
    };
    let mut w = World::new(own, false);
    w.next = tick + 50_000_000;
    for (i, d) in script.iter().enumerate() {
        let r = match d {
            Do::Own(a) => w.act(a),
            Do::Churn(j, n) => {
                let j = *j as usize % w.all.len();
                let t = &w.all[j].tree;
                refuel(2 * w.all[j].model.len());
                for _ in 0..*n {
                    drop(t.clone());
                }
                Ok(())
            }
            Do::ChurnRef(n) => {
                if let Some(o) = orig {
                    refuel(2 * o.model.len());
                    for _ in 0..*n {
                        drop(o.tree.clone());
                    }
                }
                Ok(())
            }
            Do::Refork => {
                if let Some(o) = orig {
                    tick += 5_000_000;
                    let c = copy(o, tick);
                    if w.all.len() < 5 {
                        w.all.push(c)
                    } else {
                        w.all[0] = c
                    }
                }
                Ok(())
            }
            Do::ReadRef(how) => match orig {
                Some(o) => read(o, *how).map_err(|e| format!("reading the original: {}", e)),
                None => Ok(()),
            },
            Do::ReadOwn(j, how) => {
                let j = *j as usize % w.all.len();
                read(&w.all[j], *how)
            }
            Do::Yield => {
                std::thread::yield_now();
                Ok(())
            }
        };
        r.map_err(|e| format!("thread {} step {} {:?}: {}", me, i, d, e))?;
    }
    w.audit(true).map_err(|e| format!("thread {} in the end: {}", me, e))?;
    for c in &w.all {
        refuel(2 * c.model.len());
    }
    drop(w);
    Ok(())
}

fn run<C: TreeConfig<AK, AV> + Sizes>(case: &Case, st: &mut Stats, max: usize) -> R {
    let before = live();
    let mut size = 0;
    (|| -> R {
        let orig = Ctx::<AK, AV, C>::from_recipe(&case.recipe, max, true)?;
        size = orig.model.len();
        let gate = Barrier::new(case.threads.len() + 1);
        let mut owned: Vec<Option<Carry<T<C>>>> = (0..case.threads.len())
            .map(|i| if case.keep && i % 2 == 0 { None } else { Some(Carry(copy(&orig, 200_000_000 * (i as u32 + 1)))) })
            .collect();
        let results = if case.keep {
            let shared = Carry(&orig);
            let shared = &shared;
            std::thread::scope(|s| {
                let hs: Vec<_> = case
                    .threads
                    .iter()
                    .zip(owned.drain(..))
                    .enumerate()
                    .map(|(i, (script, own))| {
                        let gate = &gate;
                        s.spawn(move || {
                            catch(|| thread::<C>(i, own.map(|c| c.into()), Some(*shared.get()), script, gate))
                        })
                    })
                    .collect();
                gate.wait();
                let r = read(&orig, 1).map_err(|e| format!("the original meanwhile: {}", e));
                let mut rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                rs.push(Ok(r));
                rs.push(Ok(orig.audit_get(false).and_then(|_| orig.audit_iter()).map_err(|e| format!("the original afterwards: {}", e))));
                rs
            })
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = case
                    .threads
                    .iter()
                    .zip(owned.drain(..))
                    .enumerate()
                    .map(|(i, (script, own))| {
                        let gate = &gate;
                        s.spawn(move || catch(|| thread::<C>(i, own.map(|c| c.into()), None, script, gate)))
                    })
                    .collect();
                gate.wait();
                drop(orig);
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        };
        for r in results {
            match r {
                Ok(r) => r?,
                Err(p) => return Err(format!("panic in a thread: {}", p)),
            }
        }
        Ok(())
    })()?;
    let after = live();
    if after != before {
        return Err(format!(
            "{} keys and {} values are left after everything was dropped",
            after.0 - before.0,
            after.1 - before.1
        ));
    }
    let steps: usize = case.threads.iter().map(|t| t.len()).sum();
    st.nontrivial = size > C::L && case.threads.len() > 1 && steps > 3;
    st.class(if case.keep { "original shared by reference" } else { "original dropped meanwhile" });
    st.class_if(case.threads.len() > 2, "three or more threads");
    st.class_if(size > C::L * C::B, "three or more levels");
    st.max("entries", size as u64);
    st.add("threads", case.threads.len() as u64);
    st.add("steps", steps as u64);
    Ok(())
}

fn some_do() -> BoxedStrategy<Do> {
    let i = || any::<u8>();
    prop_oneof![
        6 => act().prop_map(Do::Own),
        4 => (i(), mutation()).prop_map(|(i, m)| Do::Own(Act::Mutate(i, m))),
        2 => (i(), 1u8..100).prop_map(|(i, n)| Do::Churn(i, n)),
        2 => (1u8..100).prop_map(Do::ChurnRef),
        3 => Just(Do::Refork),
        4 => i().prop_map(Do::ReadRef),
        2 => (i(), i()).prop_map(|(i, h)| Do::ReadOwn(i, h)),
        1 => Just(Do::Yield),
    ]
    .boxed()
}

impl Prop for C14 {
    const ID: &'static str = "C14";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 10 } else { 24 };
        let script = vec(some_do(), 1..=n);
        // Sometimes all threads do the same, so that they meet.
        let threads = prop_oneof![
            2 => vec(script.clone(), 2..=4),
            1 => (script, 2usize..=4).prop_map(|(s, k)| vec![s; k]),
        ];
        (prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], recipe(3), threads, prop_oneof![2 => Just(true), 1 => Just(false)])
            .prop_map(|(cfg, recipe, threads, keep)| Case { cfg, recipe, threads, keep })
            .boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        match case.cfg {
            0 => run::<L4B4<SyncShared>>(case, st, 500),
            1 => run::<L5B4<SyncShared>>(case, st, 500),
            _ => run::<Tree64<SyncShared>>(case, st, 3000),
        }
    }
}

fn main() {
    palmtree_verif::main::<C14>()
}
