//! Container histories against plain models.
use super::*;
use crate::bad;
use expander_compiler::utils::{bucket_sort::bucket_sort, function_id::get_function_id, heap, misc, pool::Pool, static_hash_map::StaticHashMap, union_find::UnionFind};
use simrt::{choose, choose_usize, entropy, flip, range};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const P: &str = "C16";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 400_000,
        thorough: 100_000_000,
        scens: vec![
            scen("static_map", 4, quiet, static_map),
            scen("pool", 3, quiet, pool),
            scen("heap", 3, quiet, heap_history),
            scen("bucket_sort", 3, quiet, buckets),
            scen("union_find", 3, quiet, union_find),
            scen("topo_order", 4, quiet, topo),
            scen("powers", 1, quiet, powers),
        ],
        rule: "one run = one seeded history of operations on one container, compared after every \
               operation with a plain model; hash seeds and random draws come from the simulator. \
               Non-trivial = the model comparison was reached.",
        real: "expander_compiler::utils (real code, unmodified)",
        stub: "getrandom (seeded by the simulator)",
        parallel: false,
    }
}

fn key(class: u64) -> usize {
    const M: usize = 1_000_000_007;
    match class {
        0 => choose_usize(64),
        1 => choose_usize(4000),
        2 => entropy() as usize,
        3 => choose_usize(40) + M * choose_usize(1 << 33),
        4 => choose_usize(8) * M,
        5 => usize::MAX - choose_usize(50),
        _ => 1usize << choose(64),
    }
}
fn static_map() {
    let n = match choose(8) {
        0..=3 => range(0, 12),
        4..=6 => range(0, 150),
        _ => range(0, 1200),
    };
    let mut seen = BTreeSet::new();
    let mut keys = vec![];
    let mixed = flip(500);
    let cl = choose(7);
    for _ in 0..n {
        let k = key(if mixed { choose(7) } else { cl });
        if seen.insert(k) {
            keys.push(k);
        }
    }
    simrt::log(|| format!("keys {keys:?}"));
    let t = StaticHashMap::new(&keys);
    let t2 = if flip(200) { Some(StaticHashMap::new(&keys)) } else { None };
    for (i, k) in keys.iter().enumerate() {
        let g = t.get(*k);
        if g != i {
            bad!(P, "static_map.value: key {k} stored with {i} reads {g} among {} keys", keys.len());
            return;
        }
        if let Some(t2) = &t2 {
            if t2.get(*k) != i {
                bad!(P, "static_map.value: key {k} stored with {i} reads {} in a second table", t2.get(*k));
            }
        }
    }
    if !keys.is_empty() {
        oracle();
    }
}

fn pool() {
    let mut p: Pool<Vec<usize>> = if flip(500) { Pool::new() } else { Pool::default() };
    let mut m: Vec<Vec<usize>> = vec![];
    let val = || (0..choose_usize(4)).map(|_| choose_usize(5)).collect::<Vec<usize>>();
    let steps = range(1, 120);
    for _ in 0..steps {
        let v = val();
        let at = m.iter().position(|x| *x == v);
        match choose(6) {
            0..=2 => {
                let want = at.unwrap_or(m.len());
                if at.is_none() {
                    m.push(v.clone());
                }
                let g = p.add(&v);
                if g != want {
                    bad!(P, "pool.add: {v:?} got index {g}, expected {want}");
                }
            }
            3 => {
                if p.try_get_idx(&v) != at {
                    bad!(P, "pool.try_get_idx: {v:?} gives {:?}, expected {at:?}", p.try_get_idx(&v));
                }
                if let Some(a) = at {
                    if p.get_idx(&v) != a {
                        bad!(P, "pool.get_idx: {v:?} gives {}, expected {a}", p.get_idx(&v));
                    }
                }
            }
            4 => {
                if !m.is_empty() {
                    let i = choose_usize(m.len());
                    if *p.get(i) != m[i] {
                        bad!(P, "pool.get: index {i} holds {:?}, expected {:?}", p.get(i), m[i]);
                    }
                }
            }
            _ => {
                if flip(300) {
                    p = p.clone();
                }
            }
        }
        if p.len() != m.len() || p.is_empty() != m.is_empty() || *p.vec() != m {
            bad!(P, "pool.vec: {:?}, expected {m:?}", p.vec());
            return;
        }
        let ok = p.map().len() == m.len() && m.iter().enumerate().all(|(i, v)| p.map().get(v) == Some(&i));
        if !ok {
            bad!(P, "pool.map: {:?} does not index {m:?}", p.map());
            return;
        }
        oracle();
    }
}

fn heap_history() {
    let rank: Vec<u64> = (0..64).map(|_| choose(if flip(500) { 6 } else { 1000 })).collect();
    let down = flip(500);
    let cmp = |a: usize, b: usize| -> Ordering {
        let o = rank[a].cmp(&rank[b]);
        if down {
            o.reverse()
        } else {
            o
        }
    };
    let mut h: Vec<usize> = vec![];
    let mut m: Vec<usize> = vec![];
    for _ in 0..range(1, 300) {
        if flip(550) {
            let x = choose_usize(64);
            heap::push(&mut h, x, cmp);
            m.push(x);
        } else {
            let g = heap::pop(&mut h, cmp);
            match g {
                None => {
                    if !m.is_empty() {
                        bad!(P, "heap.pop: nothing returned, {} elements are stored", m.len());
                        return;
                    }
                }
                Some(x) => {
                    let Some(i) = m.iter().position(|y| *y == x) else {
                        bad!(P, "heap.pop: {x} returned but not stored");
                        return;
                    };
                    if m.iter().any(|y| cmp(*y, x) == Ordering::Less) {
                        bad!(P, "heap.order: {x} (rank {}) returned before a smaller element", rank[x]);
                        return;
                    }
                    m.swap_remove(i);
                    oracle();
                }
            }
        }
        if h.len() != m.len() {
            bad!(P, "heap.len: {} stored, expected {}", h.len(), m.len());
            return;
        }
    }
    // what is left comes out in order
    let mut last: Option<usize> = None;
    while let Some(x) = heap::pop(&mut h, cmp) {
        if let Some(l) = last {
            if cmp(x, l) == Ordering::Less {
                bad!(P, "heap.order: {x} after {l} while draining");
                return;
            }
        }
        last = Some(x);
    }
}

fn buckets() {
    let m = range(0, 40);
    let n = if m == 0 { 0 } else { [range(0, 8), range(0, 200)][choose_usize(2)] };
    let arr: Vec<(usize, usize)> = (0..n).map(|i| (choose_usize(m), i)).collect();
    let (s, start) = bucket_sort(arr.clone(), |x| x.0, m);
    let mut want = arr.clone();
    want.sort_by_key(|x| x.0);
    if s != want {
        bad!(P, "bucket_sort.order: {s:?}, expected the stable order {want:?}");
    }
    let ws: Vec<usize> = (0..m).map(|b| arr.iter().filter(|x| x.0 < b).count()).collect();
    if start != ws {
        bad!(P, "bucket_sort.starts: {start:?}, expected {ws:?}");
    }
    // equal keys by another component: two-pass radix order, as the optimiser uses it
    let arr2: Vec<(usize, usize)> = arr.iter().map(|x| (x.0, choose_usize(m.max(1)))).collect();
    let (a, _) = bucket_sort(arr2.clone(), |x| x.1, m.max(1));
    let (b, _) = bucket_sort(a, |x| x.0, m.max(1));
    let mut want = arr2;
    want.sort();
    if b != want {
        bad!(P, "bucket_sort.radix: {b:?}, expected {want:?}");
    }
    if n > 0 {
        oracle();
    }
}

fn union_find() {
    let n = range(1, 60);
    let mut u = UnionFind::new(n);
    let mut m: Vec<usize> = (0..n).collect();
    for _ in 0..range(1, 120) {
        let (x, y) = (choose_usize(n), choose_usize(n));
        if flip(450) {
            u.union(x, y);
            let (a, b) = (m[x], m[y]);
            m.iter_mut().for_each(|v| {
                if *v == a {
                    *v = b
                }
            });
        } else {
            let (a, b) = (u.find(x), u.find(y));
            if (a == b) != (m[x] == m[y]) {
                bad!(P, "union_find.same: {x} and {y}: {} but model says {}", a == b, m[x] == m[y]);
                return;
            }
            if a >= n || m[a] != m[x] {
                bad!(P, "union_find.member: representative {a} is not in the set of {x}");
                return;
            }
            if u.find(a) != a || u.find(x) != a {
                bad!(P, "union_find.stable: representative of {x} changes without a union");
                return;
            }
            oracle();
        }
    }
}

fn topo() {
    let n = range(0, 24);
    let scale = [1usize, 1, 7919, 1 << 40][choose_usize(4)];
    let ids: Vec<usize> = (0..n).map(|i| i * scale + 3).collect();
    let dag = flip(600);
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        perm.swap(i, choose_usize(i + 1));
    }
    let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new();
    let ne = if n == 0 { 0 } else { choose_usize(3 * n) };
    for _ in 0..ne {
        let (mut a, mut b) = (choose_usize(n), choose_usize(n));
        if dag {
            if a == b {
                continue;
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        edges.entry(ids[perm[a]]).or_default().insert(ids[perm[b]]);
    }
    if flip(500) {
        for i in &ids {
            edges.entry(*i).or_default();
        }
    }
    let vs: HashSet<usize> = ids.iter().copied().collect();
    // reference: repeated removal of sources
    let mut left: BTreeSet<usize> = ids.iter().copied().collect();
    loop {
        let free: Vec<usize> =
            left.iter().copied().filter(|v| !left.iter().any(|u| edges.get(u).is_some_and(|s| s.contains(v)))).collect();
        if free.is_empty() {
            break;
        }
        for f in free {
            left.remove(&f);
        }
    }
    let is_dag = left.is_empty();
    let (order, got) = misc::topo_order_and_is_dag(&vs, &edges);
    if got != is_dag {
        bad!(P, "topo.is_dag: {got}, expected {is_dag} for {edges:?}");
        return;
    }
    let pos: BTreeMap<usize, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    if pos.len() != order.len() || order.iter().any(|v| !vs.contains(v)) {
        bad!(P, "topo.once: {order:?} repeats a vertex or invents one");
        return;
    }
    if is_dag {
        for o in [order, misc::topo_order(&vs, &edges)] {
            if o.len() != n {
                bad!(P, "topo.all: {o:?} lacks vertices of {ids:?}");
                return;
            }
            let pos: BTreeMap<usize, usize> = o.iter().enumerate().map(|(i, v)| (*v, i)).collect();
            for (a, s) in &edges {
                for b in s {
                    if pos[a] >= pos[b] {
                        bad!(P, "topo.order: edge {a}->{b} is not respected by {o:?}");
                        return;
                    }
                }
            }
        }
    }
    if n > 1 {
        oracle();
    }
}

fn powers() {
    let mut xs = vec![0usize, 1, 2, 3];
    for _ in 0..40 {
        let b = choose(62);
        let d = choose_usize(3);
        xs.push((1usize << b) + d);
        xs.push((1usize << b).saturating_sub(d));
        xs.push((entropy() >> 2) as usize >> choose(60));
    }
    for x in xs {
        let want = x.max(1).next_power_of_two();
        if misc::next_power_of_two(x) != want {
            bad!(P, "next_power_of_two: {x} gives {}, expected {want}", misc::next_power_of_two(x));
        }
        let want = if x == 0 { 0 } else { 1usize << x.ilog2() };
        if misc::prev_power_of_two(x) != want {
            bad!(P, "prev_power_of_two: {x} gives {}, expected {want}", misc::prev_power_of_two(x));
        }
    }
    let ids = [
        get_function_id::<u8>(),
        get_function_id::<u16>(),
        get_function_id::<Vec<u8>>(),
        get_function_id::<fn(u8)>(),
        get_function_id::<fn(u16)>(),
        get_function_id::<String>(),
    ];
    let again = [get_function_id::<u8>(), get_function_id::<u16>(), get_function_id::<Vec<u8>>()];
    if ids[..3] != again {
        bad!(P, "function_id.stable: {ids:?} then {again:?}");
    }
    if ids.iter().collect::<BTreeSet<_>>().len() != ids.len() {
        bad!(P, "function_id.distinct: {ids:?}");
    }
    oracle();
}
