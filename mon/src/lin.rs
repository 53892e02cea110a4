//! Linearizability of one register history (set/get/del, unique values), Wing-Gong search with memoisation.
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum K {
    Set(u64),
    Get(Option<u64>),
    Del,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub inv: u64,
    pub ret: u64,
    pub k: K,
}
/// Ok(true/false), or Err(()) when the step budget ran out.
pub fn register(ops: &[Op], budget: u64) -> Result<bool, ()> {
    let n = ops.len();
    assert!(n <= 128);
    let mut ops = ops.to_vec();
    ops.sort_by_key(|o| o.inv);
    let full: u128 = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let mut seen: HashSet<(u128, Option<u64>)> = HashSet::new();
    let mut stack: Vec<(u128, Option<u64>)> = vec![(0, None)];
    let mut steps = 0;
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            return Ok(true);
        }
        steps += 1;
        if steps > budget {
            return Err(());
        }
        // an operation may come next if no other pending one returned before it was invoked
        let mut min_ret = u64::MAX;
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 0 {
                min_ret = min_ret.min(o.ret);
            }
        }
        let mut cand = Vec::new();
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 1 {
                continue;
            }
            if o.inv > min_ret {
                break;
            }
            let ns = match &o.k {
                K::Set(v) => Some(*v),
                K::Del => None,
                K::Get(r) => {
                    if *r != st {
                        continue;
                    }
                    // a read consistent with the current state can always be taken first
                    cand.clear();
                    cand.push((mask | 1 << i, st));
                    break;
                }
            };
            cand.push((mask | 1 << i, ns));
        }
        for c in cand {
            if seen.insert(c) {
                stack.push(c);
            }
        }
    }
    Ok(false)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn o(inv: u64, ret: u64, k: K) -> Op {
        Op { inv, ret, k }
    }
    #[test]
    fn basic() {
        assert_eq!(register(&[o(1, 2, K::Set(1)), o(3, 4, K::Get(Some(1)))], 1000), Ok(true));
        assert_eq!(register(&[o(1, 2, K::Set(1)), o(3, 4, K::Get(None))], 1000), Ok(false));
        assert_eq!(register(&[o(1, 5, K::Set(1)), o(2, 3, K::Get(None)), o(4, 6, K::Get(Some(1)))], 1000), Ok(true));
        assert_eq!(register(&[o(1, 9, K::Set(1)), o(2, 3, K::Get(Some(1))), o(4, 5, K::Get(None))], 1000), Ok(false));
        assert_eq!(register(&[o(1, 2, K::Set(1)), o(3, 9, K::Set(2)), o(4, 5, K::Get(Some(2))), o(6, 7, K::Get(Some(1)))], 1000), Ok(false));
    }
}
