//! Comparison, hashing, ordered collections.

use crate::big::Big;
use crate::out::{arg, val, Out, Push};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn list<T: Push>(l: &[T]) -> Out {
    let mut v = Vec::new();
    for x in l {
        x.push(&mut v);
    }
    Out::V(v)
}

/// Without the automatic dereferencing of method calls.
fn opaque<T: Ord>(x: &T, y: &T) -> core::cmp::Ordering {
    x.cmp(y)
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        let c = || arg::<$t>($args, 2);
        let all = || -> Vec<$t> { (0..$args.len()).map(|i| arg::<$t>($args, i)).collect() };
        // the value of a, computed in a roundabout way from b and c
        let other = || -> $t {
            let x = a().wrapping_sub(b()).wrapping_mul(<$t>::from_u8(1)).wrapping_add(b());
            let y = !(!x ^ c()) ^ c();
            !!y.rotate_left(13).rotate_right(13)
        };
        Some(match ($form, $op) {
            ("op", "eq") => val(a() == b()),
            ("op", "ne") => val(a() != b()),
            ("op", "lt") => val(a() < b()),
            ("op", "le") => val(a() <= b()),
            ("op", "gt") => val(a() > b()),
            ("op", "ge") => val(a() >= b()),
            ("const", "eq") => val(a().eq_const(b())),
            ("branched", "eq") => val(a().eq_branched(b())),
            ("const", "lt") => val(a().lt_const(b())),
            ("const", "le") => val(a().le_const(b())),
            ("const", "gt") => val(a().gt_const(b())),
            ("const", "ge") => val(a().ge_const(b())),
            ("const", "cmp") => val(a().cmp_const(b())),
            ("op", "cmp") => val(opaque(&a(), &b())),
            ("op", "partial_cmp") => match a().partial_cmp(&b()) {
                Some(o) => val(o),
                None => Out::Nothing,
            },
            ("op", "min") => val(core::cmp::min(a(), b())),
            ("op", "max") => val(core::cmp::max(a(), b())),
            ("op", "clamp") => val(Ord::clamp(a(), b(), c())),
            ("roundabout", "eq") => val(a() == other() && a().eq_const(other()) && a().eq_branched(other())),
            ("roundabout", "hash") => val(hash(&a()) == hash(&other())),
            ("hash", "agrees with eq") => val(a() != b() || hash(&a()) == hash(&b())),
            ("collection", "sort") => list(&{ let mut v = all(); v.sort(); v }),
            ("collection", "sort_desc") => list(&{ let mut v = all(); v.sort_unstable_by(|x, y| y.cmp(x)); v }),
            ("collection", "btree") => list(&all().into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>()),
            ("collection", "hashset") => val(all().into_iter().chain([other()]).collect::<HashSet<_>>().len()),
            ("collection", "min") => val(all().into_iter().min().unwrap()),
            ("collection", "max") => val(all().into_iter().max().unwrap()),
            ("collection", "rank") => val({ let mut v = all(); v.sort(); v.partition_point(|x| *x < a()) }),
            _ => return None,
        })
    }};
}
family!(all);
