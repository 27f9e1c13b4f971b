//! K01: the network-target algebra against set semantics.
use super::nd::*;
#[path = "/repo/crates/connection/connection/src/network_target.rs"]
mod network_target;
use network_target::{Target, TargetList};

type T = Target<u8>;
fn list(n: usize) -> TargetList<u8> {
    let mut v = TargetList::new();
    for _ in 0..n { v.push(any::<u8>()); }
    v
}
/// Every shape; lists of `n` arbitrary ids, possibly repeated.
fn shape(k: usize, n: usize) -> T {
    match k {
        0 => Target::None,
        1 => Target::All,
        2 => Target::Single(any()),
        3 => Target::AllExceptSingle(any()),
        4 => Target::Only(list(n)),
        _ => Target::AllExcept(list(n)),
    }
}
/// What the target denotes, stated independently of the implementation.
fn has(t: &T, q: u8) -> bool {
    fn in_list(l: &[u8], q: u8) -> bool {
        let mut r = false;
        for x in l { r |= *x == q; }
        r
    }
    match t {
        Target::None => false,
        Target::All => true,
        Target::Single(x) => *x == q,
        Target::AllExceptSingle(x) => *x != q,
        Target::Only(l) => in_list(l, q),
        Target::AllExcept(l) => !in_list(l, q),
    }
}
#[derive(Clone, Copy)]
enum Op { Union, Intersection, Exclude }
fn check(op: Op, i: usize, j: usize, n: usize, m: usize) -> bool {
    let (mut a, b) = (shape(i, n), shape(j, m));
    let q: u8 = any();
    let (x, y) = (has(&a, q), has(&b, q));
    assert!(a.targets(&q) == x && b.targets(&q) == y, "a target selects its peers");
    let want = match op { Op::Union => x || y, Op::Intersection => x && y, Op::Exclude => x && !y };
    match op { Op::Union => a.union(&b), Op::Intersection => a.intersection(&b), Op::Exclude => a.exclude(&b) }
    let got = has(&a, q);
    assert!(has(&b, q) == y, "the other operand is unchanged");
    assert!(got == want, "the operation selects exactly the peers of the set operation");
    core::mem::forget((a, b));
    got
}
fn all(op: Op, i: usize) {
    check(op, i, 0, 2, 2); check(op, i, 1, 2, 2); check(op, i, 2, 2, 2);
    check(op, i, 3, 2, 2); check(op, i, 4, 2, 2); check(op, i, 5, 2, 2);
    reach!(true);
}
fn extends(i: usize, n: usize) {
    let mut a = shape(i, n);
    let q: u8 = any();
    let x = has(&a, q);
    let e: [u8; 2] = any();
    a.extend(e);
    assert!(has(&a, q) == (x || e[0] == q || e[1] == q), "extending adds exactly the given peers");
    core::mem::forget(a);
}
macro_rules! per_shape {
    ($($name:ident $op:ident $i:literal)*) => { harnesses! { $( [6] fn $name() { all(Op::$op, $i) } )*
        [12] fn large_union() { let a = check(Op::Union, 4, 4, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_union_except() { let a = check(Op::Union, 5, 5, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_intersection() { let a = check(Op::Intersection, 4, 4, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_intersection_except() { let a = check(Op::Intersection, 5, 5, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_exclude() { let a = check(Op::Exclude, 4, 4, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_exclude_except() { let a = check(Op::Exclude, 5, 5, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_exclude_mixed() { let a = check(Op::Exclude, 4, 5, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_union_mixed() { let a = check(Op::Union, 4, 5, 5, 5); reach!(a); reach!(!a); }
        [12] fn large_intersection_mixed() { let a = check(Op::Intersection, 4, 5, 5, 5); reach!(a); reach!(!a); }
        [7] fn inverse() {
            for i in 0..6 {
                let mut a = shape(i, 2);
                let q: u8 = any();
                let x = has(&a, q);
                a.inverse();
                assert!(has(&a, q) == !x, "the inverse selects exactly the other peers");
                a.inverse();
                assert!(has(&a, q) == x);
                core::mem::forget(a);
            }
            reach!(true);
        }
        [6] fn extend() { extends(0, 2); extends(1, 2); extends(2, 2); extends(3, 2); reach!(true); }
        [6] fn extend_only() { extends(4, 2); reach!(true); }
        [6] fn extend_except() { extends(5, 2); reach!(true); }
        [6] fn constructors() {
            let e: [u8; 3] = any();
            let n = below(4);
            let q: u8 = any();
            let mut l = TargetList::new();
            let mut inside = false;
            for i in 0..3 { if i < n { l.push(e[i]); inside |= e[i] == q; } }
            let a: T = Target::from_exclude(l.iter().copied());
            assert!(has(&a, q) == !inside, "everybody but the given peers");
            let b: T = l.iter().copied().collect();
            assert!(has(&b, q) == inside, "exactly the given peers");
            assert!(b.is_empty() == (n == 0));
            let c: T = Target::from(l);
            assert!(has(&c, q) == inside, "exactly the given peers");
            reach!(n == 3 && inside);
            core::mem::forget((a, b, c));
        }
    } }
}
per_shape! {
    union_none Union 0  union_all Union 1  union_single Union 2  union_except_single Union 3  union_only Union 4  union_except Union 5
    inter_none Intersection 0  inter_all Intersection 1  inter_single Intersection 2  inter_except_single Intersection 3  inter_only Intersection 4  inter_except Intersection 5
    excl_none Exclude 0  excl_all Exclude 1  excl_single Exclude 2  excl_except_single Exclude 3  excl_only Exclude 4  excl_except Exclude 5
}
