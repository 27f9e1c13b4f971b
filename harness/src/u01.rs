//! U01: the ready buffer (items keyed by when they are due).
use super::nd::*;
use lightyear_utils::ready_buffer::ReadyBuffer;

type B = ReadyBuffer<u32, u8>;
/// Item `i` has key `k[i]`; which of them are still inside.
struct M { k: [u32; 4], inside: [bool; 4] }
impl M {
    fn new() -> Self { M { k: core::array::from_fn(|_| any()), inside: [false; 4] } }
    fn push(&mut self, b: &mut B, i: usize) { b.push(self.k[i], i as u8); self.inside[i] = true; }
    fn due(&self, c: u32) -> usize { (0..4).filter(|&i| self.inside[i] && self.k[i] <= c).count() }
    fn len(&self) -> usize { self.inside.iter().filter(|x| **x).count() }
    fn out(&mut self, k: u32, v: u8) {
        let v = v as usize;
        assert!(v < 4 && self.inside[v], "an item comes out at most once");
        assert!(self.k[v] == k, "an item comes out with its key");
        self.inside[v] = false;
    }
    fn pop(&mut self, b: &mut B, c: u32) -> bool {
        let n = self.due(c);
        assert!(b.has_item(&c) == (n > 0), "an item is ready exactly if its key is reached");
        let peek = b.peek_item(&c).map(|(k, v)| (k, *v));
        let r = b.pop_item(&c);
        assert!(peek == r, "peeking shows what is popped next");
        match r {
            None => { assert!(n == 0, "whatever is due comes out"); false }
            Some((k, v)) => {
                assert!(k <= c, "nothing comes out early");
                self.out(k, v);
                for i in 0..4 { if self.inside[i] { assert!(self.k[i] >= k, "the smallest key comes out first"); } }
                assert!(b.len() == self.len());
                true
            }
        }
    }
}
harnesses! {
    [6] fn pop_in_order() {
        let (mut b, mut m) = (B::new(), M::new());
        m.push(&mut b, 0); m.push(&mut b, 1); m.push(&mut b, 2);
        let a = m.pop(&mut b, any());
        m.push(&mut b, 3);
        let c = m.pop(&mut b, any());
        let d = m.pop(&mut b, any());
        reach!(a && c && d);
        reach!(!a && c && !d);
        core::mem::forget(b);
    }
    [6] fn pop_until() {
        let (mut b, mut m) = (B::new(), M::new());
        m.push(&mut b, 0); m.push(&mut b, 1); m.push(&mut b, 2);
        let c: u32 = any();
        let r = b.pop_until(&c);
        match r {
            None => assert!(m.due(c) == 0),
            Some((k, v)) => {
                assert!(k <= c, "nothing comes out early");
                assert!((v as usize) < 3 && m.k[v as usize] == k);
                for i in 0..3 { if m.k[i] <= c { assert!(m.k[i] <= k, "the newest due item is reported"); m.inside[i] = false; } }
            }
        }
        assert!(b.len() == m.len(), "everything due is removed and nothing else");
        m.pop(&mut b, u32::MAX);
        reach!(r.is_some() && m.len() == 1);
        core::mem::forget(b);
    }
    [6] fn drain_until() {
        let (mut b, mut m) = (B::new(), M::new());
        m.push(&mut b, 0); m.push(&mut b, 1); m.push(&mut b, 2);
        let c: u32 = any();
        let r = b.drain_until(&c);
        let n = m.due(c);
        assert!(r.len() == n, "everything due comes out");
        let mut last = 0;
        for i in 0..3 { if i < r.len() {
            let (k, v) = r[i];
            assert!(k <= c, "nothing comes out early");
            assert!(k >= last, "in order of time");
            last = k;
            m.out(k, v);
        } }
        assert!(b.len() == m.len());
        m.pop(&mut b, u32::MAX);
        reach!(n == 2);
        core::mem::forget((b, r));
    }
    [6] fn drain_after() {
        let (mut b, mut m) = (B::new(), M::new());
        m.push(&mut b, 0); m.push(&mut b, 1); m.push(&mut b, 2);
        let c: u32 = any();
        let r = b.drain_after(&c);
        let later = (0..3).filter(|&i| m.k[i] >= c).count();
        assert!(r.len() == later, "everything from the key on comes out");
        for i in 0..3 { if i < r.len() { let (k, v) = r[i]; assert!(k >= c); m.out(k, v); } }
        assert!(b.len() == m.len(), "everything before the key stays");
        m.pop(&mut b, u32::MAX);
        reach!(later == 2);
        core::mem::forget((b, r));
    }
    [6] fn drain_all() {
        let (mut b, mut m) = (B::new(), M::new());
        m.push(&mut b, 0); m.push(&mut b, 1);
        assert!(!b.is_empty());
        assert!(b.peek_max_item().is_some_and(|(k, _)| k == m.k[0].min(m.k[1])));
        for (k, v) in b.drain() { m.out(k, v); }
        assert!(m.len() == 0 && b.is_empty());
        m.push(&mut b, 2);
        b.clear();
        assert!(b.is_empty() && !b.has_item(&u32::MAX));
        reach!(true);
        core::mem::forget(b);
    }
}
