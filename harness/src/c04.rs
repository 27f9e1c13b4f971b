//! C04: history buffers answer with the newest entry at or before a tick.
use super::nd::*;
use lightyear_core::confirmed_history::ConfirmedHistory;
use lightyear_core::history_buffer::{HistoryBuffer, HistoryState};
use lightyear_core::tick::Tick;

/// Present value or removal.
fn st(p: bool, v: u8) -> HistoryState<u8> { if p { HistoryState::Updated(v) } else { HistoryState::Removed } }
/// The reference: what was recorded, newest at or before `q`.
struct Model<const N: usize> { t: [u32; N], p: [bool; N], v: [u8; N], n: usize }
impl<const N: usize> Model<N> {
    fn at(&self, q: u32) -> Option<HistoryState<u8>> {
        let mut best: Option<usize> = None;
        for i in 0..N {
            if i < self.n && self.t[i] <= q && best.is_none_or(|b| self.t[b] <= self.t[i]) { best = Some(i); }
        }
        best.map(|b| st(self.p[b], self.v[b]))
    }
}
/// Up to `N` recordings in tick order (equal ticks replace).
fn build<const N: usize>() -> (HistoryBuffer<u8>, Model<N>) {
    let mut h = HistoryBuffer::default();
    let mut m = Model { t: any_t(), p: core::array::from_fn(|_| any()), v: core::array::from_fn(|i| i as u8), n: N };
    for i in 0..N {
        if i > 0 { assume(m.t[i] >= m.t[i - 1]); }
        h.add(Tick(m.t[i]), if m.p[i] { Some(m.v[i]) } else { None });
    }
    m.n = N;
    (h, m)
}
fn any_t<const N: usize>() -> [u32; N] { core::array::from_fn(|_| any()) }
fn same(a: Option<&HistoryState<u8>>, b: Option<HistoryState<u8>>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => *x == y, _ => false } }
fn val(s: &Option<HistoryState<u8>>) -> Option<u8> { match s { Some(HistoryState::Updated(v)) => Some(*v), _ => None } }

harnesses! {
    [6] fn answers() {
        let (h, m) = build::<3>();
        let q: u32 = any();
        assert!(same(h.get_state(Tick(q)), m.at(q)), "the newest entry at or before the tick");
        assert!(h.get(Tick(q)).copied() == val(&m.at(q)));
        assert!(h.most_recent().is_some_and(|(t, _)| t.0 == m.t[2]));
        reach!(val(&m.at(q)) == Some(1)); reach!(m.at(q).is_none());
        core::mem::forget(h);
    }
    [6] fn forget_old() {
        let (mut h, m) = build::<3>();
        let (c, q): (u32, u32) = (any(), any());
        h.clear_until_tick(Tick(c));
        if q >= c || m.at(c).is_none() { assert!(same(h.get_state(Tick(q)), m.at(q)), "discarding old history keeps later answers"); }
        else { assert!(h.get_state(Tick(q)).is_none(), "older history is gone"); }
        reach!(q >= c && val(&m.at(q)) == Some(0) && h.len() == 3); reach!(h.len() == 1);
        core::mem::forget(h);
    }
    [6] fn pop_old() {
        let (mut h, m) = build::<3>();
        let (c, q): (u32, u32) = (any(), any());
        let got = h.pop_until_tick(Tick(c));
        assert!(same(got.as_ref(), m.at(c)), "the state at the tick is returned");
        if q >= c || m.at(c).is_none() { assert!(same(h.get_state(Tick(q)), m.at(q)), "discarding old history keeps later answers"); }
        else { assert!(h.get_state(Tick(q)).is_none(), "older history is gone"); }
        reach!(val(&got) == Some(1)); reach!(got.is_none());
        core::mem::forget(h);
    }
    [6] fn forget_new() {
        let (mut h, m) = build::<3>();
        let (c, q): (u32, u32) = (any(), any());
        h.clear_after_tick(Tick(c));
        assert!(same(h.get_state(Tick(q)), m.at(if q < c { q } else { c })), "entries after the tick are gone, earlier ones remain");
        reach!(h.len() == 2); reach!(h.is_empty());
        core::mem::forget(h);
    }
    [6] fn keep_one() {
        let (mut h, m) = build::<3>();
        let (c, q): (u32, u32) = (any(), any());
        let got = h.clear_except_tick(Tick(c));
        assert!(same(got.as_ref(), m.at(c)), "the state at the tick is returned");
        assert!(same(h.get_state(Tick(q)), if q >= c { m.at(c) } else { None }), "only that state is kept");
        reach!(val(&got) == Some(1)); reach!(got.is_none());
        core::mem::forget(h);
    }
    [6] fn shift_ticks() {
        let (mut h, m) = build::<2>();
        let d: i32 = any();
        let q: u32 = any();
        // no saturation at either end
        assume(m.t[0].checked_add_signed(d).is_some() && m.t[1].checked_add_signed(d).is_some() && q.checked_add_signed(d).is_some());
        h.update_ticks(d);
        assert!(same(h.get_state(Tick(q.wrapping_add_signed(d))), m.at(q)), "a tick shift moves every answer with it");
        reach!(d < 0 && m.at(q).is_some());
        core::mem::forget(h);
    }
    // confirmed histories: insertions in any order
    [6] fn confirmed_any_order() {
        let mut h: ConfirmedHistory<u8> = ConfirmedHistory::default();
        let m: Model<3> = Model { t: any_t(), p: core::array::from_fn(|_| any()), v: core::array::from_fn(|_| any::<u8>() & 1), n: 3 };
        assume(m.t[0] != m.t[1] && m.t[0] != m.t[2] && m.t[1] != m.t[2]);
        for i in 0..3 { h.insert_explicit(Tick(m.t[i]), st(m.p[i], m.v[i])); }
        let q: u32 = any();
        assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "the newest entry at or before the tick");
        assert!(h.get_present(Tick(q)).copied() == val(&m.at(q)));
        assert!(same(h.get_state_at(Tick(m.t[1])), Some(st(m.p[1], m.v[1]))), "an inserted state is found at its tick");
        reach!(m.t[1] > m.t[2] && val(&m.at(q)).is_some()); 
        core::mem::forget(h);
    }
    // repeated values stored as "unchanged" answer like stored values
    [6] fn confirmed_in_order() {
        let mut h: ConfirmedHistory<u8> = ConfirmedHistory::default();
        let m: Model<3> = Model { t: any_t(), p: core::array::from_fn(|_| any()), v: core::array::from_fn(|_| any::<u8>() & 1), n: 3 };
        assume(m.t[0] < m.t[1] && m.t[1] < m.t[2]);
        for i in 0..3 { h.insert(Tick(m.t[i]), st(m.p[i], m.v[i])); }
        let (q, c): (u32, u32) = (any(), any());
        assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "the newest entry at or before the tick");
        h.clear_until_tick(Tick(c));
        if q >= c { assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "discarding old history keeps later answers"); }
        else { assert!(h.get_state_at_or_before(Tick(q)).is_none(), "older history is gone"); }
        reach!(m.v[0] == m.v[1] && m.p[0] && m.p[1] && q >= c && c > m.t[1]);
        core::mem::forget(h);
    }
    // a late insertion between two explicit entries (an entry stored as "unchanged" is documented to follow it)
    [6] fn confirmed_late() {
        let mut h: ConfirmedHistory<u8> = ConfirmedHistory::default();
        let m: Model<3> = Model { t: any_t(), p: core::array::from_fn(|_| any()), v: core::array::from_fn(|_| any::<u8>() & 1), n: 3 };
        assume(m.t[0] < m.t[2] && m.t[2] < m.t[1]);
        assume(m.p[0] != m.p[1] || (m.p[0] && m.v[0] != m.v[1]));
        for i in 0..3 { h.insert(Tick(m.t[i]), st(m.p[i], m.v[i])); }
        let q: u32 = any();
        assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "the newest entry at or before the tick");
        reach!(true);
        core::mem::forget(h);
    }
    [6] fn confirmed_unchanged() {
        let mut h: ConfirmedHistory<u8> = ConfirmedHistory::default();
        let m: Model<2> = Model { t: any_t(), p: core::array::from_fn(|_| any()), v: core::array::from_fn(|_| any::<u8>() & 1), n: 2 };
        assume(m.t[0] < m.t[1]);
        for i in 0..2 { h.insert(Tick(m.t[i]), st(m.p[i], m.v[i])); }
        let (u, q): (u32, u32) = (any(), any());
        let added = h.push_unchanged(Tick(u));
        if added.is_some() { assert!(u > m.t[1] && m.p[1] && added == Some(Tick(m.t[1]))); }
        assert!(added.is_some() == (u > m.t[1] && m.p[1]), "an unchanged marker extends a present value");
        assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "an unchanged marker changes no answer");
        if added.is_some() { assert!(same(h.get_state_at(Tick(u)), m.at(u))); }
        let popped = h.pop_present();
        assert!(popped.is_none() == !m.p[0]);
        if q >= m.t[1] { assert!(same(h.get_state_at_or_before(Tick(q)), m.at(q)), "removing the oldest entry keeps later answers"); }
        reach!(added.is_some() && m.p[0]);
        core::mem::forget(h);
    }
}
