//! Real time passing within a case: connections and sockets must not care.
use crate::dict;
use crate::engine::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static PLAN: Cell<Option<(u8, u16)>> = const { Cell::new(None) };
    static WHOLE: Cell<Option<(u8, u16)>> = const { Cell::new(None) };
}
/// called where a check runs its case again from the start
pub fn restart() {
    PLAN.with(|p| p.set(WHOLE.with(|w| w.get())));
}
/// called by checks between the operations of a case
pub fn step() {
    if let Some((n, ms)) = PLAN.with(|p| p.take()) {
        if n == 0 {
            std::thread::sleep(Duration::from_millis(ms as u64));
        } else {
            PLAN.with(|p| p.set(Some((n - 1, ms))));
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Paused<C> {
    pub case: C,
    /// operations before the pause
    pub after: u8,
    pub ms: u16,
}
pub fn paused<C: Case + 'static>(s: BoxedStrategy<C>) -> BoxedStrategy<Paused<C>> {
    let ms = prop_oneof![
        4 => 1050u16..2600,
        1 => 2600u16..5200,
        1 => dict::ints(6000).prop_map(|n| n as u16 + 30),
        1 => dict::ints(6).prop_map(|n| n as u16 * 1000 + 30),
    ];
    (s, prop_oneof![3 => 0u8..4, 2 => 4u8..12], ms).prop_map(|(case, after, ms)| Paused { case, after, ms }).boxed()
}
pub fn with_pause<C>(c: &Paused<C>, o: &mut Obs, check: fn(&C, &mut Obs) -> Check) -> Check {
    WHOLE.with(|p| p.set(Some((c.after, c.ms))));
    restart();
    let r = check(&c.case, o);
    let left = PLAN.with(|p| p.take());
    WHOLE.with(|p| p.set(None));
    o.label_if(left.is_none(), "paused");
    r
}
