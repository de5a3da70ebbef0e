//! bounds: every height below 2^50 and every sequence below 2^14; runs of up to 3 events after any starting sequence, of every event type
use crate::{com::*, entries, vf::*};
use snapchain::proto::HubEvent;
use snapchain::storage::store::account::*;

fn ev(t: i32) -> HubEvent { HubEvent { r#type: t, ..Default::default() } }
const H: u64 = 1 << 50;
const S: u64 = 1 << 14;
fn confirmed(t: i32) -> bool { snapchain::proto::HubEventType::try_from(t).is_ok_and(|x| x == snapchain::proto::HubEventType::BlockConfirmed) }

entries! {
    fn c16_id() {
        let (h, s) = (any_u64("height"), any_u64("seq"));
        assume((h < H) & (s < S));
        let id = HubEventIdGenerator::make_event_id(h, s);
        check(id == (h << 14 | s), "an event id is its height and place in the block");
        check(HubEventIdGenerator::extract_height_and_seq(id) == (h, s), "height and place come back");
        check(HubEventIdGenerator::make_event_id_for_block_number(h) <= id, "a block's events come at or after its own id");
        let (g, r) = (any_u64("other height"), any_u64("other seq"));
        assume((g < H) & (r < S));
        let jd = HubEventIdGenerator::make_event_id(g, r);
        check((id < jd) == ((h < g) | ((h == g) & (s < r))), "later events have greater ids");
        cover("id");
    }
    fn c16_any_id() {
        let id = any_u64("id");
        let (h, s) = HubEventIdGenerator::extract_height_and_seq(id);
        check((h < H) & (s < S) & (HubEventIdGenerator::make_event_id(h, s) == id), "every id is one event's");
        let (h, s) = (any_u64("height"), any_u64("seq"));
        check(HubEventIdGenerator::make_event_id(h, s) & (S - 1) == s & (S - 1), "the place stays inside its bits");
        cover("any");
    }
    fn c16_run() {
        let (h, s) = (any_u64("height"), any_u64("seq"));
        assume(s <= S + 1);
        let mut g = HubEventIdGenerator::new(Some(h), Some(s));
        let mut next = s;
        let mut last: Option<u64> = None;
        for _ in 0..choose("events", 1, 3) {
            let t = any_i32("type");
            let c = conc_bool(confirmed(t));
            match g.generate_id(&ev(t)) {
                Ok(id) => {
                    check((h < H) & (next < S), "an id is given only while it fits");
                    if c { check(id == h << 14, "a block's own event comes first"); }
                    else {
                        let want = if next == 0 { 1 } else { next };
                        check(id == (h << 14 | want), "events are numbered without gaps from one");
                        if let Some(l) = last { check(id > l, "ids only grow"); }
                        last = Some(id);
                        next = want + 1;
                    }
                    check(HubEventIdGenerator::extract_height_and_seq(id).0 == h, "an event's id says its block");
                    cover("given");
                }
                Err(_) => { check((h >= H) | (next >= S), "an id that fits is given"); cover("full"); }
            }
        }
        let k = any_u64("next height");
        g.set_current_height(k);
        let t = any_i32("type");
        match g.generate_id(&ev(t)) {
            Ok(id) => check((k < H) & (id == (k << 14 | !confirmed(t) as u64)), "a new block starts anew"),
            Err(_) => check(k >= H, "a new block starts anew"),
        }
    }
}
