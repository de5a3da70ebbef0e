//! bounds: every pair of ids; every height below 2^50 and event type
use crate::{com::*, entries, vf::*};
use snapchain::proto::HubEvent;
use snapchain::storage::store::account::event::make_event_key;
use snapchain::storage::store::account::*;

fn ev(t: i32) -> HubEvent { HubEvent { r#type: t, ..Default::default() } }
const H: u64 = 1 << 50;
fn confirmed(t: i32) -> bool { snapchain::proto::HubEventType::try_from(t).is_ok_and(|x| x == snapchain::proto::HubEventType::BlockConfirmed) }

entries! {
    fn c16_key() {
        let (id, jd) = (any_u64("id"), any_u64("jd"));
        let (k, l) = (make_event_key(id), make_event_key(jd));
        let mut w = vec![9u8];
        w.extend(id.to_be_bytes());
        check(same(&k, &w), "an event is stored under its id");
        check((k < l) == (id < jd), "events are stored in the order of their ids");
        cover("key");
    }
    fn c16_handler() {
        let s = StoreEventHandler::new();
        let t = any_i32("type");
        assume(!confirmed(t));
        let h = any_u64("height");
        assume(h < H);
        s.set_current_height(h);
        let mut g = s.generator.lock().unwrap();
        let (a, b) = (g.generate_id(&ev(t)), g.generate_id(&ev(t)));
        check(a.is_ok_and(|x| x == (h << 14 | 1)) && b.is_ok_and(|x| x == (h << 14 | 2)), "the store numbers the block's events in turn");
        cover("handler");
    }
}
