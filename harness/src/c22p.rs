//! bounds: every profile type; every body kind
use crate::{com::*, entries, vf::*};
use snapchain::mempool::mempool::*;
use snapchain::proto::{self, message_data::Body, Message, MessageData};

entries! {
    fn c22_kinds() {
        let k = choose("body", 0, 5);
        let t = any_i32("type");
        let body = match k { 0 => None, 1 => Some(Body::KeyAddBody(Default::default())), 2 => Some(Body::KeyRemoveBody(Default::default())), 3 => Some(Body::UserDataBody(proto::UserDataBody { r#type: t, value: "x".into() })), 4 => Some(Body::CastAddBody(Default::default())), _ => Some(Body::LinkBody(Default::default())) };
        let m = Message { data: Some(MessageData { body, r#type: any_i32("message type"), ..Default::default() }), ..Default::default() };
        check(is_key_add(&m) == (k == 1), "exactly key additions are limited as such");
        check(is_live_at(&m) == ((k == 3) & (t == proto::UserDataType::LiveAt as i32)), "exactly live statuses are limited as such");
        check(!is_key_add(&Message::default()) && !is_live_at(&Message::default()), "a message without data is neither");
        if k == 1 { cover("key"); } else { cover("other"); }
    }
}
