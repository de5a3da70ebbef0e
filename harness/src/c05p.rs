//! bounds: frame fields of every length up to twice their limit
use crate::{com::*, entries, vf::*};
use snapchain::core::validations::message::*;
use snapchain::proto;

entries! {
    fn c05_frame() {
        let mut b = proto::FrameActionBody { url: text("url", 1100).into_bytes(), button_index: any_u32("button"), ..Default::default() };
        let mut want = (b.url.len() >= 1) & (b.url.len() <= 1024) & (b.button_index <= 5);
        b.input_text = filler("input", 300); b.state = filler("state", 4200); b.transaction_id = filler("tx", 300); b.address = filler("address", 80);
        want &= (b.input_text.len() <= 256) & (b.state.len() <= 4096) & (b.transaction_id.len() <= 256) & (b.address.len() <= 64);
        if any_bool("cast") { let c = any_cast_id(); want &= cast_id_ok(&c); b.cast_id = Some(c); }
        let ok = validate_frame_action_body(&b).is_ok();
        check(ok == want, "a frame action has a URL, a button up to 5, fields within their limits and a well-formed cast");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
}
