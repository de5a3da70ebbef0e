//! bounds: prefixes of up to 4 and page tokens of up to 6 arbitrary bytes
use crate::{com::*, entries, vf::*};
use snapchain::storage::db::PageOptions;
use snapchain::storage::store::account::message::require_page_token_in_prefix;

entries! {
    fn c13_page_token() {
        let p = any_vec_upto("prefix", 0, 4);
        let has = choose("token", 0, 1) == 1;
        let t = any_vec_upto("token", 0, 6);
        let under = t.len() >= p.len() && same(&t[..p.len()], &p);
        let o = PageOptions { page_size: None, page_token: if has { Some(t) } else { None }, reverse: any_bool("reverse") };
        check(require_page_token_in_prefix(&p, &o).is_ok() == (!has || under), "a page continues only inside the index that was asked for");
        if has { cover("token"); } else { cover("first page"); }
    }
}
