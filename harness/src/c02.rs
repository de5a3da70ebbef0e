//! bounds: cast text of every length up to 12000 bytes; up to 5 embeds (contents free in any one of up to four, or in both of two), 3 string embeds, 12 mentions (every FID and position in up to ten); URLs up to 300 bytes; target hashes up to 40 bytes; link types up to 12 bytes; up to 4 compact-state targets; every value of every enum field (all of i32); every engine version
use crate::{com::*, entries, vf::*};
use snapchain::core::validations::{self, cast, link, reaction};
use snapchain::proto::{self, cast_add_body, embed, link_body, reaction_body};
use snapchain::version::version::*;

fn body() -> proto::CastAddBody { proto::CastAddBody { text: "hello".into(), ..Default::default() } }

entries! {
    fn c02_text() {
        let mut b = body();
        b.text = text("text", 12000);
        b.r#type = any_i32("type");
        let (pro, v) = (any_bool("pro"), any_version());
        // keeps the cast from being empty or not
        let with_embed = any_bool("embed");
        if with_embed { b.embeds.push(proto::Embed { embed: Some(embed::Embed::Url("u".into())) }); }
        let n = b.text.len();
        let fits = match b.r#type { 0 => n <= 320, 1 => (n > 320) & (n <= 1024), 2 => pro & (n > 1024) & (n <= 10000), _ => false };
        let ok = cast::validate_cast_add_body(&b, any_bool("old embeds"), pro, v).is_ok();
        check(ok == (fits && (n > 0 || with_embed)), "a cast is accepted exactly when its text fits its type and it is not empty");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c02_counts() {
        let mut b = body();
        let has_text = any_bool("text");
        if !has_text { b.text = String::new(); }
        let (ne, nd) = (choose("embeds", 0, 5), choose("string embeds", 0, 3));
        for _ in 0..ne { b.embeds.push(proto::Embed { embed: Some(embed::Embed::Url("u".into())) }); }
        for _ in 0..nd { b.embeds_deprecated.push("u".into()); }
        let (pro, v, old) = (any_bool("pro"), any_version(), any_bool("old embeds"));
        let limit = if pro || v.is_enabled(ProtocolFeature::IncreaseEmbedLimitForAllUsers) { 4 } else { 2 };
        let want = ne <= limit && (if old { nd <= 2 } else { nd == 0 }) && (ne == 0 || nd == 0) && (has_text || ne > 0 || nd > 0);
        let ok = cast::validate_cast_add_body(&b, old, pro, v).is_ok();
        check(ok == want, "embed limits depend only on the version, pro status and embed kind");
        if ok && ne == 4 { cover("four embeds"); }
        if !ok && ne == 3 { cover("three refused"); }
    }
    fn c02_embeds() {
        let mut b = body();
        let mut want = true;
        for _ in 0..choose("embeds", 1, 2) {
            match choose("embed kind", 0, 2) {
                0 => { let u = text("url", 300); want &= url_ok(&u); b.embeds.push(proto::Embed { embed: Some(embed::Embed::Url(u)) }); }
                1 => { let c = any_cast_id(); want &= cast_id_ok(&c); b.embeds.push(proto::Embed { embed: Some(embed::Embed::CastId(c)) }); }
                _ => { want = false; b.embeds.push(proto::Embed { embed: None }); }
            }
        }
        match choose("parent kind", 0, 2) {
            0 => {}
            1 => { let c = any_cast_id(); want &= cast_id_ok(&c); b.parent = Some(cast_add_body::Parent::ParentCastId(c)); }
            _ => { let u = text("parent url", 300); want &= url_ok(&u); b.parent = Some(cast_add_body::Parent::ParentUrl(u)); }
        }
        let ok = cast::validate_cast_add_body(&b, false, any_bool("pro"), any_version()).is_ok();
        check(ok == want, "every embed and the parent of an accepted cast is well formed, and well-formed ones are accepted");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c02_embed_position() {
        // one odd embed among well-formed ones, at every place
        let mut b = body();
        let n = choose("embeds", 1, 4);
        let at = choose("at", 0, n - 1);
        let mut want = true;
        for i in 0..n {
            b.embeds.push(proto::Embed { embed: if i != at { Some(embed::Embed::Url("u".into())) } else { match choose("embed kind", 0, 2) {
                0 => { let u = text("url", 300); want = url_ok(&u); Some(embed::Embed::Url(u)) }
                1 => { let c = any_cast_id(); want = cast_id_ok(&c); Some(embed::Embed::CastId(c)) }
                _ => { want = false; None }
            } } });
        }
        let v = any_version();
        let pro = any_bool("pro");
        let limit = if pro | v.is_enabled(ProtocolFeature::IncreaseEmbedLimitForAllUsers) { 4 } else { 2 };
        let ok = cast::validate_cast_add_body(&b, false, pro, v).is_ok();
        check(ok == (want & (n <= limit)), "every embed of an accepted cast is well formed");
        if ok && n == 4 && at == 3 { cover("accepted"); }
        if !ok && n == 4 && at == 3 { cover("refused"); }
    }
    fn c02_string_embeds() {
        let mut b = body();
        let mut want = true;
        for _ in 0..choose("embeds", 0, 2) { let u = text("url", 300); want &= url_ok(&u); b.embeds_deprecated.push(u); }
        check(cast::validate_cast_add_body(&b, true, any_bool("pro"), any_version()).is_ok() == want, "string embeds are well-formed URLs");
        cover("string embeds");
    }
    fn c02_mentions() {
        let mut b = body();
        b.text = text("text", 320);
        let n = choose("mentions", 0, 10);
        let mut want = n > 0 || b.text.len() > 0;
        let mut prev = 0u32;
        for i in 0..n {
            let (f, p) = (any_u64("mention"), any_u32("position"));
            want &= (f != 0) & (p as usize <= b.text.len()) & (i == 0 || p >= prev);
            prev = p;
            b.mentions.push(f); b.mentions_positions.push(p);
        }
        let extra = choose("extra positions", 0, 1);
        for _ in 0..extra { b.mentions_positions.push(any_u32("position")); want = false; }
        let ok = cast::validate_cast_add_body(&b, false, any_bool("pro"), any_version()).is_ok();
        check(ok == want, "mentions name real users at sorted positions inside the text");
        if ok && n == 10 { cover("accepted"); }
        if !ok && n == 10 { cover("refused"); }
    }
    fn c02_mention_limit() {
        let mut b = body();
        let n = choose("mentions", 9, 12);
        for i in 0..n { b.mentions.push(i as u64 + 1); b.mentions_positions.push(0); }
        if any_bool("one missing") { b.mentions_positions.pop(); }
        let ok = cast::validate_cast_add_body(&b, false, any_bool("pro"), any_version()).is_ok();
        check(ok == (n <= 10 && b.mentions_positions.len() == n), "at most ten mentions, one position each");
        if ok && n == 10 { cover("ten"); }
    }
    fn c02_ids() {
        let f = any_u64("fid");
        check(validations::validate_fid(f).is_ok() == (f != 0), "FID 0 is nobody");
        let c = any_cast_id();
        check(validations::validate_cast_id(&c).is_ok() == cast_id_ok(&c), "cast ids");
        let u = text("url", 400);
        check(validations::validate_url(&u).is_ok() == url_ok(&u), "URLs have 1 to 256 bytes");
        let r = proto::CastRemoveBody { target_hash: filler("target hash len", 64) };
        check(cast::validate_cast_remove_body(&r).is_ok() == (r.target_hash.len() == 20), "a cast remove names a 20 byte hash");
        cover("ids");
    }
    fn c02_link() {
        let ty = text("link type", 12);
        let ty_ok = (ty.len() >= 1) & (ty.len() <= 8);
        let target = if any_bool("target") { Some(any_u64("target fid")) } else { None };
        let b = proto::LinkBody { r#type: ty.clone(), display_timestamp: None, target: target.map(link_body::Target::TargetFid) };
        let want = ty_ok & (target.unwrap_or(0) != 0);
        check(link::validate_link_body(&b).is_ok() == want, "a link has a type of 1 to 8 bytes and a real target");
        let mut c = proto::LinkCompactStateBody { r#type: ty, target_fids: vec![] };
        let n = choose("targets", 0, 4);
        let mut all = n > 0;
        for _ in 0..n { let f = any_u64("target"); all &= f != 0; c.target_fids.push(f); }
        check(link::validate_link_compact_state_body(&c).is_ok() == (ty_ok & all), "a compact state has at least one target and no FID 0");
        if want { cover("link"); }
        if ty_ok & all { cover("compact"); }
    }
    fn c02_reaction() {
        let ty = any_i32("type");
        let (target, t_ok) = match choose("target kind", 0, 2) {
            0 => (None, false),
            1 => { let c = any_cast_id(); let k = cast_id_ok(&c); (Some(reaction_body::Target::TargetCastId(c)), k) }
            _ => { let u = text("url", 300); let k = url_ok(&u); (Some(reaction_body::Target::TargetUrl(u)), k) }
        };
        let ok = reaction::validate_reaction_body(&proto::ReactionBody { r#type: ty, target }).is_ok();
        check(ok == (((0..=2).contains(&ty)) & t_ok), "a reaction has a known type and a well-formed target");
        let n = any_i32("network");
        check(reaction::validate_network(n).is_ok() == (0..=3).contains(&n), "only the known networks");
        if ok { cover("accepted"); }
    }
}
