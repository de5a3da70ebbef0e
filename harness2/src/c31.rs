//! bounds: three blocks, chunks or events at any heights (of four varint bytes, in order) with any times; pages of 1 to 3, both directions; every height, time and event id asked for
use crate::{entries, st::*, vf::*};
use snapchain::proto::{self, hub_event, Block, BlockHeader, Height, HubEvent, HubEventType, ShardChunk, ShardHeader};
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::storage::store::{block::BlockStore, shard::ShardStore};
use std::time::Duration;

fn header(n: u64, t: u64) -> BlockHeader { BlockHeader { height: Some(Height { shard_index: 0, block_number: n }), timestamp: t, ..Default::default() } }
fn block(n: u64, t: u64) -> Block { Block { header: Some(header(n, t)), hash: vec![1; 2], ..Default::default() } }
fn chunk(n: u64, t: u64) -> ShardChunk { ShardChunk { header: Some(ShardHeader { height: Some(Height { shard_index: 2, block_number: n }), timestamp: t, ..Default::default() }), hash: vec![1; 2], ..Default::default() } }
/// three heights and times, both in order
fn places() -> [(u64, u64); 3] {
    let p = [0, 1, 2].map(|_| (ts("height") as u64, ts("time") as u64));
    assume((p[0].0 < p[1].0) & (p[1].0 < p[2].0) & (p[0].1 <= p[1].1) & (p[1].1 <= p[2].1));
    p
}
/// the first of the places from a time on
fn at(p: &[(u64, u64)], t: u64) -> Option<u64> { p.iter().find(|x| x.1 >= t).map(|x| x.0) }

macro_rules! chain { ($s:ident, $put:ident, $make:ident, $get:ident, $first:ident, $last:ident) => {{
    let p = places();
    let d = db("d");
    check($s(&d).max_block_number().unwrap() == 0 && $s(&d).min_block_number().is_err() && $s(&d).$last().unwrap().is_none() && $s(&d).max_block_timestamp().unwrap() == 0, "an empty store");
    for i in 0..3 { $s(&d).$put(&$make(p[i].0, p[i].1)).unwrap(); }
    let s = { d.close(); d.open().unwrap(); $s(&d) };
    let ask = any_u64("height asked");
    let got = s.$get(ask).unwrap();
    match p.iter().find(|x| x.0 == ask) { Some(x) => check(got == Some($make(x.0, x.1)), "the one at a height"), None => check(got.is_none(), "none at another height") }
    check(s.$first().unwrap() == Some($make(p[0].0, p[0].1)) && s.$last().unwrap() == Some($make(p[2].0, p[2].1)), "the first and the last");
    check(s.min_block_number().unwrap() == p[0].0 && s.max_block_number().unwrap() == p[2].0 && s.max_block_timestamp().unwrap() == p[2].1, "their heights and times");
    let t = any_u64("time asked");
    check(s.get_next_height_by_timestamp(t).unwrap() == at(&p, t), "the first from a time on");
    cover("done");
}} }
macro_rules! prune { ($s:ident, $put:ident, $make:ident, $get:ident) => {{
    let p = places();
    let d = db("d");
    let s = $s(&d);
    for i in 0..3 { s.$put(&$make(p[i].0, p[i].1)).unwrap(); }
    d.put(&[0xfe], &[1]).unwrap();
    let stop = any_u64("until");
    let size = choose("size", 1, 3);
    let n = wait(s.prune_until(stop, &PageOptions { page_size: Some(size), page_token: None, reverse: false }, Duration::ZERO)).unwrap();
    check(n as usize == p.iter().filter(|x| x.0 < stop).count(), "counts what it prunes");
    for x in &p { check(s.$get(x.0).unwrap().is_some() == (x.0 >= stop), "prunes exactly what is below the height"); }
    check(d.get(&[0xfe]).unwrap().is_some(), "nothing else is pruned");
    let t = any_u64("time asked");
    check(s.get_next_height_by_timestamp(t).unwrap() == at(&p, t), "a time still tells its height when its block is pruned");
    cover("done");
}} }
fn blocks(d: &std::sync::Arc<RocksDB>) -> BlockStore { BlockStore::new(d.clone()) }
fn shard(d: &std::sync::Arc<RocksDB>) -> ShardStore { ShardStore::new(d.clone(), 2) }
fn event(i: u64, ty: HubEventType) -> HubEvent { HubEvent { r#type: ty as i32, id: 0, body: Some(hub_event::Body::BlockConfirmedBody(proto::BlockConfirmedBody { block_number: i, ..Default::default() })), block_number: i, shard_index: 2, timestamp: i } }

entries! {
    fn c31_blocks() { chain!(blocks, put_block, block, get_block_by_height, get_first_block, get_last_block) }
    fn c31_chunks() { chain!(shard, put_shard_chunk, chunk, get_chunk_by_height, get_first_shard_chunk, get_last_shard_chunk) }
    fn c31_prune_blocks() { prune!(blocks, put_block, block, get_block_by_height) }
    fn c31_prune_chunks() { prune!(shard, put_shard_chunk, chunk, get_chunk_by_height) }
    fn c31_ranges() {
        let p = places();
        let d = db("d");
        let which = choose("store", 0, 1);
        let (size, reverse) = (choose("size", 1, 3), choose("reverse", 0, 1) == 1);
        split((which * 10 + size * 2 + reverse as usize) as u64);
        let (from, to) = (any_u64("from"), (choose("given", 0, 1) == 1).then(|| any_u64("to")));
        let mut want: Vec<(u64, u64)> = p.iter().filter(|x| x.0 >= from && to.map_or(true, |t| x.0 < t)).cloned().collect();
        if which == 1 {
            for i in 0..3 { shard(&d).put_shard_chunk(&chunk(p[i].0, p[i].1)).unwrap(); }
            let got = shard(&d).get_shard_chunks(from, to).unwrap();
            check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| *g == chunk(w.0, w.1)), "the chunks of a range, in order");
            cover("done");
            return;
        }
        for i in 0..3 { blocks(&d).put_block(&block(p[i].0, p[i].1)).unwrap(); }
        if reverse { want.reverse(); }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..5 {
            let page = blocks(&d).get_blocks(from, to, &PageOptions { page_size: Some(size), page_token: token, reverse }).unwrap();
            check(page.blocks.len() <= size, "no page is larger than asked for");
            got.extend(page.blocks);
            token = page.next_page_token;
            if token.is_none() { break; }
        }
        check(token.is_none() && got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| *g == block(w.0, w.1)), "the blocks of a range once, in order");
        cover("done");
    }
    fn c31_ids() {
        // event ids rise with height and then with the order of events, the block's own event first
        let h = StoreEventHandler::new();
        let mut ids = vec![];
        let p = places();
        let d = db("d");
        let mut all = vec![];
        for i in 0..3 {
            h.set_current_height(p[i].0);
            let mut txn = d.txn();
            for k in 0..3 {
                let mut e = event(p[i].0, if k == 0 { HubEventType::BlockConfirmed } else { HubEventType::MergeMessage });
                ids.push(h.commit_transaction(&mut txn, &mut e).unwrap());
                check(HubEventIdGenerator::extract_height_and_seq(e.id) == (p[i].0, k), "an id tells its height and place");
                check(e.id == *ids.last().unwrap(), "the event carries its id");
                all.push(e);
            }
            d.commit(txn).unwrap();
            check(ids[3 * i] == HubEventIdGenerator::make_event_id_for_block_number(p[i].0), "a height's first id");
        }
        for w in ids.windows(2) { check(w[0] < w[1], "ids rise"); }
        let k = choose("event", 0, 8);
        check(HubEvent::get_event(d.clone(), ids[k]).unwrap() == all[k], "an event by its id");
        cover("done");
    }
    fn c31_events() {
        let h = StoreEventHandler::new();
        let d = db("d");
        let p = places();
        let mut all = vec![];
        for i in 0..3 {
            h.set_current_height(p[i].0);
            let mut txn = d.txn();
            let mut e = event(p[i].0, HubEventType::BlockConfirmed);
            h.commit_transaction(&mut txn, &mut e).unwrap();
            d.commit(txn).unwrap();
            all.push(e);
        }
        let (size, reverse, given) = (choose("size", 1, 3), choose("reverse", 0, 1) == 1, choose("given", 0, 1) == 1);
        split((size * 4 + reverse as usize * 2 + given as usize) as u64);
        let (from, to) = (any_u64("from"), given.then(|| any_u64("to")));
        let mut want: Vec<&HubEvent> = all.iter().filter(|e| e.id >= from && to.map_or(true, |t| e.id < t)).collect();
        if reverse { want.reverse(); }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..5 {
            let page = HubEvent::get_events(d.clone(), from, to, Some(PageOptions { page_size: Some(size), page_token: token, reverse })).unwrap();
            check(page.events.len() <= size, "no page is larger than asked for");
            got.extend(page.events);
            token = page.next_page_token;
            if token.is_none() { break; }
        }
        check(token.is_none() && got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == *w), "the events of a range once, in order");
        cover("done");
    }
    fn c31_prune_events() {
        let h = StoreEventHandler::new();
        let d = db("d");
        let p = places();
        let mut all = vec![];
        for i in 0..3 {
            h.set_current_height(p[i].0);
            let mut txn = d.txn();
            let mut e = event(p[i].0, if i == 1 { HubEventType::MergeMessage } else { HubEventType::BlockConfirmed });
            h.commit_transaction(&mut txn, &mut e).unwrap();
            d.commit(txn).unwrap();
            all.push(e);
        }
        let stop = any_u64("until");
        assume(stop < 1 << 50);
        let n = wait(HubEvent::prune_events_util(d.clone(), stop, &PageOptions { page_size: Some(choose("size", 1, 2)), page_token: None, reverse: false }, Duration::ZERO)).unwrap();
        check(n as usize == p.iter().filter(|x| x.0 < stop).count(), "counts what it prunes");
        for i in 0..3 { check(HubEvent::get_event(d.clone(), all[i].id).is_ok() == (p[i].0 >= stop), "prunes exactly the events below the height"); }
        cover("done");
    }
}
