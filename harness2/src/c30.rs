//! bounds: three rows (four when counting) with keys of 2 or 3 bytes, the last two of any value; any range of keys of 2 bytes; pages of 1 to 3; both directions; batches of three changes
use crate::{entries, st::*, vf::*};
use snapchain::storage::db::*;
use snapchain::storage::util::increment_vec_u8;

type Row = (Vec<u8>, Vec<u8>);
fn key() -> Vec<u8> { let n = choose("longer", 0, 1); let mut k = any_vec("key", 2); if n == 1 { k.push(any_u8("end")); } k }
/// rows in the order of their keys (of the given lengths)
fn fill(d: &RocksDB, n: usize) -> Vec<Row> {
    let rows: Vec<Row> = (0..n).map(|i| (key(), vec![i as u8])).collect();
    for i in 1..n { assume(less(&rows[i - 1].0, &rows[i].0)); }
    for i in (0..n).rev() { d.put(&rows[i].0, &rows[i].1).unwrap(); }
    rows
}
/// the order of keys, as one condition
fn less(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    let (mut lt, mut eq) = (false, true);
    for i in 0..n { lt |= eq & (a[i] < b[i]); eq &= a[i] == b[i]; }
    lt | (eq & (a.len() < b.len()))
}
fn list(d: &RocksDB, start: &Option<Vec<u8>>, stop: &Option<Vec<u8>>, o: &PageOptions) -> Vec<Row> {
    let mut v = vec![];
    d.for_each_iterator_by_prefix_paged(start.clone(), stop.clone(), o, |k, x| { v.push((k.to_vec(), x.to_vec())); Ok(false) }).unwrap();
    v
}
fn is(got: &[Row], want: &[&Row]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same(&a.0, &b.0) & same(&a.1, &b.1)) }

entries! {
    fn c30_range() {
        let (reverse, size, given) = (choose("reverse", 0, 1) == 1, choose("size", 0, 3), choose("given", 0, 3));
        split((given * 10 + size * 2 + reverse as usize) as u64);
        let d = db("d");
        let all = fill(&d, 3);
        let start = (given & 1 == 1).then(|| any_vec("start", 2));
        let stop = (given & 2 == 2).then(|| any_vec("stop", 2));
        let mut want: Vec<&Row> = all.iter().filter(|r| start.as_ref().map_or(true, |s| !less(&r.0, s)) && less(&r.0, stop.as_ref().unwrap_or(&vec![255; 32]))).collect();
        if reverse { want.reverse(); }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..4 {
            let page = list(&d, &start, &stop, &PageOptions { page_size: (size > 0).then_some(size), page_token: token, reverse });
            check(size == 0 || page.len() <= size, "no page is larger than asked for");
            if page.is_empty() { break; }
            check(size == 0 || page.len() == size || got.len() + page.len() == want.len(), "only the last page is short");
            token = page.last().map(|r| r.0.clone());
            got.extend(page);
        }
        check(is(&got, &want), "every row of the range once, in order");
        cover("done");
    }
    fn c30_prefix() {
        let d = db("d");
        let all = fill(&d, 3);
        let p = any_vec_upto("prefix", 1, 2);
        split(p.len() as u64);
        if conc_bool(p.iter().all(|b| *b == 255)) { cover("top"); return; }
        let want: Vec<&Row> = all.iter().filter(|r| r.0.len() >= p.len() && same(&r.0[..p.len()], &p)).collect();
        check(d.count_keys_at_prefix(p.clone()).unwrap() as usize == want.len(), "counts the rows under a prefix");
        check(is(&list(&d, &Some(p.clone()), &Some(increment_vec_u8(&p)), &PageOptions::default()), &want), "lists the rows under a prefix");
        cover("done");
    }
    fn c30_stop() {
        // a callback that has enough ends the walk and says so
        let d = db("d");
        let all = fill(&d, 3);
        let (n, reverse) = (choose("wanted", 1, 4), choose("reverse", 0, 1) == 1);
        let mut got = vec![];
        let done = d.for_each_iterator_by_prefix(None, Some(vec![255; 5]), &PageOptions { page_size: Some(1), page_token: None, reverse }, |k, v| { got.push((k.to_vec(), v.to_vec())); Ok(got.len() == n) }).unwrap();
        let mut want: Vec<&Row> = all.iter().collect();
        if reverse { want.reverse(); }
        want.truncate(n);
        check(is(&got, &want), "the first rows in the direction asked for");
        check(done == (n > 3), "says whether it got to the end");
        cover("done");
    }
    fn c30_delete() {
        let d = db("d");
        let all = fill(&d, 3);
        let (start, stop) = (any_vec("start", 2), any_vec("stop", 2));
        let (size, reverse) = (choose("size", 0, 3), choose("reverse", 0, 1) == 1);
        split((size * 2 + reverse as usize) as u64);
        let inside: Vec<&Row> = all.iter().filter(|r| !less(&r.0, &start) && less(&r.0, &stop)).collect();
        let n = if size == 0 { inside.len() } else { size.min(inside.len()) };
        let gone: Vec<u8> = (if reverse { &inside[inside.len() - n..] } else { &inside[..n] }).iter().map(|r| r.1[0]).collect();
        let k = d.delete_page(Some(start), Some(stop), &PageOptions { page_size: (size > 0).then_some(size), page_token: None, reverse }, choose("skip", 0, 1) == 1).unwrap();
        check(k as usize == n, "counts the rows it deletes");
        let want: Vec<&Row> = all.iter().filter(|r| !gone.contains(&r.1[0])).collect();
        check(is(&raw(), &want), "deletes the page and nothing else");
        cover("done");
    }
    fn c30_batch() {
        // the last change to a key in a batch counts; a batch is applied whole or not at all
        let d = db("d");
        let ks: Vec<Vec<u8>> = (0..2).map(|_| any_vec("key", 2)).collect();
        assume(!same(&ks[0], &ks[1]));
        let had = choose("had", 0, 1) == 1;
        if had { d.put(&ks[0], &[9]).unwrap(); }
        let mut want: [Option<u8>; 2] = [had.then_some(9), None];
        let (mut a, mut b) = (d.txn(), d.txn());
        for i in 0..3 {
            let (k, put) = (choose("of", 0, 1), choose("put", 0, 1) == 1);
            let t = if i < 2 { &mut a } else { &mut b };
            if put { t.put(ks[k].clone(), vec![i as u8]) } else { t.delete(ks[k].clone()) }
            want[k] = put.then_some(i as u8);
        }
        let crash = choose("crash", 0, 1) == 1;
        let before = raw();
        a.merge(b);
        if crash { ::rocksdb::crash_after(Some(0)); }
        let _ = d.commit(a);
        ::rocksdb::crash_after(None);
        d.close();
        check(d.get(&ks[0]).is_err(), "a closed database does not answer");
        d.open().unwrap();
        if crash { check(raw() == before, "nothing of a lost batch"); }
        else { for k in 0..2 { check(d.get(&ks[k]).unwrap() == want[k].map(|x| vec![x]), "the last change to each key"); } }
        let e = d.keys_exist(&ks);
        check(e[0] == d.get(&ks[0]).unwrap().is_some() && e[1] == d.get(&ks[1]).unwrap().is_some(), "says which keys exist");
        let m = d.get_many(&ks).unwrap();
        for k in 0..2 { check(m[k] == d.get(&ks[k]).unwrap().unwrap_or_default(), "many at once"); }
        cover("done");
    }
    fn c30_live() {
        // a transaction that fails changes nothing
        let d = db("d");
        let (a, b) = (any_vec("a", 2), any_vec("b", 2));
        d.put(&a, &[1]).unwrap();
        let fail = choose("fail", 0, 1) == 1;
        let before = raw();
        let r = d.transaction_with(|t| {
            let v = t.get_for_update(&b, true)?;
            t.put(&b, [v.map_or(0, |v| v[0]) + 1])?;
            if fail { Err(RocksdbError::DecodeError) } else { Ok(7) }
        });
        check(r.is_err() == fail, "says whether it failed");
        if fail { check(raw() == before, "a failed transaction leaves no trace"); }
        else { check(d.get(&b).unwrap() == Some(vec![if same(&a, &b) { 2 } else { 1 }]), "a transaction reads what it changes"); }
        cover("done");
    }
    fn c30_index() {
        // the next entry of an index after a place, and never another index's
        let d = db("d");
        let all: Vec<Row> = (0..2).map(|i| (vec![choose("index", 4, 5) as u8, any_u8("at"), 1], vec![100 + i as u8])).collect();
        assume(!same(&all[0].0, &all[1].0));
        for (i, r) in all.iter().enumerate() { d.put(&r.0, &r.1).unwrap(); if i == 0 || choose("dangling", 0, 1) == 0 { d.put(&r.1, &[i as u8]).unwrap(); } }
        let start = vec![4, any_u8("start")];
        let mut best: Option<&Row> = None;
        for r in &all { if r.0[0] == 4 && r.0[1] >= start[1] && best.map_or(true, |b| r.0[1] < b.0[1]) { best = Some(r); } }
        let got = d.get_next_by_index(vec![4], start);
        match best {
            None => check(got.unwrap().is_none(), "nothing further"),
            Some(r) => match d.get(&r.1).unwrap() { Some(v) => check(got.unwrap() == Some(v), "the next entry"), None => check(got.is_err(), "an entry that leads nowhere is an error") },
        }
        cover("done");
    }
}
fn raw() -> Vec<Row> { ::rocksdb::disk(std::path::Path::new("d")).lock().unwrap().rows.clone() }
