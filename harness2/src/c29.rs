//! bounds: three keys that agree on the first five bytes, the sixth being one of two, any seventh and eighth byte; up to four operations, alone or in batches, with the trie kept in memory or read back
use crate::{entries, st::*, vf::*};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch as Txn};
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie};
use snapchain::storage::trie::util::expand_nibbles;
use std::collections::HashMap;

type Key = Vec<u8>;
/// what the trie over a set of keys is: every node's path with its hash and number of keys
fn spec(path: Vec<u8>, keys: &[Key], out: &mut Vec<(Vec<u8>, Vec<u8>, usize)>) -> Vec<u8> {
    let d = path.len();
    let hash = if d >= 12 && keys.len() == 1 { blake3(&keys[0])[..20].to_vec() } else {
        let mut cat = vec![];
        let mut next: Vec<u8> = vec![];
        for k in keys { if !next.contains(&k[d]) { let at = next.iter().position(|c| k[d] < *c).unwrap_or(next.len()); next.insert(at, k[d]); } }
        for c in next {
            let sub: Vec<Key> = keys.iter().filter(|k| k[d] == c).cloned().collect();
            let mut p = path.clone();
            p.push(c);
            cat.extend(spec(p, &sub, out));
        }
        if cat.is_empty() { vec![] } else { blake3(&cat)[..20].to_vec() }
    };
    out.push((path, hash.clone(), keys.len()));
    hash
}
/// three different keys
fn keys(types: bool) -> Vec<Key> {
    let ks: Vec<Key> = (0..3).map(|i| vec![9, 0, 0, 0, 7, if types && i > 0 && choose("type", 0, 1) == 1 { [0x18, 7][i - 1] } else { 8 }, any_u8("tail") & if types { 0xf0 } else { 0xff }]).collect();
    for i in 0..3 { for j in 0..i { assume(!same(&ks[i], &ks[j])); } }
    ks
}
fn add(set: &mut Vec<usize>, k: usize) -> bool { if set.contains(&k) { return false; } set.push(k); true }
fn del(set: &mut Vec<usize>, k: usize) -> bool { let n = set.len(); set.retain(|x| *x != k); set.len() != n }
/// the trie is what its keys make it, in memory and on disk
fn holds(t: &mut MerkleTrie, d: &RocksDB, ks: &[Key], set: &[usize], read: bool) {
    let mut nodes = vec![];
    let ex: Vec<Key> = set.iter().map(|k| expand_nibbles(&ks[*k])).collect();
    let root = spec(vec![], &ex, &mut nodes);
    check(same(&t.root_hash().unwrap(), &root), "the root hash depends on the keys alone");
    check(t.items().unwrap() == set.len(), "the root counts the keys");
    let c = Context::new();
    for k in 0..ks.len() { check(t.exists(&c, d, &ks[k]).unwrap() == set.contains(&k), "a key exists when it was added and not removed"); }
    if read {
        let stored = rows("t");
        check(stored.len() == nodes.len() || (set.is_empty() && stored.is_empty()), "there is a row for each node and no other");
        for (path, hash, n) in &nodes {
            if path.len() % 2 == 1 { continue; }
            let p: Vec<u8> = path.chunks(2).map(|x| x[0] << 4 | x[1]).collect();
            check(same(&t.get_hash(d, &Txn::new(), &p).unwrap(), hash), "the stored hash of a node");
            check(t.get_count(d, &Txn::new(), &p).unwrap() == *n as u64, "the stored count of a node");
        }
    }
}
type Op = (usize, usize); // (0 to add, 1 to remove; which key)
const A: usize = 0;
const D: usize = 1;
fn ops(first: &[Op], types: bool, reload: bool) {
    flag("free:blake3", 1);
    let last = (choose("op", 0, 1), choose("key", 0, 2));
    split((last.0 * 3 + last.1) as u64);
    let ks = keys(types);
    let d = db("t");
    let c = Context::new();
    let mut t = MerkleTrie::new().unwrap();
    t.initialize(&d).unwrap();
    let mut set = vec![];
    for (op, k) in first.iter().cloned().chain([last]) {
        let key = &ks[k][..];
        let mut txn = Txn::new();
        let (got, want) = if op == A { (t.insert(&c, &d, &mut txn, vec![key]).unwrap(), add(&mut set, k)) } else { (t.delete(&c, &d, &mut txn, vec![key]).unwrap(), del(&mut set, k)) };
        check(got.len() == 1 && got[0] == want, "an operation says whether it changed anything");
        d.commit(txn).unwrap();
        if reload { t = MerkleTrie::new().unwrap(); t.initialize(&d).unwrap(); }
    }
    holds(&mut t, &d, &ks, &set, true);
    cover("done");
}

entries! {
    fn t_c29_aaa() { ops(&[(A, 0), (A, 1), (A, 2)], false, false); }
    fn c29_aad() { ops(&[(A, 0), (A, 1), (D, 0)], false, false); }
    fn c29_ada() { ops(&[(A, 0), (D, 0), (A, 1)], false, false); }
    fn c29_aad_reload() { ops(&[(A, 0), (A, 1), (D, 0)], false, true); }
    fn c29_types() { ops(&[(A, 0), (A, 1), (A, 2)], true, false); }
    fn c29_types_reload() { ops(&[(A, 0), (A, 1), (A, 2)], true, true); }
    fn t_c29_aaa_reload() { ops(&[(A, 0), (A, 1), (A, 2)], false, true); }
    fn t_c29_aadd() { ops(&[(A, 0), (A, 1), (A, 2), (D, 1)], false, true); }
    fn c29_batches() {
        flag("free:blake3", 1);
        let b = [0, 1].map(|_| { let op = choose("op", 0, 1); let n = choose("n", 1, 3); (op, n, choose("from", 0, 2)) });
        split(b.iter().fold(0, |a, (o, n, f)| a * 18 + (o * 9 + n * 3 - 3 + f) as u64));
        let ks: Vec<Key> = (0..3).map(|i| vec![9, 0, 0, 0, 7, 8 + (i as u8 & 1), any_u8("tail") & 0xf0]).collect();
        assume(!same(&ks[0], &ks[2]));
        let d = db("t");
        let c = Context::new();
        let mut t = MerkleTrie::new().unwrap();
        t.initialize(&d).unwrap();
        let mut txn = Txn::new();
        t.insert(&c, &d, &mut txn, vec![&ks[0][..]]).unwrap();
        d.commit(txn).unwrap();
        t.reload(&d).unwrap();
        let mut set = vec![0];
        for (op, n, from) in b {
            let pick: Vec<usize> = (0..n).map(|i| (from + i) % 3).collect();
            let mut txn = Txn::new();
            let args: Vec<&[u8]> = pick.iter().map(|k| &ks[*k][..]).collect();
            let got = if op == A { t.insert(&c, &d, &mut txn, args).unwrap() } else { t.delete(&c, &d, &mut txn, args).unwrap() };
            let want: Vec<bool> = pick.iter().map(|k| if op == A { add(&mut set, *k) } else { del(&mut set, *k) }).collect();
            check(got == want, "a batch says which keys changed anything");
            check(same(&t.get_hash(&d, &txn, &[]).unwrap(), &t.root_hash().unwrap()) || set.is_empty(), "the pending root can be read");
            d.commit(txn).unwrap();
        }
        holds(&mut t, &d, &ks, &set, true);
        let mut again = MerkleTrie::new().unwrap();
        again.initialize(&d).unwrap();
        holds(&mut again, &d, &ks, &set, false);
        cover("done");
    }
    fn c29_lists() {
        flag("free:blake3", 1);
        let n = choose("keys", 1, 3);
        let reload = choose("reload", 0, 1) == 1;
        let (prefix, size) = (choose("prefix", 0, 3), choose("size", 1, 3));
        split((n * 100 + reload as usize * 50 + prefix * 4 + size) as u64);
        let ks: Vec<Key> = (0..3).map(|i| vec![9, 0, 0, 0, [7, 7, 8][i], 8, any_u8("tail") & 0xf0, i as u8]).collect();
        let d = db("t");
        let c = Context::new();
        let mut t = MerkleTrie::new().unwrap();
        t.initialize(&d).unwrap();
        let mut txn = Txn::new();
        t.insert(&c, &d, &mut txn, ks[..n].iter().map(|k| &k[..]).collect()).unwrap();
        d.commit(txn).unwrap();
        if reload { t.reload(&d).unwrap(); }
        let p: &[u8] = [&[][..], &[9, 0, 0, 0, 7], &[9, 0, 0, 0, 8, 8], &[9, 0, 1]][prefix];
        let mut want: Vec<Key> = ks[..n].iter().filter(|k| k.starts_with(p)).cloned().collect();
        want.sort();
        check(t.get_all_values(&c, &d, p).unwrap() == want, "the keys under a prefix, in order");
        let (mut got, mut token) = (vec![], None);
        for _ in 0..5 {
            let mut page = vec![];
            token = t.get_paged_values_of_subtree(&c, &d, p, &mut page, size, token).unwrap();
            check(page.len() <= size && (token.is_none() || page.len() == size), "pages are of the size asked for");
            got.extend(page);
            if token.is_none() { break; }
        }
        check(token.is_none() && got == want, "pages list every key once, in order");
        match t.get_trie_node_metadata(&d, &mut Txn::new(), p) {
            Ok(m) => {
                check(m.num_messages == want.len() && !want.is_empty(), "counts the keys under a prefix");
                let mut sum = 0;
                for (c, k) in &m.children {
                    let below = want.iter().filter(|w| w.len() > p.len() && w[p.len()] >> 4 == *c).count();
                    check(k.num_messages == below && below > 0, "counts the keys under each child");
                    sum += k.num_messages;
                }
                check(sum == want.len() || m.children.is_empty(), "children hold every key");
            }
            Err(_) => check(want.is_empty(), "a prefix of a key has a node"),
        }
        cover("done");
    }
}
