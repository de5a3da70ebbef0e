//! bounds: up to three validator set entries of every height with every shard list of up to two shards, every height and shard; sets of up to three of three keys in every order; up to three proposals of every height with 2-byte hashes, every decided height
use crate::{com::*, entries, vf::*};
use snapchain::consensus::proposer::ProposedValues;
use snapchain::consensus::validator::*;
use snapchain::core::types::*;
use snapchain::proto::{self, full_proposal::ProposedValue, Block, FullProposal, ShardChunk};

fn key(k: usize) -> PublicKey { PublicKey::try_from_bytes(&ed_public(&[[1u8; 32], [2; 32], [3; 32]][k])).unwrap() }
fn validator(shard: u32, k: usize, h: u64) -> SnapchainValidator { SnapchainValidator::new(SnapchainShard(shard), key(k), None, h) }
fn proposal(h: proto::Height, hash: Vec<u8>, block: bool) -> FullProposal {
    FullProposal { height: Some(h), round: 1, proposer: vec![7; 32], proposed_value: Some(if block { ProposedValue::Block(Block { hash, ..Default::default() }) } else { ProposedValue::Shard(ShardChunk { hash, ..Default::default() }) }) }
}
fn height() -> proto::Height { proto::Height::new(any_u32("shard"), any_u64("block")) }

entries! {
    fn c21_set_at() {
        let (shard, h) = (any_u32("shard"), any_u64("height"));
        let n = choose("sets", 1, 3);
        let mut sets = vec![];
        let mut about = vec![];
        for i in 0..n {
            let at = any_u64("effective");
            let ids: Vec<u32> = (0..choose("shards", 0, 2)).map(|_| any_u32("of shard")).collect();
            let mut mine = false;
            for s in &ids { mine |= *s == shard; }
            about.push((at, mine));
            sets.push(StoredValidatorSet { effective_at: at, validators: SnapchainValidatorSet { validators: vec![validator(5, 0, i as u64)] }, shard_ids: ids });
        }
        let r = StoredValidatorSets::new(shard, sets).get_validator_set(h);
        let got = r.validators[0].current_height;
        // the newest set for this shard in force at the height; the first one until then
        let mut want = 0u64;
        let mut best = about[0].0;
        for (i, (at, mine)) in about.iter().enumerate() {
            let better = *mine & (*at <= h) & (*at > best);
            want = if better { i as u64 } else { want };
            best = if better { *at } else { best };
        }
        check(got == want, "a height is decided by the newest set in force for its shard");
        check(r.validators.len() == 1, "the set is as configured");
        cover("set");
    }
    fn c21_set_order() {
        let n = choose("added", 0, 3);
        let mut set = SnapchainValidatorSet::new(vec![]);
        let mut seen: Vec<usize> = vec![];
        for _ in 0..n {
            let k = choose("key", 0, 2);
            let other = choose("shard", 0, 1) as u32;
            let fresh = !seen.contains(&k);
            let first = seen.is_empty();
            if first && other == 1 { return }
            let r = set.add(validator(other, k, 0));
            check(r == (fresh && (first || other == 0)), "a validator is in the set once, for the set's shard");
            if r { seen.push(k); }
            check(set.exists(&Address(key(k).to_bytes())) == seen.contains(&k), "a validator of the set is known by its address");
        }
        check(set.validators.len() == seen.len(), "the set holds the validators added");
        let mut up = true;
        for w in set.validators.windows(2) { up &= w[0].address < w[1].address; }
        check(up, "every node has the validators in the same order");
        for v in &set.validators { check(v.address.0 == v.public_key.to_bytes(), "a validator's address is its key"); }
        check(set.shard_id() == 0, "the set is of its shard");
        cover("order");
    }
    fn c21_config() {
        let (at, ids) = (any_u64("effective"), vec![any_u32("shard")]);
        let ks: Vec<usize> = (0..choose("keys", 0, 2)).map(|_| choose("key", 0, 2)).collect();
        let c = snapchain::consensus::consensus::ValidatorSetConfig { effective_at: at, validator_public_keys: ks.iter().map(|k| hex::encode(key(*k).to_bytes())).collect(), shard_ids: ids.clone() };
        let s = StoredValidatorSet::new(SnapchainShard(9), &c);
        check(s.effective_at == at && s.shard_ids == ids, "a configured set is in force as configured");
        let mut want: Vec<usize> = ks.clone();
        want.sort(); want.dedup();
        check(s.validators.validators.len() == want.len(), "each configured key is a validator once");
        for k in want { check(s.validators.exists(&Address(key(k).to_bytes())), "each configured key is a validator"); }
        cover("config");
    }
    fn c21_proposals() {
        let n = choose("proposals", 0, 3);
        let mut p = ProposedValues::new();
        let mut all: Vec<(proto::Height, proto::ShardHash)> = vec![];
        for _ in 0..n {
            let h = proto::Height::new(any_u8("shard") as u32, any_u64("block"));
            let v = proposal(h, any_vec("hash", 1), all.len() == 1);
            let id = v.shard_hash();
            check(id.shard_index == h.shard_index, "a proposal is of its height's shard");
            // different proposals have different hashes
            for (_, j) in &all { assume(!(same(&id.hash, &j.hash) & (id.shard_index == j.shard_index))); }
            p.add_proposed_value(v);
            all.push((h, id));
        }
        check(p.count() == n, "every proposal is kept until decided");
        for (h, id) in &all { check(p.get_by_shard_hash(id).is_some_and(|v| v.height() == *h && same(&v.shard_hash().hash, &id.hash)), "a proposal is found by its hash"); }
        let d = proto::Height::new(any_u8("shard") as u32, any_u64("decided"));
        p.decide(d);
        let mut left = 0;
        for (h, id) in &all {
            let keep = conc_bool((h.shard_index > d.shard_index) | ((h.shard_index == d.shard_index) & (h.block_number > d.block_number)));
            check(p.get_by_shard_hash(id).is_some() == keep, "a decision drops proposals up to its height and no other");
            left += keep as usize;
        }
        check(p.count() == left, "a decision drops proposals up to its height and no other");
        if n > 0 { if left == 0 { cover("dropped"); } else { cover("kept"); } }
    }
    fn c21_heights() {
        let (a, b) = (height(), height());
        check((a < b) == ((a.shard_index < b.shard_index) | ((a.shard_index == b.shard_index) & (a.block_number < b.block_number))), "heights are ordered by shard and number");
        check(a.as_u64() == a.block_number, "a height is its number");
        let n = any_u64("by");
        match a.decrement_by(n) {
            Some(c) => { check((a.block_number >= n) & (c.block_number + n == a.block_number) & (c.shard_index == a.shard_index), "heights go back in their shard"); check(c.increment_by(n) == a, "forth undoes back"); cover("back"); }
            None => { check(a.block_number < n, "there is no height before the first"); cover("none"); }
        }
        check(a.decrement() == a.decrement_by(1), "back is back by one");
        if conc_bool(a.block_number < u64::MAX) { check(a.increment().block_number == a.block_number + 1 && a.increment().shard_index == a.shard_index && a.increment().decrement() == Some(a), "the next height is one more"); }
    }
    fn c21_messages() {
        use proto::{consensus_message::ConsensusMessage as C, ConsensusMessage};
        let h = if choose("has height", 0, 1) == 1 { Some(height()) } else { None };
        let m = match choose("kind", 0, 2) { 0 => None, 1 => Some(C::Vote(proto::Vote { height: h.clone(), ..Default::default() })), _ => Some(C::Proposal(proto::Proposal { height: h.clone(), ..Default::default() })) };
        let none = m.is_none();
        let r = ConsensusMessage { consensus_message: m, ..Default::default() }.shard_id();
        match (&h, none) { (Some(h), false) => { check(r == Ok(h.shard_index), "a consensus message belongs to its height's shard"); cover("shard"); } _ => { check(r.is_err(), "without a height there is no shard"); cover("none"); } }
        let f = FullProposal { height: h.clone(), ..Default::default() };
        check(f.shard_id().ok() == h.map(|h| h.shard_index), "a proposal belongs to its height's shard");
    }
}
