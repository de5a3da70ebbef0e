//! bounds: every network; every block/message time below 2^40 s after the Farcaster epoch (two arbitrary times per query); every version of the schedule
//! assume: the version schedules are data; only ordering/consistency facts about them are asserted
use crate::{entries, vf::*};
use snapchain::core::util::*;
use snapchain::proto::FarcasterNetwork;
use snapchain::version::version::*;

const T: u64 = 1 << 40;
fn any_net() -> FarcasterNetwork { match choose("network", 0, 3) { 0 => FarcasterNetwork::None, 1 => FarcasterNetwork::Mainnet, 2 => FarcasterNetwork::Testnet, _ => FarcasterNetwork::Devnet } }
fn any_time(n: &str) -> u64 { let t = any_u64(n); assume(t < T); t }

/// the features that stay on once active, i.e. all but the short-lived bug emulation
fn gates(v: EngineVersion) -> u64 {
    use ProtocolFeature::*;
    let f = [FarcasterPro, Basenames, EnsValidation, MessageLengthCheckFix, PrimaryAddresses, UsernameShardRoutingFix, FutureTimestampValidation,
        DependentMessagesInBulkSubmit, DecoupleShardZeroBlockProduction, WriteDataToShardZero, ReadDataFromShardZero, UserProfileToken, StorageLending,
        EventIdBugFix, StorageLendingLimitFix, StopRevokingExistingMessages, IncreaseUsernameProofSizeLimit, GaslessSigners, LiveAt,
        StorageExpiryExtension2026, BlockLinks, ChannelRegistrations, SortedBlockEngineEvents, ChannelOwnershipEvents, ChannelMessages,
        VerificationsOnShardZero, ChannelFollows, IncreaseEmbedLimitForAllUsers];
    let mut m = 0u64;
    for (i, x) in f.into_iter().enumerate() { if v.is_enabled(x) { m |= 1 << i; } }
    m
}
entries! {
    fn c01_monotone() {
        let n = any_net();
        let (a, b) = (any_time("t1"), any_time("t2"));
        assume(a <= b);
        let va = EngineVersion::version_for(&FarcasterTime::new(a), n);
        let vb = EngineVersion::version_for(&FarcasterTime::new(b), n);
        check(va <= vb, "the engine version never goes back as time advances");
        check(va.protocol_version() <= vb.protocol_version(), "the protocol version never goes back as time advances");
        let (ga, gb) = (gates(va), gates(vb));
        check(ga & !gb == 0, "a feature that was on is off at a later time");
        cover("monotone");
    }
    fn c01_next() {
        let n = any_net();
        let t = any_time("t");
        let v = EngineVersion::version_for(&FarcasterTime::new(t), n);
        let ft = FarcasterTime::new(t);
        match EngineVersion::next_version_timestamp_for(&ft, n) {
            Some(next) => {
                check(next > ft.to_unix_seconds(), "the next upgrade is in the future");
                let u = any_time("u");
                assume(u >= t);
                let fu = FarcasterTime::new(u);
                let vu = EngineVersion::version_for(&fu, n);
                if fu.to_unix_seconds() < next { check(vu == v, "the version changes only at the announced upgrade time"); cover("before"); }
                if fu.to_unix_seconds() == next { check(vu > v, "the version changes at the announced upgrade time"); cover("at"); }
            }
            None => {
                let u = any_time("u");
                assume(u >= t);
                check(EngineVersion::version_for(&FarcasterTime::new(u), n) == v, "no upgrade is announced, yet the version changes later");
                cover("last");
            }
        }
    }
    fn c01_lockstep() {
        let n = any_net();
        let t = any_time("t");
        let v = EngineVersion::version_for(&FarcasterTime::new(t), n);
        use ProtocolFeature::*;
        let c = v.is_enabled(ChannelMessages);
        check(v.is_enabled(ChannelRegistrations) == c && v.is_enabled(SortedBlockEngineEvents) == c && v.is_enabled(ChannelOwnershipEvents) == c && v.is_enabled(VerificationsOnShardZero) == c, "the channel features are on together or off together");
        check(EngineVersion::channel_messages_enabled_for_snapshot(t, n) == c, "both sides of replication use the version rule for the snapshot time");
        check(v <= EngineVersion::latest(), "no scheduled version is beyond the latest");
        check(!(v.is_enabled(StorageLendingLimitFix) && !v.is_enabled(StorageLending)), "a fix is active before the feature it fixes");
        cover("lockstep");
    }
    fn c01_time() {
        let t = any_time("t");
        let f = FarcasterTime::new(t);
        check(f.to_u64() == t, "time is kept");
        check(f.to_unix_seconds() == t + 1_609_459_200, "Farcaster time counts from 2021-01-01");
        check(FarcasterTime::from_unix_seconds(f.to_unix_seconds()).to_u64() == t, "unix conversion round trip");
        check(from_farcaster_time(t) == f.to_unix_seconds() * 1000, "millisecond conversion agrees with the second conversion");
        let ms = any_u64("ms");
        match to_farcaster_time(ms) {
            Ok(s) => {
                check(ms >= 1_609_459_200_000 && s <= u32::MAX as u64, "range of a Farcaster time");
                check(from_farcaster_time(s) <= ms && ms - from_farcaster_time(s) < 1000, "to/from Farcaster time agree to the second");
                cover("ok");
            }
            Err(_) => { check(ms < 1_609_459_200_000 || (ms - 1_609_459_200_000) / 1000 > u32::MAX as u64, "a representable time is refused"); cover("err"); }
        }
        let now = FarcasterTime::current();
        check(get_farcaster_time().unwrap() == now.to_u64(), "both clocks agree");
        let d = any_u32("d") as u64;
        check(f.incr_by(d).to_u64() - d == t, "incr");
        check(f.incr_by(d).decr_by(d) == f, "decr");
        cover("arith");
    }
}
