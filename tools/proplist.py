B = "Within the stated bounds every input is decided by the solver on the real code's bitcode; the engine's models (allocator, hashing, clock, formatting) and z3/cvc5 are trusted; nothing is claimed outside the bounds."
prop("C01", "Protocol upgrades are a monotone, agreed function of network and time",
     "For every network, the engine version is a function of the given time alone; as time advances the engine version, the protocol version and the set of enabled features never go back, and the version changes exactly at the announced next-upgrade time. Features that must activate together do, and conversions between Farcaster, unix and millisecond time agree with each other.",
     ["inputs", "configurations"], "every pair of times below 2^40 s, every network, every scheduled version",
     "Unit tests sample single instants around some upgrades on some networks; a node that disagrees at one second of one network forks.",
     ["src/version/version.rs", "src/core/util.rs"], [("EngineVersion::version_for", "src/version/version.rs"), ("next_version_timestamp_for", "src/version/version.rs"), ("is_enabled", "src/version/version.rs"), ("FarcasterTime", "src/core/util.rs")], B)
M = "src/core/validations/"
prop("C02", "Casts, links and reactions are accepted exactly when they are well formed",
     "A cast is accepted exactly when its text fits its type (320 bytes, 1024 for a long cast, 10000 for a pro user's), it is not empty, embeds stay within the limit of the version and plan and are well formed, mentions are at most ten real users at sorted positions inside the text, and the parent is well formed; links have a type of 1 to 8 bytes and a real target, reactions a known type and a well-formed target; removals name 20-byte hashes. Nothing else influences the verdict.",
     ["inputs", "configurations"], "all texts up to 12000 bytes, all enum values, embeds and mentions around every limit, every version and plan",
     "Every bound is a consensus rule: a node that accepts one more byte forks. Tests sample a handful of lengths and combinations.",
     [M + "cast.rs", M + "link.rs", M + "reaction.rs", M + "mod.rs"], [("validate_cast_add_body", M + "cast.rs"), ("validate_link_body", M + "link.rs"), ("validate_reaction_body", M + "reaction.rs")], B)
prop("C03", "A message counts only if its hash and signature are its author's over its data",
     "A message is accepted only when its hash is the blake3-160 of its data, its signature is the named signer's Ed25519 signature of that hash, schemes are the known ones, network matches, the timestamp is not too far ahead, the data fits its size limit and decodes, and its body passes the rules of its kind; data in bytes form and in structured form are judged alike; any alteration of hash, signature, signer or data is refused.",
     ["inputs"], "every tampering of hash, signature and signer, every header field value, every message and block time, every body kind",
     "Tests flip a field or two; a missing comparison shows only on the forged input nobody wrote.",
     [M + "message.rs"], [("validate_message", M + "message.rs"), ("validate_signature", M + "message.rs")], B)
prop("C04", "Names, addresses and profile values are accepted exactly when well formed",
     "Usernames, ENS and Base names, Twitter and GitHub handles, profile tokens, primary Ethereum and Solana addresses and the sized profile fields are accepted exactly when they have the documented form (characters, lengths, checksum, plan and protocol version), for every string.",
     ["inputs", "configurations"], "every string within the stated lengths, every user-data type and version",
     "String grammars have corner inputs at each boundary; tests list examples.",
     [M + "message.rs"], [("validate_user_data_add_body", M + "message.rs"), ("validate_fname", M + "message.rs"), ("validate_ens_name", M + "message.rs")], B)
prop("C05", "Frame, storage-lend, channel and username-proof messages obey their limits",
     "A frame action, storage lend, channel update, channel membership action, pin, moderation or username proof is accepted exactly when its version is reached and each field has a value, length and age the protocol allows; for instance a storage lend at most ten minutes old of at most 5000 units of a known unit type, a channel id of 32 bytes, a member FID that fits 32 bits.",
     ["inputs", "configurations"], "every value of every integer and enum field, lengths around the limits, every version",
     "Each field has its own boundary and version gate; tests visit few.",
     [M + "message.rs"], [("validate_message", M + "message.rs"), ("validate_frame_action_body", M + "message.rs")], B)
prop("C06", "An address is verified only by its own signature over that user's claim",
     "A verification of an Ethereum or Solana address is accepted only when the address itself signed the claim for exactly this user, network, block hash and address; contract verifications only for listed chains, with well-formed fields; removals name an address of their protocol.",
     ["inputs"], "every user, network, block hash, tampering of signature or address, chain id, type and protocol",
     "A claim that omits one bound field verifies for someone else; tests only show valid claims and random garbage.",
     [M + "verification.rs"], [("validate_add_address", M + "verification.rs"), ("validate_remove_address", M + "verification.rs")], B)
prop("C07", "Key changes are authorised for exactly one user, key, scope, time and purpose",
     "A custody signature over a key addition or removal authorises exactly the FID, key, key type, scopes, ttl, nonce, deadline and chain signed, and one kind only; a signed key request is accepted exactly when the named requester signed this user, key and unexpired deadline; key bodies are accepted exactly when key, scopes, ttl, deadline, metadata and authorisation type are allowed.",
     ["inputs"], "every pair of payloads with 32-bit numbers and up to two scopes each; every request and time; every field value of the bodies",
     "Replay across fields or kinds needs a pair of payloads differing in one place; tests try a few.",
     [M + "key.rs"], [("recover_key_add_custody_address", M + "key.rs"), ("verify_signed_key_request_metadata", M + "key.rs"), ("validate_key_add_body", M + "key.rs")], B)
prop("C08", "A username is granted only by the registry's signature over that grant",
     "A username transfer is accepted only when the registry's key signed exactly that name, timestamp and owner; any other name, time, owner, signer or altered signature is refused; names that are not text are refused; and converting the registry's answer keeps the number, users, name, owner and signature as given.",
     ["inputs"], "every pair of claims with short names, every signature tampering, every registry answer within the bounds",
     "A field left out of the signed claim shows only when someone replays a signature with that field changed.",
     [M + "verification.rs", "src/connectors/fname/mod.rs"], [("validate_fname_transfer", M + "verification.rs"), ("transfer_to_fname_transfer", "src/connectors/fname/mod.rs")], B)
prop("C09", "Every message has exactly one home shard, the same on every node",
     "The shard of a message is a function of its user, its type and the protocol version only: key, channel and (from their version) verification messages go to shard 0, everything else to its user's shard, which always exists; the user's shard and trie shard are the published hash of the user id.",
     ["inputs", "configurations"], "every user, shard count, message type, version, and every other content of the message",
     "Routing decides which chain a message may enter; tests route a few users over a few shards.",
     ["src/mempool/routing.rs", "src/storage/trie/merkle_trie.rs"], [("route_message", "src/mempool/routing.rs"), ("ShardRouter::route_fid", "src/mempool/routing.rs"), ("TrieKey::fid_shard", "src/storage/trie/merkle_trie.rs")], B)
prop("C10", "State-root keys tell all entries apart and each event updates exactly its own",
     "The trie key of a message, on-chain event or username is the published layout of user, kind and identity; different entries have different keys, no key is a prefix of another, keys decode to their parts; and each hub event adds and removes exactly the keys of the entries it adds and removes.",
     ["inputs"], "every pair of entries of every kind, every event kind with up to two replaced messages",
     "A collision or a forgotten removal corrupts the state root only for particular pairs of entries.",
     ["src/storage/trie/merkle_trie.rs"], [("TrieKey::for_message", "src/storage/trie/merkle_trie.rs"), ("TrieKey::for_hub_event", "src/storage/trie/merkle_trie.rs"), ("TrieKey::decode", "src/storage/trie/merkle_trie.rs")], B)
prop("C11", "A channel has exactly one accepted name, and it names only that channel",
     "A channel URI is accepted only in its canonical spelling (decimal numbers without leading zeros or signs that fit their types, checksummed contract, right namespaces), names exactly the chain, contract and token written, comes back as written, and counts as a channel follow only for the network's registrar.",
     ["inputs"], "every short chain, token and address fragment, every structure deviation, numbers around the type limits",
     "Two spellings of one channel make two follows of it; tests list a few malformed names.",
     ["src/core/channel_uri.rs"], [("ChannelAssetId::parse", "src/core/channel_uri.rs"), ("channel_id_for_follow_target", "src/core/channel_uri.rs")], B)
prop("C12", "Trie paths and page tokens survive encoding; bad tokens are refused safely",
     "A trie page token decodes to what was encoded; malformed, truncated or trailing bytes are refused without crashing; splitting a key into half bytes keeps content, order and distinctness.",
     ["inputs"], "tokens of up to three short segments, announced lengths and counts true and false, every short text",
     "Tokens come from clients: a wrong bound crashes or misreads only on an adversarial length.",
     ["src/storage/trie/util.rs"], [("decode_trie_page_token", "src/storage/trie/util.rs"), ("encode_trie_page_token", "src/storage/trie/util.rs"), ("expand_nibbles", "src/storage/trie/util.rs")], B)
A = "src/storage/store/account/"
prop("C13", "Stored messages keep their place: keys are exact, ordered and reversible",
     "A message is stored whole under the key of its user, set, time and hash and found again byte for byte, in its signed form; different messages have different keys; keys sort by user, set, time and hash; prefixes cover exactly their rows; a position in time is recovered from its key; lexicographic neighbours, time filters and page tokens neither skip nor leak rows; malformed hashes are refused without writing.",
     ["inputs"], "every user, time, set, hash; byte strings and prefixes of up to 7 bytes; both encodings of a message",
     "A key that collides, sorts wrong or overflows a carry is wrong for particular bytes only; tests use a handful.",
     [A + "message.rs", "src/storage/util.rs"], [("make_message_primary_key", A + "message.rs"), ("make_ts_hash", A + "message.rs"), ("put_message_transaction", A + "message.rs"), ("message_encode", A + "message.rs"), ("increment_vec_u8", "src/storage/util.rs")], B)
prop("C14", "Every index row names exactly its entry, and prefixes cover only their own",
     "Casts, replies, mentions, links, reactions, follows, verifications, profile values, usernames, loans, keys, on-chain events, channels and blocks have index rows of the documented layout: the row names the entry's user, kind, target and time, different entries have different rows, the rows of one parent, target, user or kind share a prefix that covers no other's, and the parts come back from the row.",
     ["inputs"], "every user, time, hash, key, address; names, link types and URLs of a few characters",
     "An index key with a missing or misplaced part mixes entries only for particular values.",
     [A + x for x in ("cast_store.rs", "link_store.rs", "reaction_store.rs", "verification_store.rs", "key_add_store.rs", "onchain_event_store.rs", "storage_lend_store.rs", "name_registry_events.rs")],
     [("CastStore::make_cast_by_parent_key", A + "cast_store.rs"), ("LinkStore::links_by_target_key", A + "link_store.rs"), ("ReactionStore::make_reactions_by_target_key", A + "reaction_store.rs"), ("make_verification_by_address_prefix", A + "verification_store.rs")], B)
prop("C15", "Contested names, addresses and channels go to the newest claim, everywhere",
     "Of competing claims the winner depends on the claims alone, never on their order: a verified address belongs to the newest claim (lower user on a tie), a name to the later proof (greater signature on a tie), a channel to the later chain event, a live status to the later message; a granted or released name leaves exactly the rows by name and by user, so that a name is found under its present user and no other.",
     ["inputs", "orders"], "every triple of claims, every pair of proofs, events and status messages, every pair of users and short names",
     "Ties and renewals are rare inputs on which nodes must agree; tests compare one or two pairs.",
     [A + "verification_store.rs", A + "user_data_store.rs", A + "name_registry_events.rs", A + "onchain_event_store.rs", "src/mempool/mempool.rs"],
     [("select_verification_address_winner", A + "verification_store.rs"), ("put_username_proof_transaction", A + "name_registry_events.rs"), ("username_proof_compare", A + "user_data_store.rs"), ("live_at_lww_compare", "src/mempool/mempool.rs")], B)
prop("C16", "Event ids are unique, ordered by block and place, and decode to both",
     "A hub event's id is its block height and its place in the block: ids never repeat or go back, a block's own confirmation comes first, numbering starts anew with each block and has no gaps, ids that do not fit are refused, height and place come back from the id, and events are stored in the order of their ids.",
     ["inputs", "histories"], "every height and place, every id, runs of up to three events of every type from any place",
     "Overflow and order hold or fail at the edges of the bit fields, which tests do not reach.",
     [A + "event.rs"], [("HubEventIdGenerator", A + "event.rs"), ("HubEvent::from_validator_message", A + "event.rs"), ("StoreEventHandler", A + "event.rs")], B)
prop("C17", "Storage counts while it lasts and limits each store by the announced units",
     "Storage counts exactly until it expires; storage of several kinds adds up kind by kind in any order, lent storage leaves the lender and reaches the borrower, expired storage changes nothing; every message kind counts in exactly one store, and a user may keep in each store the sum over kinds of units times the announced limit.",
     ["inputs", "configurations"], "every pair of slots up to 100000 units per kind, every time and expiry, every store, kind and message type",
     "Limits decide what is merged and pruned on every node; tests check round numbers of one kind.",
     [A + "onchain_event_store.rs", "src/storage/store/stores.rs"], [("StorageSlot", A + "onchain_event_store.rs"), ("StoreLimits::max_messages", "src/storage/store/stores.rs"), ("Limits", "src/storage/store/stores.rs")], B)
prop("C18", "Channels obey their roles: who may do what, to whom, in which state",
     "A channel member action is allowed exactly to those whose role permits it on a target in a fitting state; the owner cannot be banned, a banned user can only be unbanned; unset modes fold to the strictest; each action leads to its one state; each kind of channel message has its own slot and rows; a label is the hash of its key; and system messages are replayed in one order, chain events first in chain order.",
     ["inputs", "configurations", "orders"], "every action, role, state, mode and flag; every message kind and channel id; every order of up to three system messages at every version",
     "A wrong cell of the authority matrix, or an unstable order, lets nodes or users disagree only in that case.",
     ["src/storage/store/block_engine.rs", A + "channel_store.rs", A + "onchain_event_store.rs"], [("channel_member_authority", "src/storage/store/block_engine.rs"), ("fold_channel_modes", A + "channel_store.rs"), ("block_engine_system_messages_for_replay", "src/storage/store/block_engine.rs"), ("validate_channel_key_label", A + "onchain_event_store.rs")], B)
prop("C19", "A delegated key signs only the message types it was given",
     "An on-chain key may sign every type of message; a gasless key exactly the types listed when it was added, with the time to live it was given; a scope entry that is no message type admits nothing, and without a key addition there is no scope.",
     ["inputs"], "every mask, type and ttl; lists of up to three scopes of any value",
     "A wrong bit admits another type than the one granted; tests try a few types.",
     [A + "active_key.rs"], [("ActiveKey::admits", A + "active_key.rs"), ("compute_scopes_mask", A + "active_key.rs"), ("extract_scope_and_ttl", A + "active_key.rs")], B)
prop("C20", "A channel follow is a like of a channel, kept in both lists until undone",
     "Exactly a like of a token of the network's registrar is a follow of that channel; from the version on that introduces them each follow has one row under its user and one under its channel with its time, renewing it changes the time, undoing it removes both rows, and no other follow is touched.",
     ["inputs", "orders"], "every user, channel, time, reaction type, target kind, registrar and version; every two operations",
     "A follow that survives its removal, or a recast that counts as one, needs a particular pair of messages.",
     [A + "reaction_store.rs", A + "store.rs", "src/core/channel_uri.rs"], [("ReactionStoreDef::follow_channel_id", A + "reaction_store.rs"), ("ReactionStoreDef::insert_follow", A + "reaction_store.rs"), ("FollowIndexGate::for_merge", A + "store.rs")], B)
CN = "src/consensus/"
prop("C21", "At each height one validator set is in force, the same for everyone",
     "The validators of a height are those of the newest configured set for the shard that is in force there; a set has no validator twice, belongs to one shard and is in the same order however it was assembled; proposals are found by height and value until their height is decided, and then forgotten with all older ones and no newer; heights, addresses and identities compare and convert consistently.",
     ["inputs", "configurations", "orders"], "every list of up to three sets and shards, every order of up to three validators, every two or three proposals and every height",
     "Nodes that disagree on who may vote at one height halt or fork; tests configure one or two sets.",
     [CN + "validator.rs", CN + "proposer.rs", "src/core/types.rs", "proto/src/lib.rs"], [("StoredValidatorSets::get_validator_set", CN + "validator.rs"), ("SnapchainValidatorSet::add", CN + "validator.rs"), ("ProposedValues", CN + "proposer.rs"), ("Height", "proto/src/lib.rs")], B)
prop("C22", "Pending messages keep one order and one identity, and belong to their user",
     "Pending messages are ordered by kind (chain events, names and block events first), then time; two pending messages of a kind count as one exactly when they are the same entry; each belongs to the user its content names, and is told from its kind.",
     ["inputs", "orders"], "every time, every two messages of every kind with any number, hash and user",
     "The order and identity decide what enters blocks and what is dropped as known; tests use single examples.",
     ["src/mempool/mempool.rs", "src/storage/store/mempool_poller.rs"], [("MempoolKey", "src/mempool/mempool.rs"), ("MempoolMessage::fid", "src/storage/store/mempool_poller.rs")], B)
NW = "src/network/"
prop("C23", "The API lets in only known users and answers the page and state asked for",
     "A request is let in exactly with a known user's own password in the one accepted spelling, or when no users are configured; a page has the size, direction and starting point that were asked for and following its tokens covers a list exactly once; message states, error statuses, signer kinds, recovery details and subscription cursors are reported as they are.",
     ["inputs", "configurations"], "every short user, password and credential; every page request; every state, key and position",
     "A flaw in the credential check or in a page boundary shows only on an input no test lists.",
     [NW + "rpc_extensions.rs", NW + "server.rs"], [("authenticate_request", NW + "rpc_extensions.rs"), ("page_options", NW + "rpc_extensions.rs"), ("MyHubService", NW + "server.rs")], B)
prop("C24", "HTTP reports messages and events as they are",
     "A message or hub event reported over HTTP is the one the node holds: every number, text, hash and key is the entry's own in the documented form (0x hex for hashes, keys and addresses, base64 for signatures and opaque bytes, enum names for kinds), the kind selects the one matching body, absent parts are absent, the field names are the documented ones, and an event with a missing or unknown part is refused rather than reported wrong.",
     ["inputs"], "every number and enum value; byte strings and texts of up to 4 symbolic bytes; every message, event and on-chain event kind",
     "A swapped field or enum value shows only on the kind and value it belongs to; tests convert a few messages.",
     ["src/network/http_server.rs"], [("map_proto_hub_event_to_json_hub_event", "src/network/http_server.rs"), ("map_proto_message_to_json_message", "src/network/http_server.rs")], B)
prop("C25", "HTTP asks the node exactly what the caller asked and returns its answer",
     "Every HTTP endpoint asks the node the one question the caller asked: the same user, hash, target, kind, key, channel, time range and page, in either spelling of the parameters, with the caller's credentials where messages are submitted; an unfit request is refused without asking. The node's answer comes back complete, in order and as it is, with its page token; a failure is reported as one, and the channel endpoints tell the node's own failures from the caller's.",
     ["inputs"], "every endpoint of the HTTP service trait, every number, combination of paging fields, enum value and status code; short byte strings",
     "Thirty-five endpoints map some hundred fields; a crossed pair or a dropped option shows only on a request that sets it.",
     ["src/network/http_server.rs"], [("HubHttpServiceImpl", "src/network/http_server.rs"), ("ErrorResponse::from_status", "src/network/http_server.rs")], B)
S = "src/storage/store/account/"
prop("C26", "Replicas that merge the same messages in any order hold the same state",
     "Of messages about one subject (a cast, reaction, link, verified address, profile field or name) the same one survives in whatever order they are merged, and the database is exactly what that one alone leaves: a cast's removal beats the cast at any time; otherwise the later wins, a removal beats an addition of the same second, then the greater hash (for registry names, signature). The losers leave no row or index entry behind, merging any again is refused without effect, and other subjects are untouched. A full list of links (compact state) replaces the older links it leaves out, in any order, and a newer list an older one.",
     ["inputs", "orders"], "every arrival order and ranking of three messages per subject, every timestamp of four varint bytes, every mix of adds and removes, in every message store",
     "Convergence is a statement about all orders and ties; tests merge a few fixed pairs, and ties at one second depend on hashes.",
     [S + "store.rs", S + "cast_store.rs", S + "link_store.rs", S + "reaction_store.rs", S + "verification_store.rs", S + "user_data_store.rs", S + "username_proof_store.rs"], [("Store::merge", S + "store.rs"), ("StoreDef::message_compare", S + "store.rs"), ("Store::merge_compact_state", S + "store.rs"), ("UserDataStore::merge_username_proof", S + "user_data_store.rs")], B)
prop("C27", "Removing messages leaves the state as if they had never come",
     "Revoking a message leaves the database exactly as if it had never been merged, whatever its kind, and it may come again; revoking a signer's messages removes all of that user's messages by that key and no others; pruning removes the oldest messages first (by time, then hash) until the limit is met and no more, never a link list; and each removed message is told of by exactly one event of the right kind.",
     ["inputs", "histories"], "every store, timestamp and ranking; every subset of a user's messages by the revoked key; every limit from 0 to 4",
     "A leftover index row is invisible until a listing trips on it; tests check the messages, not every row.",
     [S + "store.rs"], [("Store::revoke", S + "store.rs"), ("Store::revoke_messages_by_signer", S + "store.rs"), ("Store::prune_messages", S + "store.rs")], B)
prop("C28", "Listings return every match exactly once, in order, and nothing else",
     "A user's messages of a kind, the messages of a time range, the reactions to a target, the casts under a parent or with a mention, the links to a user and the verifiers of an address are listed completely, each exactly once and in time order (or its reverse), whatever the page size when page tokens are followed; nothing else is listed, in particular nothing about a target that merely begins with the one asked for; lookups of one entry agree with the lists, and pending changes count where they are given.",
     ["inputs", "histories"], "three messages per listing, every timestamp and ranking, every assignment to three targets that are prefixes of one another, pages of 1 to 4, both directions",
     "Index keys concatenate parts of different lengths; which pairs collide depends on the bytes, and tests use a handful of unrelated targets.",
     [S + "message.rs", S + "reaction_store.rs", S + "cast_store.rs", S + "link_store.rs", S + "verification_store.rs", "src/storage/db/rocksdb.rs"], [("get_messages_page_by_prefix", S + "message.rs"), ("ReactionStore::get_reactions_by_target", S + "reaction_store.rs"), ("CastStore::get_casts_by_parent", S + "cast_store.rs"), ("VerificationStore::get_verifications_by_address", S + "verification_store.rs")], B)
T = "src/storage/trie/"
prop("C29", "The state root depends on the stored keys alone",
     "The sync trie's root hash, its node hashes and its counts are a function of the set of keys it holds: whatever the order, grouping and history of additions and removals, whether kept in memory or read back from disk in between, the hash is the one of that set, the database holds one row for each node of that set's trie and no other, membership, counts, metadata and (paged) listings under any prefix are exactly the set's, and each operation says which keys it changed.",
     ["inputs", "histories", "crash points"], "three keys with every common-prefix pattern in the seventh byte (any nibbles) and in the sixth, four operations singly or in batches of up to three, every page size and prefix",
     "Nodes agree on blocks by this hash; compaction and splitting depend on which nibbles keys share and on the whole history, and a stale row surfaces only after a later operation or a restart.",
     [T + "trie_node.rs", T + "merkle_trie.rs", T + "util.rs"], [("TrieNode::insert", T + "trie_node.rs"), ("TrieNode::delete", T + "trie_node.rs"), ("MerkleTrie::get_paged_values_of_subtree", T + "merkle_trie.rs")], B)
prop("C30", "Database walks, pages, batches and deletes cover exactly their range",
     "Walking a key range, forwards or backwards and page by page, meets every row of the range exactly once in order and no other; counting and listing a prefix agree; deleting a page removes exactly that page; of several changes to a key in a batch the last counts, a batch or a live transaction is applied whole or not at all (a crash or failure included) and survives closing; the next index entry never comes from another index.",
     ["inputs", "crash points"], "three rows with any two-byte tails and lengths two or three, any range bounds, every page size, batches of three changes",
     "Range bounds and page tokens are exclusive or inclusive at one byte; tests use evenly spaced keys.",
     ["src/storage/db/rocksdb.rs", "src/storage/util.rs"], [("RocksDB::for_each_iterator_by_prefix_paged", "src/storage/db/rocksdb.rs"), ("RocksDB::commit", "src/storage/db/rocksdb.rs"), ("RocksDB::delete_page", "src/storage/db/rocksdb.rs"), ("RocksDbTransactionBatch", "src/storage/db/rocksdb.rs")], B)
prop("C31", "Blocks, shard chunks and events are kept, listed and pruned by height",
     "A stored block, chunk or event is returned for exactly its own height or id, also after a restart; the first, last, highest and latest are those; a range is listed completely, in order, once, whatever the page size; the first height from a time on is right for every time, also for times whose blocks are pruned; pruning until a height removes exactly what is below it; event ids rise with the height and then in order within it, the block's own event first, and tell height and place.",
     ["inputs", "histories"], "three entries at any heights and times, every range, height, time and id asked for, pages of 1 to 3",
     "Readers follow the chain by these lookups; the boundary cases (equal times, pruned blocks, the last page) are not in the tests.",
     ["src/storage/store/block.rs", "src/storage/store/shard.rs", S + "event.rs"], [("BlockStore", "src/storage/store/block.rs"), ("ShardStore", "src/storage/store/shard.rs"), ("HubEventIdGenerator", S + "event.rs"), ("HubEventStorageExt::get_events", S + "event.rs")], B)
prop("C32", "On-chain events: signers, registrations and channels follow the chain",
     "An on-chain event is taken once and listed for its user and kind in chain order, page by page. A signer key is active exactly if its latest event adds it with the supported kind, a user's registration is the latest on chain, whatever order the events arrive in, pending or committed; an administrative reset reactivates just its key. The registered users are each listed and iterated over once. A channel's owner, term, label and place in its owner's list are those of the latest valid registration, renewal or transfer, the same in a shard's replica; a flawed one grants nothing.",
     ["inputs", "orders", "histories"], "three events per user, key or channel at any blocks in every order, every mix of kinds, every history of three channel events over two channels and owners, pages of 1 to 3",
     "Who may sign and who owns what rests on these indexes; tests merge events in chain order.",
     [S + "onchain_event_store.rs"], [("build_secondary_indices_for_signer", S + "onchain_event_store.rs"), ("build_secondary_indices_for_channel_register", S + "onchain_event_store.rs"), ("OnchainEventStore", S + "onchain_event_store.rs"), ("FIDIterator", S + "onchain_event_store.rs")], B)
prop("C33", "A user's storage is what was bought and borrowed, less what was lent",
     "Rented storage is of the kind and lasts as long as announced for its time, network and protocol version; a user's storage is the sum of the unexpired rents, committed or pending, less the loans that stand, plus those received (never less than none), and the limits and details reported are exactly those. Of the loans from one user to another the last counts in any order of arrival, a returned one leaves nothing, and lender and borrower are told the same. A subscription runs from its purchase, or from the end of the one before, for the days paid.",
     ["inputs", "orders", "histories"], "three rents, loans or purchases of up to 1000 units or 127 days at any times from 2021 to 2030, any clock in that time, every order, kind and network",
     "Expiry, lending and borrowing meet only years apart; tests rent and lend at one moment.",
     [S + "onchain_event_store.rs", S + "storage_lend_store.rs", "src/storage/store/stores.rs"], [("StorageSlot::from_event", S + "onchain_event_store.rs"), ("OnchainEventStore::get_storage_slot_for_fid", S + "onchain_event_store.rs"), ("StorageLendStore", S + "storage_lend_store.rs"), ("Stores::get_storage_limits", "src/storage/store/stores.rs")], B)
ST = "src/storage/store/"
prop("C34", "Every node that takes a block holds the same state: what was authorised",
     "Of what one node proposes for a shard every other node finds the same result: proposing and voting change nothing, and after committing all hold the same rows, events and state root, also a node that crashed at any point of the commit and one that takes the block later by its own clock. A proposal that claims another root, or whose transactions were altered, is refused without a trace. A message counts exactly if its user is registered and has storage, the key that signed it is that user's then, and it is valid at the block's time and of its type; storage bought, user registered and key added in the block itself count. Beyond what the last block brought, a user keeps no more messages than the storage holds, the newest; and trying a message out tells truly whether it would be taken.",
     ["inputs", "histories", "crash points", "configurations"], "nine kinds of block over two or three nodes, every block, rent and clock time; every number of completed writes of a commit; every combination of registration, keys, storage and flaws; every message type with every body; every order of four messages under limits of 1 to 4",
     "Nodes agree only if everything that feeds the root is a function of the chain; a clock, a half-applied commit or a row that proposing left behind differs on one node only, and tests run one.",
     [ST + "engine.rs", ST + "shard.rs", ST + "stores.rs"], [("ShardEngine::propose_state_change", ST + "engine.rs"), ("ShardEngine::validate_state_change", ST + "engine.rs"), ("ShardEngine::commit_and_emit_events", ST + "engine.rs"), ("ShardEngine::validate_user_message", ST + "engine.rs"), ("ShardEngine::replay_snapchain_txn", ST + "engine.rs")], B)
prop("C35", "Shard 0 is replicated exactly; lends, claims and channels keep their rules",
     "Of a proposed block of shard 0 every node finds the same state, events and rows, also after a crash at any point of the commit; an altered block is refused without a trace. A block's events carry on the numbering, hash to what the header names and include a heartbeat every few blocks; a data shard that is told them, one block or several at a time, holds the same messages, claims, lends and channel state. A user lends no more than it has rented less one unit, and its newest lend to another counts; it claims as many addresses as its storage allows and may always replace or drop a claim. A channel is described by the verified owner of its address alone, its moderators (at most ten, the owner's choice) and owner take in, send away, ban and pardon, nobody bans the owner, anyone may leave, and join where all may; while nobody has the owner's address verified, only leaving is possible. A message whose body is not of its type is refused, and trying one out tells truly.",
     ["inputs", "histories", "crash points", "configurations"], "nine kinds of block over two or three nodes, with and without heartbeat, every block, rent and clock time; every number of completed writes of a commit; every type with every body; three lends of 0, 1 or 3 units in every order against any storage; three claims or drops of three addresses around the limit; every action of every role on every state in every mode",
     "Shard 0 decides for all shards: a rule that holds for one order of messages, one role or one state only lets a user take what is another's on every shard, and tests try single combinations.",
     [ST + "block_engine.rs", ST + "block.rs", ST + "mempool_poller.rs", S + "storage_lend_store.rs"], [("BlockEngine::propose_state_change", ST + "block_engine.rs"), ("BlockEngine::validate_state_change", ST + "block_engine.rs"), ("BlockEngine::commit_block", ST + "block_engine.rs"), ("BlockEngine::validate_user_message_with_verification_counts", ST + "block_engine.rs"), ("channel_member_authority", ST + "block_engine.rs"), ("ShardEngine::handle_block_event", ST + "engine.rs")], B)
prop("C36", "Off-chain keys: given by their user at an app's request, used in scope and time",
     "A key is given to a user, or its scopes and life are changed, exactly if the user's custody signed that, with a nonce above all the user has used, before the deadline it names; the key's holder of record is no other user and, if it is the same, was asked for by the same app; the app's custody asked for it; the chain has not given it; and the user has fewer than a thousand. It is taken exactly by the user's custody, with such a nonce, or by the key itself, with a nonce above all used for its app. What is refused leaves no trace, what is replaced is told, and every shard that is told what counted holds the same keys, counts, nonces and times. A key signs exactly the types it was given for, and lives as long as it is used within its life; trying a key message out tells whether it would count.",
     ["inputs", "histories"], "three key messages in a row over two users, two keys, two apps and any nonces, in one transaction or several; every missing or foreign authority; any count; any times, lives and deadlines",
     "A key that another user, app or stale signature can take over acts for its user everywhere; it takes the one sequence of additions, changes and removals no test tries.",
     [S + "gasless_key_merge.rs", S + "key_add_store.rs", S + "key_nonce_store.rs", S + "key_last_used_at_store.rs", S + "active_key.rs", ST + "engine.rs", ST + "block_engine.rs"], [("merge_key_add", S + "gasless_key_merge.rs"), ("merge_key_remove", S + "gasless_key_merge.rs"), ("check_and_bump_last_used_at", S + "key_last_used_at_store.rs"), ("get_active_key", S + "active_key.rs"), ("BlockEngine::simulate_message", ST + "block_engine.rs")], B)
prop("C37", "What is submitted waits at its shards in order, once, whatever else arrives",
     "A message that is submitted or gossiped waits at exactly the shards it concerns: a user's at the home shard, or at shard 0 if shard 0 decides its kind; a chain event at shard 0 and the user's; a name transfer at every data shard; shard 0's event at the shard it is for. Each is offered once, validators' messages before users', older before newer, as many as are asked for. What waits already or counts already is refused and not offered; a decided block takes its messages out of its own shard and no others. Of a user's live statuses the newest waits. A user adds a key a minute at most, never held up by another's, and removes any; who has no storage is refused when limits are on, who has may send a hundred messages an hour at least, anew after renting, lending or being lent more. New messages of users are told to other nodes once, unless they came from there; a reading node passes on what is new. Kinds the network does not know yet are refused. Whatever a peer sends, the mempool goes on.",
     ["inputs", "histories", "configurations"], "three or four messages of every kind, any times, hashes and counts; every type at one to three shards; every kind that counts before, while waiting or not; any clock on every network; every junk form",
     "The mempool is the one door to all shards: a message that is lost, doubled or kept waiting, or that stops it, is lost for the user on one order of arrival, one clock or one malformed gossip that no test sends.",
     ["src/mempool/mempool.rs", "src/mempool/routing.rs", "src/version/version.rs"], [("Mempool::insert", "src/mempool/mempool.rs"), ("Mempool::pull_messages", "src/mempool/mempool.rs"), ("Mempool::message_is_valid", "src/mempool/mempool.rs"), ("Mempool::remove_committed_txns", "src/mempool/mempool.rs"), ("ReadNodeMempool::run", "src/mempool/mempool.rs"), ("route_message", "src/mempool/routing.rs")], B)
