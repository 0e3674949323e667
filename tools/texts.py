L.append(P("C01", "Newest write wins at each commitment, and commitments stay ordered",
    "For one account, the state visible at confirmed (finalized) is the newest of all writes that reached that commitment, newest meaning highest slot, then highest write version; the state visible at processed is the write with the highest write version of the highest slot still kept. "
    "Whenever a write is visible at finalized, one at least as new is visible at confirmed, and whenever one is visible at confirmed, one at least as new is visible at processed. "
    "An update reports true exactly when it is newer than what was known for its slot or changes the state visible at its commitment, and a promotion of a slot returns exactly the write that became visible and the one it replaced.",
    ["histories", "inputs"], "every sequence of creations, updates, promotions and deletions of an account, with any slots, write versions (equal, out of order, duplicated) and commitments",
    "The unit tests run a handful of hand-written sequences with increasing slots; stale, duplicate and out-of-order deliveries at every commitment are not enumerated.",
    [AS + "account_data_by_commitment.rs"], [("AccountDataByCommitment::update", AS + "account_data_by_commitment.rs"), ("AccountDataByCommitment::promote_slot_commitment", AS + "account_data_by_commitment.rs"), ("AccountDataByCommitment::get_account_data", AS + "account_data_by_commitment.rs")],
    VERUS, "proof", "Every function of the per-account state is proved for all inputs against the newest-wins specification, with the ordering as its invariant." + TRUST,
    ["InmemoryAccountStore::get_account"]))
HIST = "every sequence of account writes and slot notifications, with any slots, write versions, parents, owners and filters"
IAS = AS + "inmemory_account_store.rs"
L.append(P("C02", "A slot reaching a commitment brings along all writes of it and its ancestors",
    "When a slot is reported confirmed or finalized, every tracked account written in that slot or in one of its known ancestors that was not at that commitment yet shows, at that commitment, the newest such write or a newer one; nothing written only in slots that did not reach the commitment becomes visible there by the report. "
    "The report returns exactly the accounts whose visible state at the commitment changed by it, each once and in its new state. "
    "A write that arrives for a slot already confirmed or finalized has that commitment at once, so no write of a slot stays behind its slot, except that writes at slots below the last finalized one may remain unpromoted.",
    ["histories"], "every sequence of writes and slot notifications (in any order, repeated, with skipped slots, gaps and forks)",
    "The tests promote a few slots in increasing order with all parents known; late writes, repeated and out-of-order notifications and several writes per ancestor chain are not enumerated.",
    [IAS, AS + "account_data_by_commitment.rs"], [("process_slot_data", IAS), ("add_account_index_to_slot_status", IAS), ("AccountDataByCommitment::promote_slot_commitment", AS + "account_data_by_commitment.rs")],
    VERUS, "proof", "Slot processing is proved to mark exactly the slot and its known ancestors and to promote exactly their writes; a history invariant, proved to be kept by writes and slot reports, gives completeness over all histories. One operation at a time: the code's locks are erased by the extraction." + TRUST,
    ["process_slot_data's return value", "get_account at confirmed/finalized after a slot notification"]))
L.append(P("C03", "Program account lists agree exactly with reading the accounts one by one",
    "The accounts listed for a program at a commitment are exactly those that, read one by one at that commitment, exist, are owned by the program and pass all the given filters: each once, with the data that a single read returns. "
    "A list is answered only if the store's filters cover the request, and is refused otherwise. "
    "This holds whatever writes, deletions, owner changes and slot notifications came before, in any order.",
    ["histories", "inputs"], HIST + "; every program, filter list and commitment asked for",
    "The tests list accounts after a few in-order updates; stale writes, owner changes seen at one commitment only and deletions that are not final are not sampled.",
    [IAS, AS + "account_data_by_commitment.rs"], [("get_program_accounts", IAS), ("update_owner_delete_if_necessary", IAS), ("AccountDataByCommitment::get_account_data_filtered", AS + "account_data_by_commitment.rs")],
    VERUS, "proof", "The list is proved exact for every well-formed store, and every operation is proved to keep the store well formed (each owner of a kept live state is indexed). Locks are erased: one operation at a time; the retry of contended accounts is proved for every choice of which accounts were contended." + TRUST,
    ["get_program_accounts"]))
L.append(P("C04", "Reading an account returns its state at the commitment, or nothing",
    "Reading an account at a commitment returns the state visible at that commitment with all its fields unchanged, and returns nothing for an account that is not stored, has no state at that commitment yet, or was deleted (zero lamports) as of that commitment. "
    "Reading never fails and never changes any answer.",
    ["histories", "inputs"], HIST + "; every account and commitment",
    "The tests read a few accounts after hand-written updates; deleted states at one commitment next to live ones at another are hardly covered.",
    [IAS, AS + "account_data_by_commitment.rs"], [("get_account", IAS), ("AccountDataByCommitment::get_account_data", AS + "account_data_by_commitment.rs")],
    VERUS, "proof", "Proved for every well-formed store, account and commitment; all operations keep stores well formed." + TRUST,
    ["get_account"]))
L.append(P("C07", "Only admitted accounts are stored, and a stored account sees every later write",
    "The first write of an account is stored exactly when the store's filters admit it; every later write of a stored account is applied even when the filters do not admit it, until a finalized write moves the account to another owner and is deleted or not admitted while nothing newer is known, upon which the account is dropped as a whole. "
    "An update reports true exactly when it stored a new account, was the newest known for its slot, or changed the state visible at its commitment, a write counting with the commitment of its slot when that is higher than its own. "
    "No write affects any other account.",
    ["histories", "inputs"], HIST,
    "The tests update accounts inside the filters; accounts leaving the filters, stale or repeated writes and writes for already finalized slots are sampled once or not at all.",
    [IAS], [("update_account", IAS), ("initilize_or_update_account", IAS), ("update_owner_delete_if_necessary", IAS)],
    VERUS, "proof", "update_account and initilize_or_update_account are proved against the exact transition relation for all stores and writes (one operation at a time)." + TRUST,
    ["update_account's return value", "get_account"]))
L.append(P("C08", "A snapshot restores exactly the finalized accounts of a program",
    "A snapshot of a program holds exactly the program's existing accounts as finalized, and a program the store does not watch is refused. "
    "Loading it into an empty store with filters that admit these accounts makes exactly them readable, with identical content, at every commitment, and loading into a store that already has some of the accounts keeps whichever state is newer. "
    "Bytes that are not a snapshot are refused and leave the store as it was.",
    ["histories", "inputs"], HIST + " before the snapshot; every store it is loaded into",
    "One test saves and loads one snapshot of one store; snapshots after owner changes, deletions and unfinalized writes and loads into non-empty stores are not covered.",
    [IAS], [("create_snapshot", IAS), ("load_from_snapshot", IAS)],
    VERUS, "proof", "Contents, loading and the round trip (a lemma over the two contracts) are proved for all stores; that bincode decodes what it encoded is an assumed contract, run for real in the executable contracts." + TRUST,
    ["create_snapshot", "load_from_snapshot"]))
L.append(P("C05", "An account filter accepts exactly the data it describes",
    "A data-size filter accepts exactly the data of that length; a memcmp filter accepts exactly the data whose bytes starting at the offset equal the filter's bytes, whether these are given raw, as base58 or as base64. "
    "A filter whose offset or length reaches beyond the data, or whose text does not decode, accepts nothing, and no filter and no data make the evaluation fail.",
    ["inputs"], "every filter (kind, offset up to the largest 64-bit value, encoded bytes) and every account data",
    "The tests evaluate filters only through a few stored accounts; offsets near and beyond the data length and undecodable texts are not covered.",
    [CM + "account_filter.rs"], [("AccountFilterType::allows", CM + "account_filter.rs"), ("MemcmpFilter::bytes_match", CM + "account_filter.rs"), ("MemcmpFilter::bytes", CM + "account_filter.rs")],
    VERUS, "proof", "The evaluation functions are proved for all filters and data; the base58 and base64 decoders are library code with assumed contracts, and run for real in the executable contracts." + TRUST))
L.append(P("C06", "Filter stores admit exactly the described accounts and answer containment safely",
    "A filter store admits an account exactly when one of the filters added to it does: its key is listed, or its owner is the filter's program and its data passes all of that filter's data filters; an except store admits exactly the rest. "
    "If a store says it contains a requested filter, then every account the request describes is admitted by the store (an except store answers for exclusions of the request's own kind, by key or by program). "
    "A store contains every filter that was added to it and every request at least as restrictive as one added to it; adding filters never shrinks what a non-except store admits.",
    ["inputs", "histories"], "every sequence of added filters, every account and every requested filter",
    "The tests check a few fixed filter sets; soundness of the containment answer quantifies over all accounts and all filter combinations.",
    [CM + "simple_filter_store.rs", CM + "except_filter_store.rs", CM + "mutable_filter_store.rs"],
    [("SimpleFilterStore", CM + "simple_filter_store.rs"), ("ExceptFilterStore", CM + "except_filter_store.rs"), ("MutableFilterStore", CM + "mutable_filter_store.rs")],
    VERUS, "proof", "All functions of the three stores are proved for all filters and accounts." + TRUST))
TA = TS + "account_types.rs"
L.append(P("C09", "A stored token account decodes to exactly the token account that was encoded",
    "Encoding a token account with less than 4 GiB of additional data and decoding the bytes gives the same token account back: program, key, owner, mint, amount, state, delegate with delegated amount, native reserve, close authority and additional data, with every combination of the optional parts. "
    "The program, the key, the owner and the mint can also be read straight from the encoded bytes and agree with the decoded account. "
    "Encoding and decoding what was encoded never fail.",
    ["inputs"], "every token account: both programs, all states, every combination of optional parts, any amounts and any additional data below 2^32 bytes",
    "The unit test encodes accounts made from a few random draws; a mistake in the offset of one optional part shows only for particular combinations and lengths.",
    [TA], [("TokenAccount::to_bytes", TA), ("TokenAccount::from_bytes", TA), ("TokenAccount::get_pubkey_from_binary", TA), ("TokenAccount::get_owner_from_binary", TA), ("TokenAccount::get_mint_index_from_binary", TA)],
    VERUS, "proof", "to_bytes and from_bytes are proved against one byte layout for all token accounts; a lemma shows that the layout determines the account, hence the round trip." + TRUST,
    ["TokenAccount::to_bytes", "TokenAccount::from_bytes"]))
TI = TS + "inmemory_token_account_storage.rs"
L.append(P("C10", "Every stored token account keeps its own index and is never taken for another",
    "Saving a token account gives it an index, new for a key that is not stored and the same as before for one that is; from then on its key and its index both read exactly the saved account, until it is saved again or deleted. "
    "Saving or deleting one account changes nothing about any other, in particular not about accounts whose keys begin with the same bytes, and a deleted account is found neither by its key nor as a live account at its index. "
    "A snapshot of a program holds exactly the stored accounts of that program, once each.",
    ["histories", "inputs"], "every sequence of saves and deletes, with any keys, including keys that share their first bytes",
    "The tests use random keys, which never share their first bytes, and delete an account at most once.",
    [TI, CM + "pubkey_container_utils.rs", TA], [("save_or_update", TI), ("delete", TI), ("contains", TI), ("get_by_pubkey", TI), ("get_by_index", TI), ("create_snapshot", TI)],
    VERUS, "proof", "All functions of the storage are proved against a well-formedness invariant (every live account is listed under its partial key, no key twice), fewer than 2^32 accounts assumed." + TRUST,
    ["contains", "get_by_pubkey", "get_by_index", "create_snapshot"]))
TP, TM = TS + "token_program_utils.rs", TS + "inmemory_token_storage.rs"
L.append(P("C11", "Token program accounts read, at every commitment, the newest write that has it",
    "At processed an account of the token programs reads its write in the highest slot above the confirmed slot; failing that, and at confirmed, its write in the nearest slot on the chain of known parents from the confirmed slot; failing that, and at finalized, its finalized state. "
    "Within a slot the write with the highest write version counts, and a write that closes the account (no lamports, another owner) makes it read as absent exactly where that write is the one read. "
    "Finalizing a slot makes, for every account, the newest write of the slot and its chain of known parents the finalized state, reports exactly those of them that are not closed, and drops the writes of every slot up to it; confirming a slot reports exactly that slot's accounts that are not closed.",
    ["histories"], "every sequence of writes at any commitment and slot notifications, forks and gaps included, with finalization in increasing slot order",
    "The tests walk one short chain; which write is read depends on the order of writes, parents and notifications, and on forks and slots that are not known.",
    [TM], [("ProcessedAccountStore", TM), ("TokenProgramAccountsStorage::get_account", TM), ("TokenProgramAccountsStorage::process_slot_data", TM)],
    VERUS, "proof", "All functions of the store of processed writes are proved against the chain of parents as a ghost sequence, and reads, writes and slot notifications of the storage against them." + TRUST,
    ["insert_account", "get_accounts", "finalize", "update_slot_info"]))
L.append(P("C13", "Token program accounts read back with the bytes that were written",
    "A token account, mint or multisig of either token program, stored from an account whose data is what the program itself would write, reads back with the same key, owning program and data: every field, the optional ones, multisig signers in place, and token-2022 extensions included, and mints and multisigs with the same lamports. "
    "This holds whether or not the mint of a token account is known when it is written, and whatever the account's key was used for before. "
    "An account is taken for what its data says it is, and data that is no account of the program is refused without changing anything.",
    ["inputs", "histories"], "all accounts of the two programs with canonical data, any contents and extensions; earlier accounts under the same key",
    "The tests compare a few generated accounts without extensions; each optional part and extension length is its own case.",
    [TP, TA], [("get_token_program_account_type", TP), ("token_account_to_solana_account", TP), ("token_mint_to_solana_account", TP), ("token_multisig_to_solana_account", TP), ("get_or_create_mint_index", TP)],
    VERUS, "proof", "Classification and reconstruction are proved inverse on canonical data, and the storage's writes and reads are proved to keep each account as what it was last written; the byte layouts of the spl_token libraries are assumed (packing and unpacking are inverse)." + TRUST,
    ["get_token_program_account_type", "token_account_to_solana_account", "token_mint_to_solana_account", "token_multisig_to_solana_account"]))
L.append(P("C12", "A list of a token program's accounts agrees with the accounts read one by one",
    "A list of a token program's token accounts of one owner or of one mint, of its mints, or of all its token accounts holds at each commitment exactly the accounts that, read one by one at that commitment, are of the program and pass all filters of the request, each of them once; finalized multisig accounts are not listed. "
    "An account is listed with the state a single read at that commitment returns, whatever owner, mint, program or kind it had before. "
    "A request that these lists cannot answer is refused and never answered with part of the accounts.",
    ["histories", "inputs"], "every request for the accounts of a token program, after every history of writes at any commitment and slot notifications",
    "The tests list a few accounts that never change owner, mint or kind, and never compare a list with single reads at processed and confirmed.",
    [TM, TI], [("TokenProgramAccountsStorage::get_program_accounts", TM), ("TokenProgramAccountsStorage::get_program_accounts_finalized", TM), ("ProcessedAccountStore::get_accounts", TM)],
    VERUS, "proof", "The lists are proved against the same functions of the state that single reads are proved against, for all states that satisfy the storage's invariant, which every function is proved to keep." + TRUST,
    ["get_program_accounts", "get_account"]))
L.append(P("C14", "A token program snapshot restores every finalized account of the program",
    "Loading a snapshot of a token program into a storage, empty or not, makes every account of the program that was finalized in the source read as it did there: token accounts with their mints, mints and multisigs. "
    "Accounts of the target that the snapshot does not hold stay as they were, whichever indices its mints have in the two storages. "
    "The snapshot holds no account of the other token program and no state that is not finalized.",
    ["histories"], "every pair of a source and a target storage, however their accounts were written, and both programs",
    "The unit test loads into an empty storage, whose mints come to lie at the same indices as in the source.",
    [TM], [("TokenProgramAccountsStorage::create_snapshot", TM), ("TokenProgramAccountsStorage::load_from_snapshot", TM)],
    VERUS, "proof", "create_snapshot and load_from_snapshot are proved, a lemma gives the round trip; that bincode and lz4 decode what they encoded is assumed, and fewer than 2^32 accounts." + TRUST,
    ["create_snapshot", "load_from_snapshot"]))
AD, AF = CM + "account_data.rs", CM + "account_filter.rs"
DI = AS + "storage_by_program_id.rs"
OD = "accounts_on_demand/src/accounts_on_demand.rs"
L.append(P("C15", "Storages dispatched by program answer together like one storage of everything",
    "An update reaches the storage of the account's program and every other storage that still holds the account, so an account that moves to another program leaves the storage it was in; one that no dispatched storage takes reaches the default storage, and an update is reported as taken exactly when a storage took it. "
    "An account is read from a storage that has it, the default storage being asked when no dispatched one does; lists, snapshots and initial loads go to the storage of their program alone. "
    "A slot notification reaches every storage once, also one that serves several programs, and exactly the accounts they report are reported.",
    ["histories", "inputs"], "every assignment of programs to storages, every answer of the storages, and every history of accounts whose writes arrive in their order (also moving between programs)",
    "One unit test dispatches two programs to two storages and never moves an account, shares a storage or lets a storage fail.",
    [DI], [("StorageByProgramId::update_account", DI), ("StorageByProgramId::get_account", DI), ("StorageByProgramId::process_slot_data", DI)],
    VERUS, "proof", "Every function is proved against a record of what each storage is told and asked, for storages that answer anything at all; that real composed storages answer like one is bounded: run on generated histories." + TRUST,
    ["StorageByProgramId::update_account", "StorageByProgramId::get_account", "StorageByProgramId::process_slot_data"]))
L.append(P("C16", "Unknown accounts are loaded on demand, once, and then answered",
    "An account that is stored is answered without loading anything; an account or list that is not known yet is subscribed, watched from then on, and its snapshot loaded, before the request is answered from the storage, and it is loaded once, however many requests ask for it at the same time or later. "
    "Requests made during a load of the same are answered after it, or with a timeout at the earliest after ten seconds, and requests for something else are not held up by the loading of a snapshot. "
    "A failed subscription or snapshot is reported as that error, and after a failed subscription the next request tries again; everything else is what the storage behind it answers.",
    ["histories", "schedules", "inputs"], "every answer of the storage, the filters and the source, every history of requests; concurrent requests as far as they are run",
    "No test uses loading on demand; failing subscriptions, failing snapshots and requests at the same time are never tried.",
    [OD], [("AccountsOnDemand::get_account", OD), ("AccountsOnDemand::get_program_accounts", OD)],
    VERUS, "proof", "Every function is proved against a record of what the storage, the filters and the source are told and asked, for any answers; requests at the same time are bounded: run with threads and with chosen overlaps." + TRUST,
    ["AccountsOnDemand::get_account", "AccountsOnDemand::get_program_accounts"]))
L.append(P("C17", "Account contents read back byte for byte, however they are compressed",
    "Data of at most 64 MiB given in with any compression method and level reads back byte for byte, and its length and emptiness, which are known without decompressing it, are those of the content. "
    "An account taken from a Solana account with any compression method converts back to the same Solana account: lamports, data, owner, executable flag and rent epoch.",
    ["inputs"], "every content up to 64 MiB, every compression method and level",
    "No test compresses more than a few kinds of content; sizes at the limits and contents that look compressed already are never tried.",
    [AD], [("Data", AD), ("Account::from_solana_account", AD), ("Account::to_solana_account", AD)],
    VERUS, "proof", "All functions are proved; that the lz4 and zstd libraries decompress what they compressed is assumed, and run on the real libraries by the executable contracts." + TRUST,
    ["Data::data", "Data::len", "Account::to_solana_account"]))
L.append(P("C18", "Account filters keep their meaning in JSON and as filters of the RPC library",
    "Account filters written as JSON and read back are the same filters, and a filter of which a key or a condition cannot be read is refused with an error. "
    "Converted to filters of the RPC library, and from them (token account state excepted, which is not supported), a condition admits the same account data, which is what the RPC library itself matches with it. "
    "A text that does not decode admits nothing in either form.",
    ["inputs"], "every account filter, every encoding of the bytes to compare, every account content",
    "The unit test reads one fixed JSON text and converts nothing to RPC filters; encodings, extreme offsets and malformed parts are not tried.",
    [AF, AD], [("Serialize for AccountFilter", AF), ("Deserialize for AccountFilter", AF), ("AccountFilter::get_rpc_filter", AF), ("From<&RpcFilterType> for AccountFilterType", AF), ("AccountData::allows", AD)],
    VERUS, "proof", "The conversions to and from RPC filters are proved to keep the meaning of every condition; reading and writing JSON is bounded: run on generated filters." + TRUST,
    ["get_rpc_filter", "AccountFilterType::from"]))
L.append(P("C19", "Operations at the same time never wait for each other forever",
    "Any operations of the account storage, the token account storage, the dispatch by program, the loading on demand and the watched filters, called from any number of threads in any interleaving, all return: no set of them waits for each other forever. "
    "All locks are taken in one order, no operation keeps a lock when it returns, and waiting for a load by someone else has a time limit.",
    ["schedules", "inputs"], "any number of threads, every interleaving, every path through every function",
    "No test runs two operations at the same time, and the interleavings that deadlock are a few instructions wide.",
    [IAS, TM, TS + "inmemory_token_account_storage.rs", DI, OD, CM + "mutable_filter_store.rs"],
    [("InmemoryAccountStore::update_account", IAS), ("InmemoryAccountStore::process_slot_data", IAS), ("TokenProgramAccountsStorage::process_slot_data", TM), ("AccountsOnDemand::get_account", OD)],
    "contract-based deductive verification of lock contracts (locks needed, held and returned) of every function over rustc's MIR, z3 for the lock order; operations run from several threads on the real crates", "proof",
    "Every function of the four crates is checked path by path against the lock contracts of its callees, and z3 finds one order for all locks. Locks are told apart by their type; a user's subscription source is assumed not to call back; panics and the locks inside dependencies are outside.",
    ["update_account", "process_slot_data", "get_program_accounts"]))
SU = "simulate_from_snapshot/src/snapshot_utils/"
L.append(P("C20", "Reading a snapshot yields exactly the accounts stored in its files",
    "From an account file of a snapshot, of any content, exactly the accounts that lie completely within its recorded length are read, in order, each with the key, lamports, owner, executable flag, rent epoch and data stored for it; reading never goes beyond the recorded length and always ends. "
    "A snapshot directory or archive gives every account file that its manifest lists, with the slot and length recorded there. "
    "A file that the manifest does not list, or that is shorter than recorded, is reported as an error, never read and never left out silently.",
    ["inputs"], "every content and recorded length of an account file, every manifest and set of files",
    "The snapshot reader has no tests at all; truncated files, record lengths that overflow and files the manifest does not know are never tried.",
    [SU + f for f in ("append_vec.rs", "mod.rs", "archived.rs", "unpacked.rs", "parallel.rs", "solana.rs")],
    [("AppendVec::get_account", SU + "append_vec.rs"), ("AppendVec::new_from_reader", SU + "append_vec.rs"), ("append_vec_iter", SU + "mod.rs"), ("UnpackedSnapshotExtractor::open_append_vec", SU + "unpacked.rs"), ("ArchiveSnapshotExtractor::process_entry", SU + "archived.rs")],
    VERUS, "proof", "Reading a file and looking it up in the manifest are proved for every content, its raw memory accesses included (within bounds and aligned); finding the files of a directory or archive and sharing them out are bounded: run on generated ones." + TRUST,
    ["append_vec_iter", "SnapshotExtractor::iter"]))
