# Which units, functions and suites decide each property.
FS = "SimpleFilterStore::"
FILTER_FNS = ["MemcmpFilter::bytes", "MemcmpFilter::bytes_match", "AccountFilterType::allows"]
DATA_FNS = ["Data::new", "Data::len", "Data::is_empty", "Data::data"]
COMMIT = ["AccountDataByCommitment::" + f for f in ("new", "get_account_data", "initialize", "update", "promote_slot_commitment", "delete")]
def ST(*fns): return ["InmemoryAccountStore::" + f for f in fns]
def SI(*fns): return ["AccountStorageInterface for InmemoryAccountStore::" + f for f in fns]
def BC(*fns): return ["AccountDataByCommitment::" + f for f in fns]
def TI(*fns): return ["TokenAccountStorageInterface for InmemoryTokenAccountStorage::" + f for f in fns]
def PA(*fns): return ["ProcessedAccountStore::" + f for f in fns]
def TPS(*fns): return ["TokenProgramAccountsStorage::" + f for f in fns]
def TPI(*fns): return ["AccountStorageInterface for TokenProgramAccountsStorage::" + f for f in fns]
CONV = ["MintAccount::not_existing", "MintAccount::exists", "TokenProgramAccountType::pubkey", "get_or_create_mint_index", "without_unused_signers", "get_token_program_account_type",
        "token_account_to_solana_account", "token_mint_to_solana_account", "token_multisig_to_solana_account", "token_program_account_to_solana_account"]
WF = r"wf\(\)"
LOCKING = (["MutableFilterStore::" + f for f in ("add_account_filters", "contains_account", "satisfies_filter")] + ["AccountFiltersStoreInterface for MutableFilterStore::" + f for f in ("satisfies", "contains_filter")]
           + ["AccountStorageInterface for %s::%s" % (t, f) for t in ("InmemoryAccountStore", "StorageByProgramId", "TokenProgramAccountsStorage", "AccountsOnDemand")
              for f in ("update_account", "initilize_or_update_account", "get_account", "get_program_accounts", "process_slot_data", "create_snapshot", "load_from_snapshot")]
           + TI("contains", "save_or_update", "get_by_index", "get_by_pubkey", "delete", "create_snapshot"))
LOCK_TRUST = ["std::sync::{Mutex, RwLock}, dashmap: a guard holds its lock until it is dropped; an operation of a DashMap that returns no guard takes the lock of a shard and releases it",
              "a lock class is the type of the lock: two locks of the same type are never held together (checked), so their order does not matter",
              "closures run within the call they are given to, with everything held there", "a call of a trait object may be any implementation in the four crates",
              "an object inside another of the same type comes after it in the order (dispatch and on demand can be nested, never in a circle)",
              "paths of a panic (MIR cleanup blocks) are ignored", "locks inside other libraries are taken and released there and call nothing of the storage"]
SNAPSHOT = (["AppendVec::" + f for f in ("sanitize_len_and_size", "remaining_bytes", "len", "is_empty", "capacity", "slot", "new_from_file", "new_from_reader", "get_slice", "get_type", "get_account")]
            + ["StoredAccountMeta::clone_account", "StoredAccountMetaHandle::new", "StoredAccountMetaHandle::access", "append_vec_iter", "parse_append_vec_name",
               "ArchiveSnapshotExtractor::process_entry", "ArchiveSnapshotExtractor::is_snapshot_manifest_file", "ArchiveSnapshotExtractor::is_appendvec_file", "UnpackedSnapshotExtractor::open_append_vec"])
PROPS = {
    "C01": {"units": {"commitment": COMMIT + BC("get_account_data_filtered", "has_owner", "has_newer_data")},
            "bounded": ["operations at the same time: updates of the same accounts leave what they leave one after the other; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C02": {"units": {"accountstore": BC("initialize", "update", "promote_slot_commitment") + ST("add_account_index_to_slot_status")
                      + SI("update_account", "initilize_or_update_account", "process_slot_data")},
            "bounded": ["operations at the same time: updates in a slot while it is reported are promoted with it; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C03": {"units": {"accountstore": FILTER_FNS + BC("get_account_data_filtered", "has_owner", "delete", "has_newer_data")
                      + ST("new", "add_account_owner", "remove_account_owner", "is_deleted", "update_owner_delete_if_necessary", "get_account_with_filtering_from_lock")
                      + SI("get_program_accounts", "update_account@" + WF, "process_slot_data@" + WF)},
            "bounded": ["operations at the same time: a list read while accounts are updated holds each of them once; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C04": {"units": {"accountstore": BC("get_account_data") + ST("is_deleted") + SI("get_account", "update_account@" + WF, "process_slot_data@" + WF)},
            "bounded": ["operations at the same time: a read while accounts are updated is never older than the one before; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C07": {"units": {"accountstore": BC("new", "initialize", "update", "has_newer_data")
                      + ST("new", "satisfies_filters", "is_deleted", "account_store_contains_key", "update_owner_delete_if_necessary", "add_account_index_to_slot_status")
                      + SI("update_account", "initilize_or_update_account")}},
    "C08": {"units": {"accountstore": SI("create_snapshot", "load_from_snapshot", "get_program_accounts", "initilize_or_update_account") + ST("get_account_with_filtering_from_lock", "is_deleted")}},
    "C09": {"units": {"tokens": ["TokenAccount::" + f for f in ("to_bytes", "from_bytes", "get_pubkey_from_binary", "get_owner_from_binary", "get_mint_index_from_binary")]}},
    "C10": {"units": {"tokenindex": ["From<Pubkey> for PartialPubkey::from", "From<&Pubkey> for PartialPubkey::from"]
                      + TI("contains", "save_or_update", "get_by_index", "get_by_pubkey", "delete", "create_snapshot")
                      + ["TokenAccount::" + f for f in ("to_bytes", "from_bytes", "get_pubkey_from_binary")]},
            "bounded": ["operations at the same time: saves and deletions leave what they leave one after the other; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C11": {"units": {"tokenchain": PA("insert_account", "contains", "get_account_pubkeys", "update_slot_info", "finalize", "get_confirmed_accounts", "get_accounts"),
                      "tokenstore": TPS("new", "get_account_finalized", "add_account_finalized") + TPI("get_account", "process_slot_data", "update_account", "initilize_or_update_account") + PA("get_processed_for_slot")},
            "bounded": ["operations at the same time: updates of token accounts leave what they leave one after the other; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C12": {"units": {"tokenstore": FILTER_FNS + TPI("get_program_accounts", "get_account", "process_slot_data") + TPS("get_program_accounts_finalized", "add_account_finalized", "get_account_finalized"),
                      "tokenchain": PA("get_accounts", "get_account_pubkeys")}},
    "C13": {"units": {"tokenconv": CONV,
                      "tokenstore": TPI("update_account", "initilize_or_update_account") + TPS("add_account_finalized", "remove_other_account_types", "get_account_finalized", "is_token_program_account")},
            "bounded": ["operations at the same time: new mints and accounts of them leave what they leave one after the other; run with up to 9 threads (the contracts speak about one operation at a time)"]},
    "C14": {"units": {"tokenstore": TPI("create_snapshot", "load_from_snapshot") + TPS("new", "add_account_finalized")}},
    "C15": {"units": {"dispatch": ["StorageByProgramId::new", "StorageByProgramId::is_in_default_storage"] + ["AccountStorageInterface for StorageByProgramId::" + f for f in
            ("update_account", "initilize_or_update_account", "get_account", "get_program_accounts", "process_slot_data", "create_snapshot", "load_from_snapshot")]},
            "bounded": ["that the composed storages together answer like one storage of everything: run on generated histories of accounts that move between programs", "updates at the same time: run with up to 8 threads"]},
    "C16": {"units": {"ondemand": ["AccountsOnDemand::new"] + ["AccountStorageInterface for AccountsOnDemand::" + f for f in
            ("update_account", "initilize_or_update_account", "get_account", "get_program_accounts", "process_slot_data", "create_snapshot", "load_from_snapshot")]},
            "bounded": ["requests at the same time (one load for all, waiting for it, not being held up by another): run with threads and with chosen overlaps; the contracts cover a request whose storage, filters and source answer anything at all"]},
    "C19": {"locks": LOCKING, "trusted": LOCK_TRUST,
            "assumptions": ["the implementations of the subscription source that users supply do not call the storage while they subscribe", "no thread panics while it holds a lock"],
            "bounded": ["that the operations really return: up to 8 threads on the real storages, with a time limit; what is listed afterwards is what is read one by one"]},
    "C20": {"units": {"snapshot": SNAPSHOT}, "harness": "snap",
            "trusted": ["stand-ins for tar, solana-accounts-db and solana-runtime (snap/stubs) in the executable contracts: these crates are not to be had offline"],
            "assumptions": ["the layout of StoredMeta, AccountMeta and Hash is that of solana 1.18 (48, 56 and 32 bytes)", "a file does not change while it is mapped", "a mapped area starts at a page", "the flag byte of a stored account is 0 or 1"],
            "bounded": ["finding the files: reading the manifest, the iterators over a directory or an archive, and sharing the files out over consumers: run on generated directories and archives"]},
    "C17": {"units": {"contents": DATA_FNS + ["Account::from_solana_account", "Account::to_solana_account"]}},
    "C18": {"units": {"conversion": FILTER_FNS + ["From<&RpcFilterType> for AccountFilterType::from", "AccountFilter::get_rpc_filter", "AccountData::allows"]},
            "bounded": ["reading and writing filters as JSON (serde's generic deserializer is outside the verifier's language): run on generated filters and malformed texts"]},
    "C05": {"units": {"filters": FILTER_FNS}},
    "C06": {"units": {"filters": [
        "filters_in_bytes", FS + "add_account_filter", FS + "add_account_filters", FS + "contains_account", FS + "contains_filter_internal",
        FS + "intersects_filter", FS + "satisfies_filter",
        "AccountFiltersStoreInterface for SimpleFilterStore::satisfies", "AccountFiltersStoreInterface for SimpleFilterStore::contains_filter",
        "ExceptFilterStore::add_account_filters", "AccountFiltersStoreInterface for ExceptFilterStore::satisfies", "AccountFiltersStoreInterface for ExceptFilterStore::contains_filter",
        "MutableFilterStore::add_account_filters", "MutableFilterStore::contains_account", "MutableFilterStore::satisfies_filter",
        "AccountFiltersStoreInterface for MutableFilterStore::satisfies", "AccountFiltersStoreInterface for MutableFilterStore::contains_filter"] + FILTER_FNS},
            "bounded": ["operations at the same time: filters added are all there; run with up to 9 threads (the contracts speak about one operation at a time)"]},
}
