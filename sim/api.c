/* Scheduling points at the storage-engine API (the seam between polodb_core and RocksDB), and configuration knobs. */
#include "core.h"
typedef long L;
#define PT(name) \
    EXPORT L name(L a, L b, L c, L d, L e, L f, L g) { \
        static L (*r)(L, L, L, L, L, L, L); if (!r) r = (L (*)(L, L, L, L, L, L, L))dlsym(RTLD_NEXT, #name); \
        if (ON()) { ps_pt(CLS_API); } return r(a, b, c, d, e, f, g); }
PT(rocksdb_transaction_begin) PT(rocksdb_transaction_put) PT(rocksdb_transaction_get) PT(rocksdb_transaction_get_for_update)
PT(rocksdb_transaction_delete) PT(rocksdb_transaction_commit) PT(rocksdb_transaction_rollback) PT(rocksdb_transaction_destroy)
PT(rocksdb_transaction_create_iterator) PT(rocksdb_iter_seek) PT(rocksdb_iter_seek_to_first) PT(rocksdb_iter_next) PT(rocksdb_iter_prev)
PT(rocksdb_iter_destroy) PT(rocksdb_wait_for_compact) PT(rocksdb_transactiondb_flush_wal) PT(rocksdb_transactiondb_close)
PT(rocksdb_transactiondb_get) PT(rocksdb_transactiondb_put) PT(rocksdb_transactiondb_delete) PT(rocksdb_transactiondb_create_snapshot)
PT(rocksdb_transaction_get_snapshot) PT(rocksdb_transaction_set_savepoint) PT(rocksdb_transaction_rollback_to_savepoint)
PT(rocksdb_transaction_get_pinned) PT(rocksdb_transaction_get_pinned_for_update) PT(rocksdb_transaction_merge) PT(rocksdb_transactiondb_release_snapshot)

#define SYM(ret, name, ...) ret (*name)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
EXPORT void *rocksdb_transactiondb_open(void *opt, void *topt, const char *path, char **err) {
    SYM(void *, rocksdb_transactiondb_open, void *, void *, const char *, char **);
    if (ON()) {
        if (C->knob_small) {
            SYM(void, rocksdb_options_set_write_buffer_size, void *, size_t);
            SYM(void, rocksdb_options_set_level0_file_num_compaction_trigger, void *, int);
            SYM(void, rocksdb_options_set_target_file_size_base, void *, uint64_t);
            rocksdb_options_set_write_buffer_size(opt, 65536);
            rocksdb_options_set_level0_file_num_compaction_trigger(opt, 2);
            rocksdb_options_set_target_file_size_base(opt, 32768);
        }
        if (C->knob_small || C->knob_nocache) {
            SYM(void *, rocksdb_block_based_options_create, void);
            SYM(void, rocksdb_block_based_options_set_block_size, void *, size_t);
            SYM(void, rocksdb_block_based_options_set_no_block_cache, void *, unsigned char);
            SYM(void, rocksdb_options_set_block_based_table_factory, void *, void *);
            SYM(void, rocksdb_block_based_options_destroy, void *);
            void *b = rocksdb_block_based_options_create();
            rocksdb_block_based_options_set_block_size(b, 256);
            if (C->knob_nocache) rocksdb_block_based_options_set_no_block_cache(b, 1);
            rocksdb_options_set_block_based_table_factory(opt, b);
            rocksdb_block_based_options_destroy(b);
        }
        ps_pt(CLS_API);
    }
    return rocksdb_transactiondb_open(opt, topt, path, err);
}
