// The WAL reader is only used by src/bin/dump_wal.rs, which is not built here.
