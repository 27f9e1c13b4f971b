// generated by hooks/gen.py
include!("../parts/i_sync_ping.rs");
