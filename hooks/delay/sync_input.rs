// generated by hooks/gen.py
include!("../parts/i_sync_input.rs");
