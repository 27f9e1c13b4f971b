// generated by hooks/gen.py
include!("../parts/i_send_reliable.rs");
