// generated by hooks/gen.py
include!("../parts/i_receive.rs");
