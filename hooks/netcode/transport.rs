// generated by hooks/gen.py
pub struct Ch;
