// generated by hooks/gen.py
