#!/usr/bin/env python3
"""Writes /verif/hooks/<set>/<file>.rs: what /repo's guarded hook modules include for one check.
A check includes only the wrappers it needs, so that a change to other private items does not
keep it from compiling."""
import pathlib
H = pathlib.Path(__file__).parent
FILES = ["transport", "receive", "send", "send_reliable", "header", "netcode", "sync", "sync_input", "sync_ping"]
# set -> {file: [parts]}; parts/<name>.rs
SETS = {
 "none": {},
 "rcv": {"transport": ["rcv"], "receive": ["i_receive"]},
 "snd": {"transport": ["cand", "snd"], "send_reliable": ["i_send_reliable"], "send": ["i_send"]},
 "chan": {"transport": ["cand", "rcv", "snd", "both"], "receive": ["i_receive"], "send_reliable": ["i_send_reliable"], "send": ["i_send"]},
 "wire": {"transport": ["wire"]},
 "hdr": {"transport": ["hdr"], "header": ["i_header"]},
 "build": {"transport": ["cand", "mkcand", "builder", "hdr", "wire"], "header": ["i_header"]},
 "tuning": {"transport": ["tuning"]},
 "ping": {"sync": ["sync"], "sync_ping": ["i_sync_ping"]},
 "delay": {"sync": ["sync_delay"], "sync_input": ["i_sync_input"]},
 "netcode": {"netcode": ["netcode"]},
}
def main():
    for s, files in SETS.items():
        d = H / s; d.mkdir(exist_ok=True)
        for f in FILES:
            o = "// generated by hooks/gen.py\n"
            parts = files.get(f, [])
            if f == "transport": o += "pub struct Ch;\n"
            for p in parts:
                if f in ("transport", "netcode", "sync"):
                    o += f'pub mod {p} {{\n    include!("../parts/{p}.rs");\n}}\npub use {p}::*;\n'
                else:
                    o += f'include!("../parts/{p}.rs");\n'
            (d / f"{f}.rs").write_text(o)
main()
