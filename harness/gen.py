#!/usr/bin/env python3
"""Writes the two Cargo.toml files (solver crate with the stand-ins, replay crate without)."""
import re, pathlib
here = pathlib.Path(__file__).parent
CR = "/repo/crates"
DEPS = {
 "lightyear_core": ("core/core", ["not_mock"]),
 "lightyear_utils": ("core/utils", []),
 "lightyear_serde": ("transport/serde", []),
 "lightyear_transport": ("transport/transport", []),
 "lightyear_link": ("io/link", []),
 "lightyear_connection": ("connection/connection", []),
 "lightyear_netcode": ("connection/netcode", ["std","client","server"]),
 "lightyear_sync": ("core/sync", []),
 "lightyear_messages": ("transport/messages", []),
 "lightyear_p2p": ("connection/p2p", []),
}
EXT = {"bytes": '"1"', "bevy_platform": '{ version = "0.19", default-features = false, features = ["alloc"] }',
       "bevy_ecs": '{ version = "0.19", default-features = false }',
       "bevy_time": '{ version = "0.19", default-features = false }',
       "bevy_reflect": '{ version = "0.19", default-features = false }',
       "serde": '{ version = "1", default-features = false, features = ["derive","alloc"] }',
       "smallvec": '{ version = "1", default-features = false }',
       "fixed": '{ version = "1", default-features = false }',
       "no_std_io2": '"0.9"',
       "smallvec_flat": '{ path = "../../shims/smallvec_flat" }',
}
PROPS = {}
exec((here/"props_deps.py").read_text())
def toml(name, patched):
    o = [f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[features]']
    # k01: the source file under check names `smallvec`; the solver crate gives it the stand-in
    props = {p: [d if (p, d) != ("k01", "smallvec") or not patched else "smallvec_flat" for d in ds] for p, ds in PROPS.items()}
    for p, ds in props.items():
        o.append(f'{p} = [' + ", ".join(f'"{d}"' if "/" in d else f'"dep:{d}"' for d in ds) + ']')
    o.append("\n[dependencies]")
    used = {d for ds in props.values() for d in ds}
    for d, (path, feats) in DEPS.items():
        if d in used:
            f = f', features = {feats}'.replace("'", '"') if feats else ''
            o.append(f'{d} = {{ path = "{CR}/{path}", default-features = false, optional = true{f} }}')
    for d, spec in EXT.items():
        if d in used:
            s = spec if spec.startswith("{") else f'{{ version = {spec} }}'
            o.append(f'{d} = ' + s[:-1].rstrip() + ', optional = true }')
    if patched:
        o.append('\n[patch.crates-io]')
        for d in ("tracing", "bytes"): o.append(f'{d} = {{ path = "../../shims/{d}" }}')
        for d in ("hashbrown16", "hashbrown17"): o.append(f'{d} = {{ package = "hashbrown", path = "../../shims/{d}" }}')
        for d in EXTRA_PATCH: o.append(f'{d} = {{ path = "../../shims/{d}" }}')
        o.append('\n[lints.rust]\nunexpected_cfgs = "allow"')
    else:
        o.append('\n[profile.dev]\nopt-level = 1\ndebug = "line-tables-only"\n[profile.release]\nopt-level = 2\npanic = "unwind"\n[lints.rust]\nunexpected_cfgs = "allow"')
    return "\n".join(o) + "\n"
(here/"kani/Cargo.toml").write_text(toml("verif_kani", True))
(here/"replay/Cargo.toml").write_text(toml("verif_replay", False))
