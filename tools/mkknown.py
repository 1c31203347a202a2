#!/usr/bin/env python3
"""Writes known_findings.json: the fixed defects (they suppress nothing) and the recorded findings."""
import json, subprocess
FIXED = [  # commit, property, what failed
 ("eab6a0a", "C01", "8 and 16 bit atoms were encoded and decoded with the wrong width or sign"),
 ("008465e", "C03", "the sanity check accepted packets whose nested sizes, strings or blobs ran past the end"),
 ("56e71db", "C10", "bounded formatting wrote past the buffer or announced a wrong length"),
 ("0c6c885", "C14", "time tag arithmetic lost carries, ISO 8601 fractions and offsets were misread"),
 ("240419b", "C04", "an empty alternative or the end of an address inside {...} was mishandled"),
 ("7c01166", "C20", "atoms freed or kept memory they did or did not own when changing type"),
 ("b34ae1c", "C07", "message and bundle lists lost or mislinked elements on insertion and removal"),
 ("a4dde65", "C08", "blob lengths were misread"),
 ("ae5d2a2", "C08", "serialized atom conversions disagreed with the unserialized ones"),
 ("cbf257a", "C13", "array copy-into and joined strings read or wrote out of bounds"),
 ("4ef4cdf", "C05", "empty serialized bundles and bound addresses were misreported"),
 ("a4dcabd", "C11", "flatten and explode lost or mangled addresses"),
 ("75be9dc", "C05", "osc_bundle_u_addressIsBound ignored messages without data"),
 ("a6ef932", "C02", "cached offsets were stale after in-place use"),
 ("4ef692a", "C02", "cached offsets were stale after in-place use (second site)"),
 ("d6985c5", "C13", "hash table storeSafe leaked or kept the wrong value"),
 ("15b7917", "C12", "vtable registration and removal mishandled shared addresses"),
 ("acbeb1d", "C12", "partial matches were delivered with the wrong remainder"),
 ("9340d47", "C07", "appending a message list did not link backwards"),
 ("2d419ef", "C09", "appending an atom list did not link backwards"),
 ("97702e5", "C09", "quoted strings with escapes were cut; the text parser leaked on errors"),
 ("b3be57c", "C19", "a bundle text syntax error returned a half-built bundle"),
 ("38297a4", "C20", "a bounded serialization into a tiny buffer leaked its iterator"),
 ("b6efc5d", "C07", "insertStringPtr copied or kept the wrong pointer"),
 ("14a2595", "C12", "dispatch with an empty table declared zero-length arrays"),
 ("0b92d2c", "C13", "resizing an array to no elements failed"),
 ("59a2158", "C14", "the fraction of the current time overflowed at the end of a second"),
("aa57d4b", "C15", "subtraction of integers took the type of the wrong operand"),
 ("8c562d4", "C15", "integer arithmetic on booleans, unsigned bytes and the most negative value"),
 ("5a502f7", "C15", "modulo of wide integers went through a double"),
 ("0836412", "C15", "increment and decrement ignored most integer types"),
 ("b9bcaaa", "C15", "logical not ignored most integer types"),
 ("db30ee1", "C15", "!= with nil gave the opposite answer"),
 ("5612a9e", "C15", "the ^ operator did not call the power function"),
 ("1af70ca", "C19", "reporting a parse error read past the text and used it as a format"),
 ("b6ac4a7", "C20", "the expression parser leaked the atoms of addresses it copied"),
 ("4c83aa8", "C21", "the scanner's column was a global shared by all parsers"),
 ("b781749", "C15", "expression strings lost what follows an escaped quote"),
("5c4672f", "C17", "++ and -- left elements that are not numbers unset: the message was malformed"),
 ("14e79a4", "C17", "if() with an empty list as its condition declared an array of length 0"),
 ("7f74b74", "C17", "indexed assignment used a stale message after its operands changed the bundle, ignored failures"),
 ("63a08cf", "C17", "an unbound address inside an argument was reported through the wrong union member (crash)"),
 ("44970bf", "C20", "assign() leaked its address when it failed"),
 ("1a9ea58", "C20", "exists() and bound() leaked what they evaluated"),
 ("39b0b0d", "C20", "delete() leaked an address given as a string"),
 ("d089557", "C20", "emptybundle() leaked its argument"),
 ("6f5c11e", "C20", "settimetag() leaked its argument"),
]
# later repairs name their property in the commit body: "Property: Cxx"
for e in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x1f%s%x1f%b%x1e", "d200969..HEAD"], capture_output=True, text=True).stdout.split("\x1e"):
    if not e.strip("\n"):
        continue
    h, sub, body = e.strip("\n").split("\x1f")
    if sub.startswith("fix:") and not any(h.startswith(c) or c.startswith(h) for c, _, _ in FIXED):
        prop = [l.split(":")[1].strip() for l in body.splitlines() if l.startswith("Property:")]
        FIXED.append((h, prop[0] if prop else "C20", sub[5:]))
FINDINGS = []
import os
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for c, p, w in FIXED]},
          open("/verif/known_findings.json", "w"), indent=1)
