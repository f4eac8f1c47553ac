#!/usr/bin/env python3
"""Generates the WebAssembly wrappers of /repo as native modules, at the symbolic
number type and at f64, into .build/gen (regenerated on every run).

Only these things change: attributes and imports of wasm_bindgen are dropped, the
number type f64 becomes the alias F (its literals and constants are converted), and
crate paths are redirected.
"""
import os, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
OUT = os.path.join(V, ".build", "gen")

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_num import numbers

def convert(text, me):
    text = re.sub(r"#\[(?:cfg_attr\([^\]]*wasm_bindgen[^\]]*|wasm_bindgen[^\]]*)\]", "", text)
    text = re.sub(r"^\s*(?:pub\s+)?use\s+wasm_bindgen::[^;]*;", "", text, flags=re.M)
    text = numbers(text, f"crate::{me}::F")
    # crate::kernel -> the library; crate::wasm -> this copy
    def tree(m):
        return m.group(0)
    text = re.sub(r"\bcrate::wasm\b", f"crate::{me}", text)
    text = re.sub(r"\bcrate::(kernel|algorithm)\b", r"rcgal::\1", text)
    # use crate::{ kernel::..., wasm::... };
    def split(m):
        items, depth, cur = [], 0, ""
        for ch in m.group(1):
            if ch == "{": depth += 1
            if ch == "}": depth -= 1
            if ch == "," and depth == 0:
                items.append(cur); cur = ""
            else:
                cur += ch
        items.append(cur)
        out = []
        for i in items:
            i = i.strip()
            if not i: continue
            if i.startswith("wasm::"): out.append(f"use crate::{me}::{i[6:]};")
            else: out.append(f"use rcgal::{i};")
        return "\n".join(out)
    text = re.sub(r"\buse\s+crate::\{(.*?)\};", split, text, flags=re.S)
    return text + "\n#[allow(unused_imports)]\nuse rcgal::kernel::number_type::NumberType as _;\n"

def main():
    tmp = OUT + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    for kind, ty in (("sym", "crate::sym::Sym"), ("f64", "f64")):
        me = f"wasm_{kind}"
        d = os.path.join(tmp, kind)
        os.makedirs(d)
        for root, ds, fs in os.walk(os.path.join(SRC, "wasm")):
            rel = os.path.relpath(root, os.path.join(SRC, "wasm"))
            os.makedirs(os.path.join(d, rel), exist_ok=True)
            for f in fs:
                if f.endswith(".rs"):
                    t = convert(open(os.path.join(root, f)).read(), me)
                    open(os.path.join(d, rel, f), "w").write(t)
        top = convert(open(os.path.join(SRC, "wasm.rs")).read(), me)
        h = os.path.join(V, "symx", "src", "wasm_h.rs")
        open(os.path.join(d, "mod.rs"), "w").write(
            f"pub type F = {ty};\n{top}\n#[path = \"{h}\"]\npub mod harness;\n")
    # replace only what changed, so that cargo need not rebuild
    for root, ds, fs in os.walk(tmp):
        o = os.path.join(OUT, os.path.relpath(root, tmp))
        os.makedirs(o, exist_ok=True)
        for f in fs:
            new = open(os.path.join(root, f)).read()
            p = os.path.join(o, f)
            if not os.path.exists(p) or open(p).read() != new:
                open(p, "w").write(new)
    for root, ds, fs in os.walk(OUT):
        n = os.path.join(tmp, os.path.relpath(root, OUT))
        for f in fs:
            if not os.path.exists(os.path.join(n, f)):
                os.remove(os.path.join(root, f))
    shutil.rmtree(tmp)

main()
