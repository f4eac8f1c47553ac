#!/usr/bin/env python3
"""What the number traits of /repo require beyond the methods the symbolic type implements
by hand (none on the unchanged tree), taken from their implementation for f64; written to
.build/gen_num/num_extra.rs on every run."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/kernel/number_type.rs"
N = "rcgal::kernel::number_type"
KNOWN = {"DefaultNumberValueTrait": {"default", "default_eps", "zero", "from_f64", "pi"},
         "NumberType": {"equals", "sqrt", "abs", "sin", "cos", "acos", "atan", "atan2"}}

def numbers(text, F):
    """code over f64 as code over F"""
    of = f"<{F} as {N}::DefaultNumberValueTrait>::from_f64"
    pi = f"<{F} as {N}::DefaultNumberValueTrait>::pi()"
    raw = "\0"  # stands for f64 itself
    c = r"(?:\b(?:std|core)\s*::\s*)?\bf64\s*::\s*"
    text = re.sub(c + r"consts\s*::\s*PI\b", pi, text)
    text = re.sub(c + r"consts\s*::\s*TAU\b", f"({pi} + {pi})", text)
    text = re.sub(c + r"consts\s*::\s*FRAC_PI_(\d+)\b", lambda m: f"({pi} / {of}({m.group(1)} as {raw}))", text)
    text = re.sub(c + r"(consts\s*::\s*\w+|[A-Z][A-Z_]+)\b", lambda m: f"{of}(std::{raw}::{m.group(1)})", text)
    text = re.sub(r"\b([A-Za-z_][\w.]*(?:\(\))?|\d+)\s+as\s+f64\b", lambda m: f"{of}({m.group(1)} as {raw})", text)
    lit = r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+|\d[\d_]*\.(?![\w.]))(?:_?f64)?"
    text = re.sub(lit, lambda m: f"{of}({m.group(1)})", text)
    text = re.sub(r"\bf64\b(?!\s*::)", F, text)
    text = re.sub(r"\bf64\s*::", f"<{F}>::", text)
    return text.replace(raw, "f64")

def block(text, i):
    """the text between the brace at or after i and its match"""
    i = text.index("{", i)
    d = 0
    for j in range(i, len(text)):
        d += text[j] == "{"
        d -= text[j] == "}"
        if d == 0:
            return text[i + 1:j]
    raise ValueError("unbalanced")

def methods(body):
    """name -> (text, has a body) of the functions at the top level of a block"""
    out, i = {}, 0
    while True:
        m = re.compile(r"\b(?:unsafe\s+|const\s+)*fn\s+(\w+)").search(body, i)
        if not m:
            return out
        semi, brace = body.find(";", m.end()), body.find("{", m.end())
        if brace < 0 or 0 <= semi < brace:
            out[m.group(1)] = (body[m.start():semi + 1], False)
            i = semi + 1
        else:
            b = block(body, brace)
            out[m.group(1)] = (body[m.start():brace + 2 + len(b)], True)
            i = brace + len(b) + 2

def main():
    t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(SRC).read(), flags=re.S)
    impls = {m.group(1): block(t, m.end()) for m in re.finditer(r"\bimpl\s+(\w+)\s+for\s+f64\s*(?=\{)", t)}
    out = ""
    S = "crate::sym::Sym"
    for name, known in KNOWN.items():
        extra = ""
        m = re.search(r"\bpub\s+trait\s+" + name + r"\b", t)
        if m:
            for f, (sig, has) in methods(block(t, m.end())).items():
                if f in known:
                    continue
                have = methods(impls.get(name, "")).get(f)
                if have:
                    extra += numbers(have[0], S) + "\n"
                elif not has:
                    extra += sig.rstrip(";") + ' { crate::engine::abort_unsupported("number type") }\n'
        out += f"macro_rules! extra_{name} {{ () => {{\n{extra}}} }}\n"
    for name, body in impls.items():
        if name not in KNOWN and re.search(r"\bpub\s+trait\s+" + name + r"\b", t):
            out += f"impl {N}::{name} for {S} {{{numbers(body, S)}}}\n"
    d = os.path.join(V, ".build", "gen_num")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "num_extra.rs")
    if not os.path.exists(p) or open(p).read() != out:
        open(p, "w").write(out)

if __name__ == "__main__":
    main()
