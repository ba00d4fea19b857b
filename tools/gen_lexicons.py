#!/usr/bin/env python3
"""Writes witness/src/lexicons.rs: one lexicon for every size from 1 to 128 through the real derive macro.
Kinds of variants: terminal with a literal (t), with a regex (r), set aside with a regex (x), semantic only (s); the last two also with an empty list of terminals."""
def kind(n, i):
    if n == 1 or i == (n * 7) % n: return 't'
    if i == n - 1: return 'tsxr'[n % 4]
    h = (i * 2654435761 + n * 40503) >> 7
    if n > 12 and h % (n // 6) : return 's'
    return 'trxs'[(h // 7) % 4]
out = ["//! Written by tools/gen_lexicons.py: do not edit.", "pub trait Facts: teleparse::Lexicon { const ALL: &'static [Self]; const SET_ASIDE: &'static [bool]; }"]
for n in range(1, 129):
    ks = [kind(n, i) for i in range(n)]
    out.append(f"pub mod n{n} {{\n    use teleparse::prelude::*;\n    #[derive_lexicon]\n    #[teleparse(ignore(\"~+\"))]\n    pub enum T {{")
    for i, k in enumerate(ks):
        if k == 't': out.append(f'        #[teleparse(terminal(K{i} = "k{i}", L{i} = "l{i}"))]' if i % 2 else f'        #[teleparse(terminal(K{i} = "k{i}"))]')
        if k == 'r': out.append(f'        #[teleparse(regex("r{i}[a-z]+"), terminal(K{i}))]')
        if k == 'x': out.append(f'        #[teleparse(regex("x{i}[a-z]+"), terminal())]' if (i + n) % 3 == 0 else f'        #[teleparse(regex("x{i}[a-z]+"))]')
        if k == 's' and (i + n) % 5 == 0: out.append('        #[teleparse(terminal())]')
        out.append(f"        V{i},")
    out.append("    }\n    impl super::Facts for T {")
    out.append("        const ALL: &'static [Self] = &[" + ", ".join(f"T::V{i}" for i in range(n)) + "];")
    out.append("        const SET_ASIDE: &'static [bool] = &[" + ", ".join("true" if k in 'xs' else "false" for k in ks) + "];\n    }\n}")
out.append("/// run `f!(module)` for every size\n#[macro_export]\nmacro_rules! each { ($f:ident) => { " + " ".join(f"$f!(n{n});" for n in range(1, 129)) + " } }")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "../witness/src/lexicons.rs"), "w").write("\n".join(out) + "\n")
