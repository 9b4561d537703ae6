//! Mechanical extraction of the real sources into the symbolic instantiation.
//!
//! usage: extract <src-dir> <out-dir>
//!
//! Every `.rs` file below <src-dir> is copied to <out-dir> with exactly these token-level edits
//! (everything else, including line numbers, is byte-identical to the source):
//!   E1  a floating point literal token L            ->  ::symnum::lit(L)
//!   E2  the type / module name f64                  ->  ::symnum::Sym   (f64::consts -> ::symnum::consts)
//!   E3  a cast `e as dtype` / `e as f64`            ->  ::symnum::cast(e)
//!   E4  `const X: T = <expression with operators>`  ->  ::symnum::lit(<the same f64 expression>)
//!   E5  `pub(crate)` / `pub(super)` and private fn/struct field visibility is left alone unless the
//!       file is listed with --pub: then `fn`, `struct`, `mod` items without a visibility get `pub`.
//!   E6  in files with rerun in their path only: f32 is treated like f64 (the drawing types' numbers are symbolic too)
//! The edits are printed to <out-dir>/EDITS.txt, one per line, as part of the evidence.
use proc_macro2::{Delimiter, Group, LexError, TokenStream, TokenTree};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    rule: &'static str,
}
struct X<'a> {
    src: &'a str,
    f32_too: bool,
    edits: Vec<Edit>,
}
fn is_float(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() || !b[0].is_ascii_digit() {
        return false;
    }
    if s.starts_with("0x") || s.starts_with("0b") || s.starts_with("0o") {
        return false;
    }
    if s.ends_with("f64") || s.ends_with("f32") {
        return true;
    }
    s.contains('.') || s.contains('e') && !s.ends_with("size") || s.contains('E')
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn ident(t: Option<&TokenTree>, s: &str) -> bool {
    matches!(t, Some(TokenTree::Ident(p)) if *p == s)
}
fn lo(t: &TokenTree) -> usize {
    t.span().byte_range().start
}
fn hi(t: &TokenTree) -> usize {
    t.span().byte_range().end
}
/// index of the first token of the operand of `as` at position k
fn operand_start(ts: &[TokenTree], k: usize) -> Option<usize> {
    // postfix expression: primary ( .ident | .lit | ::ident | (..) | [..] | ::<..> )*
    let mut i = k; // exclusive end
    let mut need_primary = true;
    loop {
        if i == 0 {
            break;
        }
        let t = &ts[i - 1];
        match t {
            TokenTree::Group(g) => {
                i -= 1;
                // call or index or parenthesised primary: callee follows if previous is ident / group / '>'
                match g.delimiter() {
                    Delimiter::Parenthesis | Delimiter::Bracket => {
                        let prev = if i > 0 { Some(&ts[i - 1]) } else { None };
                        let callee = match prev {
                            Some(TokenTree::Ident(id)) => !is_keyword(&id.to_string()),
                            Some(TokenTree::Group(g)) => g.delimiter() != Delimiter::Brace,
                            Some(TokenTree::Punct(p)) => p.as_char() == '>' || p.as_char() == '?' || (p.as_char() == '!' && i >= 2 && matches!(ts[i - 2], TokenTree::Ident(_))),
                            _ => false,
                        };
                        need_primary = callee;
                    }
                    _ => need_primary = false,
                }
            }
            TokenTree::Literal(_) | TokenTree::Ident(_) => {
                i -= 1;
                need_primary = false;
                // $ident of a macro
                if i > 0 && punct(ts.get(i - 1), '$') {
                    i -= 1;
                }
            }
            TokenTree::Punct(p) if need_primary && p.as_char() == '>' => {
                // generic arguments ::<...>
                let mut depth = 0;
                while i > 0 {
                    if punct(ts.get(i - 1), '>') {
                        depth += 1;
                    }
                    if punct(ts.get(i - 1), '<') {
                        depth -= 1;
                    }
                    i -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                if i >= 2 && punct(ts.get(i - 1), ':') && punct(ts.get(i - 2), ':') {
                    i -= 2;
                } else {
                    return None;
                }
            }
            TokenTree::Punct(p) if need_primary && p.as_char() == '?' => {
                i -= 1;
            }
            TokenTree::Punct(p) if need_primary && p.as_char() == '!' => {
                i -= 1;
            }
            _ => return None,
        }
        if need_primary {
            continue;
        }
        // continue through . and ::
        if i >= 1 && punct(ts.get(i - 1), '.') && !(i >= 2 && punct(ts.get(i - 2), '.')) {
            i -= 1;
            need_primary = true;
            continue;
        }
        if i >= 2 && punct(ts.get(i - 1), ':') && punct(ts.get(i - 2), ':') {
            i -= 2;
            if i == 0 || !matches!(ts[i - 1], TokenTree::Ident(_)) {
                break;
            }
            need_primary = true;
            continue;
        }
        break;
    }
    // unary prefix operators
    loop {
        if i == 0 {
            break;
        }
        let un = matches!(&ts[i - 1], TokenTree::Punct(p) if matches!(p.as_char(), '*' | '!' | '-' | '&'));
        if !un {
            break;
        }
        let before = if i >= 2 { Some(&ts[i - 2]) } else { None };
        let binary = match before {
            Some(TokenTree::Ident(id)) => !is_keyword(&id.to_string()),
            Some(TokenTree::Literal(_)) | Some(TokenTree::Group(_)) => true,
            Some(TokenTree::Punct(p)) => p.as_char() == '>' && punct(ts.get(i.wrapping_sub(2)), '>') && false,
            None => false,
        };
        if binary {
            break;
        }
        i -= 1;
    }
    if i < k {
        Some(i)
    } else {
        None
    }
}
fn is_keyword(s: &str) -> bool {
    matches!(s, "return" | "in" | "if" | "match" | "while" | "else" | "as" | "let" | "mut" | "ref" | "move" | "break" | "for" | "where" | "const" | "static")
}
const RAW_ARG: [&str; 4] = ["from_f64", "convert", "from_secs_f64", "from_f32"];

impl<'a> X<'a> {
    fn walk(&mut self, s: TokenStream, raw: bool) {
        let ts: Vec<TokenTree> = s.into_iter().collect();
        let mut i = 0;
        while i < ts.len() {
            match &ts[i] {
                TokenTree::Group(g) => self.group(&ts, i, g, raw),
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    let tuple_index = i > 0 && punct(ts.get(i - 1), '.') && !(i > 1 && punct(ts.get(i - 2), '.'));
                    if !raw && is_float(&s) && !tuple_index {
                        let body = s.trim_end_matches("f64").trim_end_matches("f32").trim_end_matches('_').to_string();
                        let body = if body.contains('.') || body.contains('e') || body.contains('E') { body } else { format!("{body}.0") };
                        let body = if body.ends_with('.') { format!("{body}0") } else { body };
                        self.edit(lo(&ts[i]), hi(&ts[i]), format!("::symnum::lit({body})"), "E1");
                    }
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s == "as" && (ident(ts.get(i + 1), "dtype") || ident(ts.get(i + 1), "f64") || self.f32_too && ident(ts.get(i + 1), "f32")) && !punct(ts.get(i + 2), ':') {
                        if let Some(b) = operand_start(&ts, i) {
                            self.edit(lo(&ts[b]), lo(&ts[b]), "::symnum::cast(".into(), "E3");
                            let mut end = hi(&ts[i + 1]);
                            let _ = &mut end;
                            self.edit(lo(&ts[i]), end, ")".into(), "E3");
                            i += 2;
                            continue;
                        }
                    }
                    if s == "as" && punct(ts.get(i + 1), '$') && ident(ts.get(i + 2), "crate") && ident(ts.get(i + 5), "dtype") {
                        if let Some(b) = operand_start(&ts, i) {
                            self.edit(lo(&ts[b]), lo(&ts[b]), "::symnum::cast(".into(), "E3");
                            self.edit(lo(&ts[i]), hi(&ts[i + 5]), ")".into(), "E3");
                            i += 6;
                            continue;
                        }
                    }
                    if s == "as" && (ident(ts.get(i + 1), "crate") || ident(ts.get(i + 1), "factrs")) && ident(ts.get(i + 4), "dtype") {
                        if let Some(b) = operand_start(&ts, i) {
                            self.edit(lo(&ts[b]), lo(&ts[b]), "::symnum::cast(".into(), "E3");
                            self.edit(lo(&ts[i]), hi(&ts[i + 4]), ")".into(), "E3");
                            i += 5;
                            continue;
                        }
                    }
                    if (s == "std" || s == "core")
                        && punct(ts.get(i + 1), ':')
                        && punct(ts.get(i + 2), ':')
                        && (ident(ts.get(i + 3), "f64") || ident(ts.get(i + 3), "f32"))
                    {
                        // std::f64::consts -> ::symnum::consts ; std::f64 -> ::symnum
                        let start = if i >= 2 && punct(ts.get(i - 1), ':') && punct(ts.get(i - 2), ':') && (i < 3 || !matches!(ts[i - 3], TokenTree::Ident(_))) {
                            lo(&ts[i - 2])
                        } else {
                            lo(&ts[i])
                        };
                        self.edit(start, hi(&ts[i + 3]), if punct(ts.get(i + 4), ':') { "::symnum".into() } else { "::symnum::Sym".into() }, "E2");
                        i += 4;
                        continue;
                    }
                    if s == "f64" || self.f32_too && s == "f32" {
                        if punct(ts.get(i + 1), ':') && punct(ts.get(i + 2), ':') && ident(ts.get(i + 3), "consts") {
                            self.edit(lo(&ts[i]), hi(&ts[i]), "::symnum".into(), "E2");
                        } else {
                            self.edit(lo(&ts[i]), hi(&ts[i]), "::symnum::Sym".into(), "E2");
                        }
                    }
                    if s == "const" {
                        if let Some(n) = self.konst(&ts, i, raw) {
                            i = n;
                            continue;
                        }
                    }
                }
                _ => {}
            }
            i += 1;
        }
    }
    /// const NAME: T = expr;   with operators in expr
    fn konst(&mut self, ts: &[TokenTree], i: usize, _raw: bool) -> Option<usize> {
        if !matches!(ts.get(i + 1), Some(TokenTree::Ident(_))) || !punct(ts.get(i + 2), ':') {
            return None;
        }
        if !(ident(ts.get(i + 3), "dtype") || ident(ts.get(i + 3), "f64")) || !punct(ts.get(i + 4), '=') {
            return None;
        }
        let mut j = i + 5;
        while j < ts.len() && !punct(ts.get(j), ';') {
            j += 1;
        }
        if j - (i + 5) < 2 || j == ts.len() {
            return None;
        }
        let body = &ts[i + 5..j];
        // only literals, operators and parentheses: evaluate as f64
        fn pure(ts: &[TokenTree]) -> bool {
            ts.iter().all(|t| match t {
                TokenTree::Literal(_) | TokenTree::Punct(_) => true,
                TokenTree::Group(g) => pure(&g.stream().into_iter().collect::<Vec<_>>()),
                TokenTree::Ident(x) => matches!(x.to_string().as_str(), "std" | "core" | "f64" | "consts" | "PI"),
            })
        }
        if !pure(body) {
            return None;
        }
        if ident(ts.get(i + 3), "f64") {
            self.edit(lo(&ts[i + 3]), hi(&ts[i + 3]), "::symnum::Sym".into(), "E2");
        }
        self.edit(lo(&body[0]), lo(&body[0]), "::symnum::lit(".into(), "E4");
        let e = hi(&body[body.len() - 1]);
        self.edit(e, e, ")".into(), "E4");
        Some(j)
    }
    fn group(&mut self, ts: &[TokenTree], i: usize, g: &Group, raw: bool) {
        // attributes are left alone
        if g.delimiter() == Delimiter::Bracket && i > 0 && (punct(ts.get(i - 1), '#') || (punct(ts.get(i - 1), '!') && i > 1 && punct(ts.get(i - 2), '#'))) {
            return;
        }
        let mut r = raw;
        if i > 0 {
            if let TokenTree::Ident(id) = &ts[i - 1] {
                if RAW_ARG.contains(&id.to_string().as_str()) {
                    r = true;
                }
            }
        }
        self.walk(g.stream(), r);
    }
    fn edit(&mut self, lo: usize, hi: usize, text: String, rule: &'static str) {
        self.edits.push(Edit { lo, hi, text, rule });
    }
}
fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out)
        } else {
            out.push(p)
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (Path::new(&a[1]), Path::new(&a[2]));
    let mut log = String::new();
    let mut fs = vec![];
    files(src, &mut fs);
    let mut keep = vec![];
    for f in &fs {
        let rel = f.strip_prefix(src).unwrap();
        let out = dst.join(rel);
        keep.push(out.clone());
        std::fs::create_dir_all(out.parent().unwrap()).unwrap();
        if f.extension().map(|e| e != "rs").unwrap_or(true) {
            write_if_changed(&out, &std::fs::read(f).unwrap());
            continue;
        }
        let text = std::fs::read_to_string(f).unwrap();
        let ts: Result<TokenStream, LexError> = text.parse();
        let ts = match ts {
            Ok(t) => t,
            Err(e) => {
                eprintln!("extract: cannot lex {}: {e}", f.display());
                std::process::exit(2);
            }
        };
        let mut x = X { src: &text, f32_too: rel.to_string_lossy().contains("rerun"), edits: vec![] };
        x.walk(ts, false);
        let mut es = x.edits.clone();
        es.sort_by_key(|e| (e.lo, e.hi));
        // byte_range is relative to the source map of all parsed files: normalise by the first token offset
        let mut o = String::with_capacity(text.len() + 1024);
        let mut at = 0;
        for e in &es {
            assert!(e.lo >= at, "overlapping edits in {}", f.display());
            o.push_str(&x.src[at..e.lo]);
            let _ = writeln!(log, "{}:{}: {}: `{}` -> `{}`", rel.display(), x.src[..e.lo].matches('\n').count() + 1, e.rule, &x.src[e.lo..e.hi].replace('\n', " "), e.text);
            o.push_str(&e.text);
            at = e.hi;
        }
        o.push_str(&x.src[at..]);
        write_if_changed(&out, o.as_bytes());
        proc_macro2::extra::invalidate_current_thread_spans();
    }
    let mut old = vec![];
    files(dst, &mut old);
    for f in old {
        if !keep.contains(&f) && f.file_name().unwrap() != "EDITS.txt" {
            std::fs::remove_file(&f).unwrap();
        }
    }
    write_if_changed(&dst.join("EDITS.txt"), log.as_bytes());
}
fn write_if_changed(p: &Path, b: &[u8]) {
    if std::fs::read(p).map(|x| x == b).unwrap_or(false) {
        return;
    }
    std::fs::write(p, b).unwrap();
}
