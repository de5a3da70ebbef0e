//! gen REPO OUT CONF WORDS: mirrors REPO into OUT without the items that cannot build here
//! (same selection rules as the sandbox's own /opt/vp/subset tool, from which this is derived), and
//! with every item, field and method made `pub`, so that a harness crate can reach private code.
//! Bodies are untouched. Lines stay those of REPO.
//! It works in rounds: the names that the items gone define, and nothing kept defines, go too, except
//! the words of WORDS (those that the kept code used when this was set up, so too common to judge by).
//! CONF lines: "skip PATH" (file or directory), "name IDENT" (every item mentioning it goes),
//! "crate IDENT" (likewise, for an external crate), "keep PATH" (a file put into OUT by someone else), "drop FILE KEY" (one item), "leaf FILE PATH" (one import).
use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::{ImplItem, Item, UseTree};

#[derive(Default)]
struct Conf {
    skip: Vec<String>,
    /// files of OUT that are not from REPO and stay
    keep: Vec<String>,
    names: HashSet<String>,
    crates: HashSet<String>,
    drops: HashSet<(String, String)>,
    leaves: HashSet<(String, String)>,
}

struct Cut<'a> {
    conf: &'a Conf,
    file: String,
    text: &'a str,
    /// offset of the start of each line
    lines: Vec<usize>,
    blanks: Vec<(usize, usize)>,
    /// visibility edits: (start, end, new text)
    edits: Vec<(usize, usize, &'static str)>,
    map: String,
    seen: HashMap<String, usize>,
    kept: &'a mut HashSet<String>,
    gone: &'a mut HashSet<String>,
}

/// The names that a gone item defines: its own, and those inside it.
struct Defs<'a>(&'a mut HashSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Defs<'_> {
    fn visit_item(&mut self, i: &'ast Item) {
        let id = match i {
            Item::Fn(x) => &x.sig.ident,
            Item::Struct(x) => &x.ident,
            Item::Enum(x) => &x.ident,
            Item::Trait(x) => &x.ident,
            Item::Type(x) => &x.ident,
            Item::Const(x) => &x.ident,
            Item::Static(x) => &x.ident,
            Item::Mod(x) => &x.ident,
            _ => return syn::visit::visit_item(self, i),
        };
        self.0.insert(id.to_string());
        if !matches!(i, Item::Fn(_)) {
            syn::visit::visit_item(self, i);
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.0.insert(f.sig.ident.to_string());
    }
    fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
        self.0.insert(f.sig.ident.to_string());
    }
}

fn mentions(ts: TokenStream, conf: &Conf) -> bool {
    let tokens: Vec<_> = ts.into_iter().collect();
    let colon = |i: Option<usize>| {
        i.and_then(|i| tokens.get(i))
            .is_some_and(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))
    };
    tokens.iter().enumerate().any(|(n, t)| match t {
        TokenTree::Ident(i) => {
            let i = i.to_string();
            // a crate at the start of a path: not after "::", and before it
            conf.names.contains(&i)
                || conf.crates.contains(&i)
                    && colon(Some(n + 1))
                    && colon(Some(n + 2))
                    && !(colon(n.checked_sub(1)) && colon(n.checked_sub(2)))
        }
        TokenTree::Group(g) => mentions(g.stream(), conf),
        _ => false,
    })
}

fn compact<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

impl Cut<'_> {
    fn off(&self, p: LineColumn) -> usize {
        let start = self.lines[p.line - 1];
        let rest = &self.text[start..];
        start + rest.char_indices().nth(p.column).map_or(rest.len(), |(i, _)| i)
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn key(&mut self, key: String) -> String {
        let n = self.seen.entry(key.clone()).or_insert(0);
        *n += 1;
        if *n == 1 { key } else { format!("{key}#{n}") }
    }
    fn note(&mut self, s: Span, kind: &str, key: &str, gone: bool) {
        let (a, b) = (s.start(), s.end());
        let _ = writeln!(
            self.map, "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            self.file, a.line, a.column, b.line, b.column, kind, key, if gone { "gone" } else { "kept" }
        );
    }
    /// Blanks the item if it has to go.
    fn judge(&mut self, span: Span, kind: &str, key: &str, bad: bool) -> bool {
        let gone = bad || self.conf.drops.contains(&(self.file.clone(), key.to_string()));
        self.note(span, kind, key, gone);
        if gone {
            let r = self.range(span);
            self.blanks.push(r);
        }
        gone
    }
    fn vis(&mut self, v: &syn::Visibility, at: Span) {
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                let (a, b) = self.range(r.span());
                self.edits.push((a, b, "pub"));
            }
            syn::Visibility::Inherited => {
                let a = self.range(at).0;
                self.edits.push((a, a, "pub "));
            }
        }
    }
    fn fields(&mut self, f: &syn::Fields) {
        for f in f {
            let at = f.ident.as_ref().map_or_else(|| f.ty.span(), |i| i.span());
            self.vis(&f.vis, at);
        }
    }
    fn publish(&mut self, item: &Item) {
        match item {
            Item::Fn(x) => self.vis(&x.vis, x.sig.span()),
            Item::Struct(x) => {
                self.vis(&x.vis, x.struct_token.span());
                self.fields(&x.fields);
            }
            Item::Union(x) => self.vis(&x.vis, x.union_token.span()),
            Item::Enum(x) => self.vis(&x.vis, x.enum_token.span()),
            Item::Trait(x) => self.vis(&x.vis, x.unsafety.map_or(x.trait_token.span(), |u| u.span())),
            Item::Type(x) => self.vis(&x.vis, x.type_token.span()),
            Item::Const(x) if x.ident != "_" => self.vis(&x.vis, x.const_token.span()),
            Item::Static(x) => self.vis(&x.vis, x.static_token.span()),
            Item::Mod(x) => self.vis(&x.vis, x.mod_token.span()),
            _ => {}
        }
    }
    fn bad<T: ToTokens>(&self, t: &T) -> bool {
        mentions(t.to_token_stream(), self.conf)
    }
    fn items(&mut self, prefix: &str, items: &[Item]) {
        for item in items {
            let name = |kind: &str, id: &dyn ToString| format!("{prefix}{kind}:{}", id.to_string());
            match item {
                Item::Use(u) => {
                    let mut path = String::new();
                    if u.leading_colon.is_some() {
                        path.push_str("::");
                    }
                    if self.tree(prefix, &u.tree, &path) {
                        let r = self.range(u.span());
                        self.blanks.push(r);
                    }
                }
                Item::Mod(m) => {
                    let key = self.key(name("mod", &m.ident));
                    let bad = m.content.is_none() && self.conf.names.contains(&m.ident.to_string());
                    let test = m.attrs.iter().any(|a| compact(a) == "#[cfg(test)]");
                    if self.judge(m.span(), "mod", &key, bad) {
                        Defs(self.gone).visit_item(item);
                    } else {
                        if !test { self.publish(item); }
                        if let Some((_, inner)) = &m.content {
                            self.items(&format!("{prefix}{}::", m.ident), inner);
                        }
                    }
                }
                Item::Impl(i) => {
                    let ty = compact(&i.self_ty);
                    if let Some((_, tr, _)) = &i.trait_ {
                        let key = self.key(format!("{prefix}impl:{}for:{ty}", compact(tr)));
                        let bad = self.bad(i);
                        let gone = self.judge(i.span(), "impl", &key, bad);
                        let set = if gone { &mut *self.gone } else { &mut *self.kept };
                        Defs(set).visit_item(item);
                        continue;
                    }
                    let key = self.key(format!("{prefix}impl:{ty}"));
                    let bad = self.bad(&i.self_ty) || self.bad(&i.generics);
                    if self.judge(i.span(), "impl", &key, bad) {
                        Defs(self.gone).visit_item(item);
                        continue;
                    }
                    for x in &i.items {
                        let n = match x {
                            ImplItem::Fn(f) => f.sig.ident.to_string(),
                            ImplItem::Const(c) => c.ident.to_string(),
                            ImplItem::Type(t) => t.ident.to_string(),
                            _ => "other".into(),
                        };
                        let k = self.key(format!("{prefix}{ty}::{n}"));
                        let bad = self.bad(x);
                        let gone = self.judge(x.span(), "method", &k, bad);
                        if !gone {
                            match x {
                                ImplItem::Fn(f) => self.vis(&f.vis, f.sig.span()),
                                ImplItem::Const(c) => self.vis(&c.vis, c.const_token.span()),
                                _ => {}
                            }
                        }
                        let set = if gone { &mut *self.gone } else { &mut *self.kept };
                        Defs(set).visit_impl_item(x);
                    }
                }
                _ => {
                    let (kind, id) = match item {
                        Item::Fn(x) => ("fn", x.sig.ident.to_string()),
                        Item::Struct(x) => ("struct", x.ident.to_string()),
                        Item::Enum(x) => ("enum", x.ident.to_string()),
                        Item::Union(x) => ("struct", x.ident.to_string()),
                        Item::Trait(x) => ("trait", x.ident.to_string()),
                        Item::Type(x) => ("type", x.ident.to_string()),
                        Item::Const(x) => ("const", x.ident.to_string()),
                        Item::Static(x) => ("static", x.ident.to_string()),
                        Item::Macro(x) => (
                            "macro",
                            x.ident.as_ref().map_or_else(|| compact(&x.mac.path), |i| i.to_string()),
                        ),
                        _ => ("other", "item".to_string()),
                    };
                    let key = self.key(format!("{prefix}{kind}:{id}"));
                    let bad = self.bad(item);
                    let gone = self.judge(item.span(), kind, &key, bad);
                    if !gone { self.publish(item); }
                    let set = if gone { &mut *self.gone } else { &mut *self.kept };
                    Defs(set).visit_item(item);
                }
            }
        }
    }
    fn leaf(&mut self, span: Span, prefix: &str, full: String) -> bool {
        let key = format!("{prefix}{full}");
        let gone = full.split("::").any(|p| self.conf.names.contains(p))
            || full.split("::").next().is_some_and(|p| self.conf.crates.contains(p))
            || self.conf.leaves.contains(&(self.file.clone(), key.clone()));
        self.note(span, "leaf", &key, gone);
        gone
    }
    /// True if nothing of the import is left.
    fn tree(&mut self, prefix: &str, t: &UseTree, path: &str) -> bool {
        match t {
            UseTree::Path(p) => self.tree(prefix, &p.tree, &format!("{path}{}::", p.ident)),
            UseTree::Name(n) => self.leaf(t.span(), prefix, format!("{path}{}", n.ident)),
            UseTree::Rename(n) => self.leaf(t.span(), prefix, format!("{path}{}", n.ident)),
            UseTree::Glob(_) => self.leaf(t.span(), prefix, format!("{path}*")),
            UseTree::Group(g) => {
                let mut all = true;
                let mut cuts = vec![];
                for pair in g.items.pairs() {
                    let gone = self.tree(prefix, pair.value(), path);
                    all &= gone;
                    if gone {
                        let (a, mut b) = self.range(pair.value().span());
                        if let Some(c) = pair.punct() {
                            b = self.range(c.span()).1;
                        }
                        cuts.push((a, b));
                    }
                }
                self.blanks.extend(cuts);
                all && !g.items.is_empty()
            }
        }
    }
}

fn put(path: &Path, data: &[u8]) {
    if fs::read(path).is_ok_and(|old| old == data) {
        return;
    }
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, data).unwrap();
}

fn walk(dir: &Path, rel: &str, conf: &Conf, files: &mut Vec<(PathBuf, String)>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        let r = if rel.is_empty() { n.clone() } else { format!("{rel}/{n}") };
        if conf.skip.contains(&r) || n == "node_modules" {
            continue;
        }
        if e.path().is_dir() {
            walk(&e.path(), &r, conf, files);
        } else {
            files.push((e.path(), r));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, out) = (Path::new(&a[1]), Path::new(&a[2]));
    let mut conf = Conf::default();
    for l in fs::read_to_string(&a[3]).unwrap().lines() {
        let mut w = l.splitn(3, ' ');
        match (w.next(), w.next(), w.next()) {
            (Some("skip"), Some(x), _) => conf.skip.push(x.into()),
            (Some("keep"), Some(x), _) => conf.keep.push(x.into()),
            (Some("name"), Some(x), _) => {
                conf.names.insert(x.into());
            }
            (Some("crate"), Some(x), _) => {
                conf.crates.insert(x.into());
            }
            (Some("drop"), Some(f), Some(k)) => {
                conf.drops.insert((f.into(), k.into()));
            }
            (Some("leaf"), Some(f), Some(k)) => {
                conf.leaves.insert((f.into(), k.into()));
            }
            _ => {}
        }
    }
    let mut files = vec![];
    for top in ["src", "proto", "cli", "validators.toml", "config"] {
        let p = repo.join(top);
        if p.is_dir() {
            walk(&p, top, &conf, &mut files);
        } else if p.exists() {
            files.push((p, top.into()));
        }
    }
    let words: HashSet<String> = fs::read_to_string(&a[4]).unwrap().lines().map(String::from).collect();
    let (mut failed, mut made, mut sources) = (false, BTreeSet::new(), vec![]);
    for (path, rel) in &files {
        if rel.ends_with("Cargo.toml") {
            continue;
        }
        made.insert(rel.clone());
        let data = fs::read(path).unwrap();
        if !rel.ends_with(".rs") {
            put(&out.join(rel), &data);
            continue;
        }
        let Ok(text) = String::from_utf8(data) else {
            eprintln!("error: not UTF-8\n --> {rel}");
            failed = true;
            continue;
        };
        match syn::parse_file(&text) {
            Ok(ast) => sources.push((rel, text, ast)),
            Err(e) => {
                let s = e.span().start();
                eprintln!("error: {e}\n --> {rel}:{}:{}", s.line, s.column + 1);
                failed = true;
            }
        }
    }
    // what is skipped has to parse all the same
    for r in conf.skip.iter().filter(|r| r.starts_with("src/") || r.starts_with("tests/")) {
        let (p, mut skipped) = (repo.join(r), vec![]);
        if p.is_dir() {
            walk(&p, r, &Conf::default(), &mut skipped);
        } else if p.exists() {
            skipped.push((p, r.clone()));
        }
        for (p, r) in skipped.into_iter().filter(|(_, r)| r.ends_with(".rs")) {
            if let Err(e) = syn::parse_file(&fs::read_to_string(p).unwrap_or_default()) {
                let s = e.span().start();
                eprintln!("error: {e}\n --> {r}:{}:{}", s.line, s.column + 1);
                failed = true;
            }
        }
    }
    if failed {
        std::process::exit(1);
    }
    let mut map;
    loop {
        map = String::new();
        let (mut kept, mut gone, mut texts) = (HashSet::new(), HashSet::new(), vec![]);
        for (rel, text, ast) in &sources {
            let lines = std::iter::once(0)
                .chain(text.match_indices('\n').map(|(i, _)| i + 1))
                .collect();
            let mut cut = Cut {
                conf: &conf, file: rel.to_string(), text, lines,
                blanks: vec![], edits: vec![], map: String::new(), seen: HashMap::new(),
                kept: &mut kept, gone: &mut gone,
            };
            cut.items("", &ast.items);
            map.push_str(&cut.map);
            let mut bytes = text.clone().into_bytes();
            for (s, e) in cut.blanks {
                for b in &mut bytes[s..e] {
                    if *b != b'\n' {
                        *b = b' ';
                    }
                }
            }
            let mut edits = cut.edits;
            edits.sort();
            for (s, e, t) in edits.into_iter().rev() {
                bytes.splice(s..e, t.bytes());
            }
            texts.push((rel, bytes));
        }
        let before = conf.names.len();
        conf.names.extend(gone.into_iter().filter(|n| !kept.contains(n) && !words.contains(n)));
        if conf.names.len() == before {
            for (rel, bytes) in texts {
                put(&out.join(rel), &bytes);
            }
            break;
        }
    }
    // files that REPO no longer has
    let none = Conf::default();
    let mut old = vec![];
    for top in ["src", "proto", "cli", "config"] {
        walk(&out.join(top), top, &none, &mut old);
    }
    for (p, r) in old {
        if !made.contains(&r) && !conf.keep.contains(&r) && !r.ends_with("Cargo.toml") {
            fs::remove_file(p).unwrap();
        }
    }
    put(&out.join(".map"), map.as_bytes());
}
