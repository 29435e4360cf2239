//! Comparison of the real tree with the reference tree, facet by facet.
use crate::model::*;
use crate::sym::check;
use rphtml::error::{ErrorKind, ParseError};
use rphtml::parser::*;
use rphtml::types::{BoxDynError, GenResult};
use std::rc::Rc;

/// node kinds, nesting, number of children; text and whitespace text are the same kind here
pub const F_SHAPE: u32 = 1;
/// tag names and the names of end tags
pub const F_NAME: u32 = 2;
/// attributes: keys, values, quotes
pub const F_ATTR: u32 = 4;
/// content of text, comments, CDATA
pub const F_TEXT: u32 = 8;
/// content of raw text elements
pub const F_RAW: u32 = 16;
/// is_void, self_closed
pub const F_FLAG: u32 = 32;
/// auto_fix
pub const F_FIX: u32 = 64;
/// text against whitespace between tags
pub const F_BLANK: u32 = 128;
/// index, parent, root, end_tag.parent
pub const F_LINK: u32 = 256;
/// begin_at and end_at
pub const F_SPAN: u32 = 512;
/// lc_name_map
pub const F_MAP: u32 = 1024;
pub const F_MEANING: u32 = F_SHAPE | F_NAME | F_ATTR | F_TEXT | F_RAW | F_FLAG;

pub fn same(real: &[char], model: &[char], code: u32) {
    check(real.len() == model.len(), code);
    if real.len() == model.len() {
        for i in 0..real.len() {
            check(real[i] == model[i], code);
        }
    }
}
pub fn same_str(real: &str, model: &[char], code: u32) {
    let r: Vec<char> = real.chars().collect();
    same(&r, model, code)
}
fn same_opt(real: Option<&Vec<char>>, model: Option<&Vec<char>>, code: u32) {
    match (real, model) {
        (Some(a), Some(b)) => same(a, b, code),
        (None, None) => {}
        _ => check(false, code),
    }
}
fn lower_string(v: &[char]) -> String {
    let mut s = String::new();
    for &c in v {
        s.push(lower(c));
    }
    s
}

pub fn kind_of(t: NodeType) -> u8 {
    match t {
        NodeType::AbstractRoot => ROOT,
        NodeType::HTMLDOCTYPE => DOCTYPE,
        NodeType::Comment => COMMENT,
        NodeType::Text => TEXT,
        NodeType::SpacesBetweenTag => SPACES,
        NodeType::Tag => TAG,
        NodeType::TagEnd => END,
        NodeType::XMLCDATA => CDATA,
    }
}

pub fn attrs(meta: &TagMeta, m: &MNode, f: u32) {
    if f & F_ATTR != 0 {
        check(meta.attrs.len() == m.attrs.len(), 20);
        if meta.attrs.len() == m.attrs.len() {
            for (a, b) in meta.attrs.iter().zip(m.attrs.iter()) {
                same_opt(a.key.as_ref().map(|k| &k.content), b.key.as_ref(), 21);
                same_opt(a.value.as_ref().map(|k| &k.content), b.value.as_ref(), 22);
                check(a.quote == b.quote, 23);
                check(!a.need_quote, 24);
            }
        }
    }
    if f & F_MAP != 0 {
        // every key leads to its first occurrence, and there is nothing else
        let mut distinct = 0;
        for (i, a) in m.attrs.iter().enumerate() {
            if let Some(k) = &a.key {
                let mut first = i;
                for (j, b) in m.attrs.iter().enumerate().take(i) {
                    if let Some(k2) = &b.key {
                        if eq_nocase(k, k2) {
                            first = j;
                            break;
                        }
                    }
                }
                if first == i {
                    distinct += 1;
                }
                check(meta.lc_name_map.get(&lower_string(k)) == Some(&first), 25);
            }
        }
        check(meta.lc_name_map.len() == distinct, 26);
    }
}

pub fn node(r: &RefNode, m: &Model, id: usize, f: u32, root: &RefNode) {
    let n = r.borrow();
    let e = &m.nodes[id];
    let kind = kind_of(n.node_type);
    if f & F_SHAPE != 0 {
        let k = if kind == SPACES { TEXT } else { kind };
        let ek = if e.kind == SPACES { TEXT } else { e.kind };
        check(k == ek, 10);
    }
    if f & F_BLANK != 0 {
        check(kind == e.kind, 11);
    }
    if kind == TAG || kind == DOCTYPE {
        match &n.meta {
            Some(meta) => {
                let meta = meta.borrow();
                if f & F_NAME != 0 {
                    same(&meta.name, &e.name, 12);
                }
                attrs(&meta, e, f);
                if f & F_FLAG != 0 {
                    check(meta.is_void == e.void, 13);
                    check(meta.self_closed == e.self_closed, 14);
                }
                if f & F_FIX != 0 {
                    check(meta.auto_fix == e.auto_fix, 15);
                }
            }
            None => check(f & F_SHAPE == 0, 16),
        }
    }
    if kind == TAG {
        if f & F_RAW != 0 {
            same_opt(n.content.as_ref(), e.content.as_ref(), 17);
        }
        match (&n.end_tag, e.end_tag) {
            (Some(t), Some(et)) => {
                let t = t.borrow();
                let et = &m.nodes[et];
                if f & F_SHAPE != 0 {
                    check(t.node_type == NodeType::TagEnd, 30);
                    check(t.childs.is_none(), 31);
                }
                if f & F_NAME != 0 {
                    match &t.content {
                        Some(c) => same(c, &et.name, 32),
                        None => check(false, 32),
                    }
                }
                if f & F_LINK != 0 {
                    check(is_parent(&t, r), 33);
                }
                if f & F_SPAN != 0 {
                    check(t.begin_at == et.begin, 34);
                    check(t.end_at == et.end, 35);
                }
            }
            (None, None) => {}
            _ => check(f & F_SHAPE == 0, 36),
        }
    }
    if kind == TEXT || kind == SPACES || kind == COMMENT || kind == CDATA {
        if f & F_TEXT != 0 {
            same_opt(n.content.as_ref(), e.content.as_ref(), 18);
        }
    }
    if f & F_SPAN != 0 {
        check(n.begin_at == e.begin, 40);
        if kind != TAG && kind != DOCTYPE {
            check(n.end_at == e.end, 41);
        }
    }
    if f & F_LINK != 0 {
        match &n.root {
            Some(w) => check(w.upgrade().map_or(false, |x| Rc::ptr_eq(&x, root)), 42),
            None => check(false, 42),
        }
    }
    let count = n.childs.as_ref().map_or(0, |c| c.len());
    if f & F_SHAPE != 0 {
        check(count == e.childs.len(), 19);
    }
    if let Some(childs) = &n.childs {
        for (i, c) in childs.iter().enumerate() {
            if f & F_LINK != 0 {
                let cn = c.borrow();
                check(cn.index == i, 43);
                check(is_parent(&cn, r), 44);
            }
            if i < e.childs.len() {
                node(c, m, e.childs[i], f, root);
            }
        }
    }
}
fn is_parent(n: &Node, p: &RefNode) -> bool {
    match &n.parent {
        Some(w) => w.upgrade().map_or(false, |x| Rc::ptr_eq(&x, p)),
        None => false,
    }
}
pub fn tree(d: &DocHolder, m: &Model, f: u32) {
    let root = d.get_root_node();
    node(&root, m, 0, f, &root);
}

pub fn error_kind(e: &BoxDynError) -> Option<(&ParseError, u8, Option<Vec<char>>)> {
    let p = e.downcast_ref::<ParseError>()?;
    fn v(s: &str) -> Option<Vec<char>> {
        Some(s.chars().collect())
    }
    let (k, w) = match &p.kind {
        ErrorKind::WrongTag(s) => (K_WRONG_TAG, v(s)),
        ErrorKind::WrongEndTag(s) => (K_WRONG_END, v(s)),
        ErrorKind::UnclosedTag(s) => (K_UNCLOSED, v(s)),
        ErrorKind::WrongHtmlDoctype(c) => (K_DOCTYPE, Some(vec![*c])),
        ErrorKind::UnrecognizedTag(a, _) => (K_UNRECOGNIZED, v(a)),
        ErrorKind::WrongCaseSensitive(s) => (K_CASE, v(s)),
        ErrorKind::WrongSelfClosing(s) => (K_SELF_CLOSING, v(s)),
        ErrorKind::CommonError(s) => (K_COMMON, v(s)),
        _ => (0, None),
    };
    Some((p, k, w))
}
fn dec(v: usize, out: &mut Vec<char>) {
    let mut d = Vec::new();
    let mut v = v;
    loop {
        d.push((b'0' + (v % 10) as u8) as char);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    out.extend_from_slice(&d);
}
/// what the region of an error at character `index` looks like: a line ends with LF, CR or CR LF;
/// the column counts the characters of the line up to and including the one at `index`
pub fn region(s: &[char], index: usize) -> Vec<char> {
    let mut line = 1;
    let mut col = 0;
    let mut i = 0;
    while i < s.len() && i <= index {
        if s[i] == '\r' || (s[i] == '\n' && !(i > 0 && s[i - 1] == '\r')) {
            line += 1;
            col = 0;
        } else if s[i] != '\n' {
            col += 1;
        }
        i += 1;
    }
    let mut out: Vec<char> = "[line:".chars().collect();
    dec(line, &mut out);
    out.extend(",col:".chars());
    dec(col, &mut out);
    out.extend(",index:".chars());
    dec(index, &mut out);
    out.push(']');
    out
}
pub fn error(s: &[char], e: &BoxDynError, m: &MErr) {
    match error_kind(e) {
        Some((p, k, w)) => {
            check(k == m.kind, 50);
            if let Some(x) = &m.what {
                match &w {
                    Some(y) => same(y, x, 51),
                    None => check(false, 51),
                }
            }
            same_str(&p.region.to_string(), &region(s, m.index), 52);
        }
        None => check(false, 53),
    }
}

/// real and model agree on acceptance; returns both when accepted
pub fn both(real: GenResult<DocHolder>, model: Result<Model, MErr>, code: u32) -> Option<(DocHolder, Model)> {
    match (real, model) {
        (Ok(d), Ok(m)) => Some((d, m)),
        (Err(_), Err(_)) => None,
        _ => {
            check(false, code);
            None
        }
    }
}
