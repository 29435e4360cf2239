//! Reference serializer.
use crate::model::*;
use rphtml::config::RenderOptions;
#[derive(Clone, Copy, Default)]
pub struct ROpts {
    pub minify: bool,
    pub lower: bool,
    pub end_space: bool,
    pub unquote: bool,
    pub no_comment: bool,
    pub close_void: bool,
    pub decode: bool,
    pub encode: bool,
}
pub const R_MINIFY: u32 = 1;
pub const R_LOWER: u32 = 2;
pub const R_ENDSPACE: u32 = 4;
pub const R_UNQUOTE: u32 = 8;
pub const R_NOCOMMENT: u32 = 16;
pub const R_CLOSEVOID: u32 = 32;
pub const R_DECODE: u32 = 64;
pub const R_ENCODE: u32 = 128;
impl ROpts {
    pub fn from_bits(b: u32) -> ROpts {
        ROpts {
            minify: b & R_MINIFY != 0,
            lower: b & R_LOWER != 0,
            end_space: b & R_ENDSPACE != 0,
            unquote: b & R_UNQUOTE != 0,
            no_comment: b & R_NOCOMMENT != 0,
            close_void: b & R_CLOSEVOID != 0,
            decode: b & R_DECODE != 0,
            encode: b & R_ENCODE != 0,
        }
    }
    pub fn real(&self, inner_html: bool) -> RenderOptions {
        RenderOptions {
            minify_spaces: self.minify,
            lowercase_tagname: self.lower,
            remove_endtag_space: self.end_space,
            remove_attr_quote: self.unquote,
            remove_comment: self.no_comment,
            always_close_void: self.close_void,
            inner_html,
            decode_entity: self.decode,
            encode_content: self.encode,
        }
    }
}
fn lit(out: &mut Vec<char>, t: &str) {
    for c in t.chars() {
        out.push(c);
    }
}
/// must this value stay quoted
pub fn needs_quote(v: &[char]) -> bool {
    if v.is_empty() {
        return true;
    }
    for &c in v {
        if ws(c) || c == '"' || c == '\'' || c == '<' || c == '>' || c == '=' || c == '`' {
            return true;
        }
    }
    false
}
pub fn attr(key: Option<&[char]>, value: Option<&[char]>, quote: Option<char>, keep: bool, unquote: bool, out: &mut Vec<char>) {
    if let Some(k) = key {
        out.extend_from_slice(k);
    }
    if let Some(v) = value {
        if key.is_some() {
            out.push('=');
        }
        match quote {
            Some(q) if !unquote || keep || needs_quote(v) => {
                out.push(q);
                out.extend_from_slice(v);
                out.push(q);
            }
            _ => out.extend_from_slice(v),
        }
    }
}
pub fn attr_list(n: &MNode, unquote: bool, out: &mut Vec<char>) {
    for a in &n.attrs {
        out.push(' ');
        attr(a.key.as_deref(), a.value.as_deref(), a.quote, false, unquote, out);
    }
}
fn name(v: &[char], low: bool, out: &mut Vec<char>) {
    for &c in v {
        out.push(if low { lower(c) } else { c });
    }
}
pub fn start_tag(n: &MNode, o: &ROpts, out: &mut Vec<char>) {
    out.push('<');
    name(&n.name, o.lower, out);
    attr_list(n, o.unquote, out);
    if n.self_closed || (n.void && o.close_void) {
        lit(out, " /");
    }
    out.push('>');
}
pub fn doctype(n: &MNode, o: &ROpts, out: &mut Vec<char>) {
    lit(out, "<!");
    out.extend_from_slice(&n.name);
    if n.attrs.is_empty() {
        out.push(' ');
    }
    attr_list(n, o.unquote, out);
    out.push('>');
}
pub fn encode(v: &[char], out: &mut Vec<char>) {
    for &c in v {
        match c {
            '<' => lit(out, "&lt;"),
            '>' => lit(out, "&gt;"),
            '&' => lit(out, "&amp;"),
            _ => out.push(c),
        }
    }
}
/// a run of whitespace becomes its first character
pub fn collapse(v: &[char]) -> Vec<char> {
    let mut r = Vec::new();
    for i in 0..v.len() {
        if !(ws(v[i]) && i > 0 && ws(v[i - 1])) {
            r.push(v[i]);
        }
    }
    r
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Outer,
    Text,
}
fn body(m: &Model, id: usize, o: &ROpts, mode: Mode, pre: bool, out: &mut Vec<char>) {
    let n = &m.nodes[id];
    let pre = pre || (n.kind == TAG && is_word(&n.name, b"pre"));
    if n.kind == TAG {
        if let Some(c) = &n.content {
            if o.encode && is_rcdata(&n.name) {
                encode(c, out);
            } else {
                out.extend_from_slice(c);
            }
        }
    }
    for &c in &n.childs {
        ser(m, c, o, mode, pre, out);
    }
}
pub fn ser(m: &Model, id: usize, o: &ROpts, mode: Mode, pre: bool, out: &mut Vec<char>) {
    let n = &m.nodes[id];
    match n.kind {
        ROOT => body(m, id, o, mode, pre, out),
        DOCTYPE => doctype(n, o, out),
        COMMENT => {
            if !o.no_comment && mode == Mode::Outer {
                lit(out, "<!--");
                out.extend_from_slice(n.content.as_ref().unwrap());
                lit(out, "-->");
            }
        }
        CDATA => {
            lit(out, "<![CDATA[");
            out.extend_from_slice(n.content.as_ref().unwrap());
            lit(out, "]]>");
        }
        TEXT => {
            let c = n.content.as_ref().unwrap();
            let c = if o.minify && !pre { collapse(c) } else { c.clone() };
            if o.decode {
                rphtml::entity::decode_chars_to(&c, out);
            } else {
                out.extend_from_slice(&c);
            }
        }
        SPACES => {
            if pre || !o.minify {
                out.extend_from_slice(n.content.as_ref().unwrap());
            }
        }
        TAG => {
            if mode == Mode::Outer {
                start_tag(n, o, out);
            }
            body(m, id, o, mode, pre, out);
            if mode == Mode::Outer {
                if let Some(e) = n.end_tag {
                    let e = &m.nodes[e];
                    lit(out, "</");
                    name(if o.end_space { trim_end(&e.name) } else { &e.name }, o.lower, out);
                    out.push('>');
                }
            }
        }
        _ => {}
    }
}
pub fn render(m: &Model, o: &ROpts) -> Vec<char> {
    let mut out = Vec::new();
    ser(m, 0, o, Mode::Outer, false, &mut out);
    out
}
/// what is inside the element `id`: its markup, or its text
pub fn inner(m: &Model, id: usize, o: &ROpts, mode: Mode) -> Vec<char> {
    let mut out = Vec::new();
    body(m, id, o, mode, false, &mut out);
    out
}
