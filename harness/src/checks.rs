//! The checks: one group of entry points per property.
use crate::cmp::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::ser::{self, *};
use crate::sym::*;
use rphtml::config::*;
use rphtml::parser::*;
use rphtml::util::*;
use std::rc::Rc;

const OPT_VAR: u32 = 120;
const ROPT_VAR: u32 = 121;
pub const O_CASE: u32 = 1;
pub const O_EQ: u32 = 2;
pub const O_SELF: u32 = 4;
pub const O_UNCLOSED: u32 = 8;
pub const O_UNEXPECTED: u32 = 16;
pub const O_LT: u32 = 32;
/// the parse options in `mask` are symbolic, the others off
pub fn opts_of(mask: u32) -> Opts {
    Opts::from_bits(word(OPT_VAR, 0, 63) & mask)
}
pub fn any_opts() -> Opts {
    Opts::from_bits(word(OPT_VAR, 0, 63))
}
/// every repair and permission on: most documents are accepted
pub fn relaxed() -> Opts {
    Opts::from_bits(O_EQ | O_SELF | O_UNCLOSED | O_UNEXPECTED | O_LT)
}
/// the render options in `mask` are symbolic, the others off
pub fn ropts_of(mask: u32) -> ROpts {
    ROpts::from_bits(word(ROPT_VAR, 0, 255) & mask)
}
/// no render option, one of them, or all
fn ropts_few() -> ROpts {
    match fork(word(ROPT_VAR, 0, 9)) {
        0 => ROpts::default(),
        9 => ROpts::from_bits(0xff),
        i => ROpts::from_bits(1 << (i - 1)),
    }
}
fn plain() -> RenderOptions {
    RenderOptions::default()
}

/// documents that reach every part of the grammar; the holes are symbolic
pub const DOCS: &[&str] = &[
    // start tags and attributes
    "<a?????", "<$$$>??", "<a ?????>", "<a b=????>x</a>", "<a b='?' c=\"??\" ??>", "<a b???c>x</a>",
    "<a b = ????></a>", "<a/????", "<br?????", "<img ?=???/>?", "<a @=@>@</a>",
    // end tags
    "</?????", "<a>????</a>", "<a></??>??", "<a><b>???</b???", "<aB>?</??>?", "<a>?<b>?</??></??>",
    "<p>??<b>?</b>??</p>", "<@></@>",
    // comments and doctype
    "<!?????", "<!--?????", "<!--???--??", "<!---??->??", "?<!--?-->?<b>?</b>", "<!DOCTYPE???",
    "<!doctype ????>?", "<!DOCTYPE html '?' \"?\"??>?", "<!D?CTY?E h>", "<a><!--?--></a>??",
    // raw text
    "<script>????</script>", "<style>??</style??", "<title>???</title>??", "<textarea></???area>???</textarea>",
    "<script></script??>?</script>", "<sCript>?</s?ript ?", "<title>??", "<style ?=?></style>?", "<script/?>?",
    // svg and math
    "<svg>????</svg>?", "<svg><a><![CDATA[????", "<svg><a><![CDATA[???]]>??</a></svg>", "<math><?/><b?></b></math>?/>",
    "<svg><svg></svg>????", "<svg></???><a/>", "<svg><a><!?C????", "<sVg/>??", "<svg><title>??</title>?</svg>",
    "<svg><math></math><a/??", "<m$$$>?<a/></m$$$>?<b/>",
    // text
    "?@?", "<a>@</a>@", "?<????", "<b>?</b>??<i>?</i>", "<p>?^</p>^?", "^^<a>^</a>^?", "?\r\n?<?>",
    "<pre>??</pre>??", "<br>?<br/>?</br??",
    // the shapes of ordinary pages
    "@@<b>@</b>", "<$><$>?</$></$>", "<$$$$$><b>^?</b>?", "<a $$$$$=' ? '>?</a>", "<a $$='?' $$=?>x</a>",
    "<!--[if ?]>?<![endif]-->?", "<!--!?--><!--#?-->", "<!DOCTYPE html PUBLIC \"-//W3C//?\" \"http://?\">?",
    "<script type='text/html'><b>?</b></script>?", "<input type=checkbox checked disabled='?' value=?>",
    "<a href=http://x/?y=? class=\"? ?\">?</a>", "<ul><li>?<li>?</ul>", "<table><tr><td>?</td></tr>?</table>", "<p>?<p>?</p></p>",
    "<html><head>?</head><body>?</body></html>?", "<textarea>?^^?</textarea>^?", "<style>a>b{?}</style>?",
    "<div><pre>^?</pre>^^<code>^^?</code></div>", "&nbsp;?&#?;&am?", "<x-$:?.?>?</x-$:?.?>", "<a onclick=\"?<b>?\">?</a>",
    // names of any length (\u{1}: the last name again)
    "<$$$$>^?</\u{1}>?", "<$$$$$$>^?</\u{1}>?", "<$$$$$$$>?^</\u{1}>", "<$$$$$$$$>?</\u{1}>^", "<$$$$$$$$$$>?</\u{1}>", "<a $$$='?' $$$$$$=?>x</a>", "<a $$$$$$$='?'>?</a>", "<a $$$$$$$$>?</a>",
    "<$$$$$$/>?", "<$$$$$$$ $$$$=?>?", "<p>?<$$$$>?</\u{1}>?</p>", "<$-$$$>?", "<a $$-$$$='?'>x</a>", "<!--$$$$$$-->?", "<script $$$='$$$$'>?</script>", "<!DOCTYPE $$$$ $$$$$$ '?'>",
    // long runs of characters without a meaning
    "~~~~~~~~~~~~~~~~?", "<$~~~~~~~~~~~~~~~>?", "<a ~~~~~~~~~~~~~~~~>?</a>", "<a ~~~~~~~~=~~~~~~~~~~~~>?</a>", "<a ~~~~='~~~~~~~~~~~~' ~~=\"~~~~~~~~~~~~\">?</a>", "<!--~~~~~~~~~~~~~~~~-->?",
    "<!--~~~~~~~~?~~~~~~~~-->?", "<script>~~~~~~~~~~~~~~~~</script>?", "<title>~~~~~~~~~~~~~~~~</title>?", "<style ~~~~~~>~~~~~~~~^~~~~~~~~</style>?", "<svg><a><![CDATA[~~~~~~~~~~~~~~~~]]>?</a></svg>",
    "<!DOCTYPE ~~~~~~~~ ~~~~~~~~ '~~~~~~~~'>?", "<p>~~~~~~~~^^~~~~~~~~</p>~~~~", "<a id=~~~~~~~~~~~~>?</a>", "<pre>~~~~~~~~^^~~~~~~~~</pre>^^?", "<p>~~~~&~~~~;~~~~</p>", "<a>~~~~<b>~~~~</b>~~~~</a>~~~~",
    "<title></title>?", "<textarea></textarea>?", "<script></script>?", "<style></style>?", "<pre></pre>?", "<!---->?", "<svg><a><![CDATA[]]></a>?</svg>", "<a b='' c=\"\">?", "<pre><a></a^>?</pre>", "<pre><title>&?</title ></pre>",
    "<textarea>~~~~~~~~</~~~~~~~~></textarea>?", "<a@>x</a@>", "<@a>x</@a>?",
];
fn template(list: &[&str], i: u32) -> Doc1 {
    let mut d = Doc1::new();
    d.tmpl(list[i as usize]);
    d
}
fn done(ok: bool, d: &Doc1) {
    cover(if ok { 1 } else { 2 });
    out(ok as u32);
    out(d.v.len() as u32);
}
fn put_out(s: &str) {
    let mut n = 0u32;
    for b in s.bytes() {
        if n < 24 {
            out(b as u32);
        }
        n += 1;
    }
    out(n);
}
/// entry points of a check over documents
macro_rules! over_docs {
    ($f:ident, $full:ident, $tmpl:ident, $own:ident, $toks:ident, $scale:ident, $mix:ident, $list:expr, $kinds:expr) => {
        #[no_mangle]
        pub extern "C" fn $full() {
            $f(&ascii(param()));
        }
        #[no_mangle]
        pub extern "C" fn $tmpl() {
            $f(&template(DOCS, param()));
        }
        #[no_mangle]
        pub extern "C" fn $own() {
            $f(&template($list, param()));
        }
        #[no_mangle]
        pub extern "C" fn $toks() {
            $f(&tokens(param(), $kinds));
        }
        #[no_mangle]
        pub extern "C" fn $scale() {
            $f(&scale(param()));
        }
        #[no_mangle]
        pub extern "C" fn $mix() {
            $f(&mix(param()));
        }
    };
}
const ALL_KINDS: &[u8] = b"tocvs!gGdrpP";

// ---------------------------------------------------------------- P01 parsing is total
fn p01(d: &Doc1) {
    let r = Doc::parse(&d.s, any_opts().real());
    done(r.is_ok(), d);
}
const P01_OWN: &[&str] = &["@@", "<@", "<a @", "<a b=@", "</@", "<!@", "<!--@", "<svg><a><![CDATA[@]]>", "<title>@</title>", "<title>?^^^^^^?>?", "<style>??^^^^^^>?", "<script>?^^^^^^^?>?</script>", "<textarea>@^^^^^^^^^>"];
over_docs!(p01, h_p01_full, h_p01_tmpl, h_p01_own, h_p01_toks, h_p01_scale, h_p01_mix, P01_OWN, b"tocvs!gGdrpPDil");

// ---------------------------------------------------------------- P02 rendering is total
fn p02(d: &Doc1) {
    let o = if word(OPT_VAR, 0, 1) == 1 { relaxed() } else { Opts::default() };
    let r = Doc::parse(&d.s, o.real());
    if let Ok(h) = &r {
        let ro = ropts_of(0xff);
        let t = h.render(&ro.real(false));
        put_out(&t);
        // one top element, or nothing at all: the inner html and text are defined
        let root = h.get_root_node();
        let (mut tags, mut all) = (0, 0);
        if let Some(c) = &root.borrow().childs {
            all = c.len();
            for x in c {
                if x.borrow().node_type == NodeType::Tag {
                    tags += 1;
                }
            }
        }
        if tags == 1 || all == 0 {
            cover(3);
            let i = h.render(&ro.real(true));
            let t = h.render_text(&ro.real(false));
            out(i.len() as u32);
            out(t.len() as u32);
        }
    }
    done(r.is_ok(), d);
}
const P02_OWN: &[&str] = &["&???;", "&#????;", "&#x????;", "<title>&?;??</title>", "@&@;", "<a b='@'>@</a>", "<pre>^?</pre^>^?^^?"];
over_docs!(p02, h_p02_full, h_p02_tmpl, h_p02_own, h_p02_toks, h_p02_scale, h_p02_mix, P02_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P03 nothing is lost
/// the source with its start tags and doctypes written in the normal form
fn normal_form(d: &Doc1, m: &Model) -> Vec<char> {
    let mut o = Vec::new();
    let mut at = 0;
    for n in &m.nodes {
        if n.kind == TAG || n.kind == DOCTYPE {
            o.extend_from_slice(&d.v[at..n.begin]);
            if n.kind == TAG {
                ser::start_tag(n, &ROpts::default(), &mut o);
            } else {
                ser::doctype(n, &ROpts::default(), &mut o);
            }
            at = n.tag_end;
        }
    }
    o.extend_from_slice(&d.v[at..]);
    o
}
fn p03(d: &Doc1) {
    let o = opts_of(O_CASE | O_EQ | O_SELF);
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        let t = h.render(&plain());
        same_str(&t, &normal_form(d, &m), 2);
        put_out(&t);
    }
}
const P03_OWN: &[&str] = &[
    "<a ?='?' ?=\"?\" ?>?</a>", "<a^b^=^?^>?</a^>", "<a b=?/?>?</a>", "<a '?' b></a>", "@<a b=@>x</a>", "<a @='@'>x</a@>",
    "<!DOCTYPE @ '@'>@", "<!--@@-->@", "<style>@@</style>@", "<svg><b><![CDATA[@@]]>@</b></svg>",
];
over_docs!(p03, h_p03_full, h_p03_tmpl, h_p03_own, h_p03_toks, h_p03_scale, h_p03_mix, P03_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P04 rendering is a fixed point
fn p04(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Ok(h) = r {
        // a recorded finding, see h_p04_known
        assume(!eq_key_after_bare(&h.get_root_node()));
        p04_again(&h, o);
    }
}
/// does a key that starts with '=' follow an attribute without value
fn eq_key_after_bare(r: &RefNode) -> bool {
    let n = r.borrow();
    let mut found = false;
    if let Some(meta) = &n.meta {
        let a = &meta.borrow().attrs;
        for i in 1..a.len() {
            let eq = a[i].key.as_ref().map_or(false, |k| !k.content.is_empty() && k.content[0] == '=');
            found |= eq && a[i - 1].value.is_none();
        }
    }
    if let Some(c) = &n.childs {
        for x in c {
            found |= eq_key_after_bare(x);
        }
    }
    found
}
/// the recorded finding: `<a b/=c>`, with keys that start with '=' allowed
#[no_mangle]
pub extern "C" fn h_p04_known() {
    let mut d = Doc1::new();
    d.tmpl("<a b/=$></a>");
    let o = Opts::from_bits(O_EQ);
    cover(1);
    if let Ok(h) = Doc::parse(&d.s, o.real()) {
        p04_again(&h, o);
    }
}
fn p04_again(h: &DocHolder, o: Opts) {
    {
        let t = h.render(&plain());
        match Doc::parse(&t, o.real()) {
            Ok(h2) => {
                let t2 = h2.render(&plain());
                check(t2.len() == t.len(), 2);
                check(t2 == t, 2);
                alike(&h.get_root_node(), &h2.get_root_node());
            }
            Err(_) => check(false, 1),
        }
        put_out(&t);
    }
}
/// the same tree, apart from where text is divided
fn alike(a: &RefNode, b: &RefNode) {
    let (a, b) = (a.borrow(), b.borrow());
    fn joined(v: &[RefNode]) -> Vec<(Option<RefNode>, Vec<char>)> {
        let mut o: Vec<(Option<RefNode>, Vec<char>)> = Vec::new();
        for c in v {
            let n = c.borrow();
            if matches!(n.node_type, NodeType::Text | NodeType::SpacesBetweenTag) {
                let t = n.content.clone().unwrap_or_default();
                match o.last_mut() {
                    Some((None, x)) => x.extend_from_slice(&t),
                    _ => o.push((None, t)),
                }
            } else {
                o.push((Some(c.clone()), Vec::new()));
            }
        }
        o
    }
    let none = Vec::new();
    let x = joined(a.childs.as_ref().unwrap_or(&none));
    let y = joined(b.childs.as_ref().unwrap_or(&none));
    check(x.len() == y.len(), 3);
    if x.len() != y.len() {
        return;
    }
    for (p, q) in x.iter().zip(y.iter()) {
        match (&p.0, &q.0) {
            (None, None) => same(&p.1, &q.1, 4),
            (Some(u), Some(v)) => {
                let (m, n) = (u.borrow(), v.borrow());
                check(m.node_type == n.node_type, 5);
                match (&m.content, &n.content) {
                    (Some(c), Some(e)) => same(c, e, 6),
                    (None, None) => {}
                    _ => check(false, 6),
                }
                if let (Some(c), Some(e)) = (&m.meta, &n.meta) {
                    let (c, e) = (c.borrow(), e.borrow());
                    same(&c.name, &e.name, 7);
                    check(c.self_closed == e.self_closed || m.node_type == NodeType::HTMLDOCTYPE, 8);
                    check(c.is_void == e.is_void, 8);
                    check(c.attrs.len() == e.attrs.len(), 9);
                    for (f, g) in c.attrs.iter().zip(e.attrs.iter()) {
                        same_attr(f, g, 9);
                    }
                }
                drop((m, n));
                alike(u, v);
            }
            _ => check(false, 3),
        }
    }
}
fn same_attr(f: &Attr, g: &Attr, code: u32) {
    check(f.quote == g.quote, code);
    check(f.key.is_some() == g.key.is_some(), code);
    check(f.value.is_some() == g.value.is_some(), code);
    if let (Some(k), Some(l)) = (&f.key, &g.key) {
        same(&k.content, &l.content, code);
    }
    if let (Some(k), Some(l)) = (&f.value, &g.value) {
        same(&k.content, &l.content, code);
    }
}
over_docs!(p04, h_p04_full, h_p04_tmpl, h_p04_own, h_p04_toks, h_p04_scale, h_p04_mix, P03_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P05 the links of the tree
fn p05(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Ok(h) = r {
        let root = h.get_root_node();
        {
            let n = root.borrow();
            check(n.node_type == NodeType::AbstractRoot, 1);
            check(n.parent.is_none(), 2);
            match &n.document {
                Some(w) => check(w.upgrade().map_or(false, |x| Rc::ptr_eq(&x.borrow().root, &root)), 3),
                None => check(false, 3),
            }
            check(Node::is_same(&root, &h.get_root_node()), 4);
        }
        links(&root, &root);
        // the tree is freed with its document: no strong cycles
        let w = Rc::downgrade(&root);
        let first = root.borrow().childs.as_ref().and_then(|c| c.last().map(Rc::downgrade));
        drop(root);
        drop(h);
        check(w.upgrade().is_none(), 5);
        if let Some(f) = first {
            check(f.upgrade().is_none(), 5);
        }
    }
}
fn points_to(w: &Option<std::rc::Weak<std::cell::RefCell<Node>>>, p: &RefNode) -> bool {
    match w {
        Some(w) => w.upgrade().map_or(false, |x| Rc::ptr_eq(&x, p)),
        None => false,
    }
}
fn links(r: &RefNode, root: &RefNode) {
    let n = r.borrow();
    check(points_to(&n.root, root), 10);
    let count = n.childs.as_ref().map_or(0, |c| c.len());
    match n.node_type {
        NodeType::Tag => match &n.meta {
            Some(meta) => {
                let meta = meta.borrow();
                let leaf = model::is_void(&meta.name) || meta.self_closed;
                check(!leaf || (count == 0 && n.end_tag.is_none() && n.content.is_none()), 11);
                check(leaf || n.end_tag.is_some(), 12);
                let raw = !leaf && model::is_raw(&meta.name);
                check(!raw || count == 0, 13);
                check(raw == n.content.is_some(), 14);
                if let Some(e) = &n.end_tag {
                    let e = e.borrow();
                    check(e.node_type == NodeType::TagEnd, 15);
                    check(points_to(&e.parent, r), 16);
                    check(e.childs.is_none() && e.end_tag.is_none(), 17);
                    match &e.content {
                        Some(c) => check(model::eq_nocase(model::trim_end(c), &meta.name), 18),
                        None => check(false, 18),
                    }
                }
            }
            None => check(false, 19),
        },
        NodeType::AbstractRoot => check(n.end_tag.is_none(), 20),
        NodeType::HTMLDOCTYPE => check(count == 0 && n.end_tag.is_none() && n.meta.is_some(), 21),
        NodeType::TagEnd => check(false, 22),
        _ => check(count == 0 && n.end_tag.is_none() && n.content.is_some(), 23),
    }
    if let Some(childs) = &n.childs {
        for (i, c) in childs.iter().enumerate() {
            {
                let c = c.borrow();
                check(c.index == i, 30);
                check(points_to(&c.parent, r), 31);
                check(c.node_type != NodeType::AbstractRoot, 32);
            }
            links(c, root);
        }
    }
}
const P05_OWN: &[&str] = &["<a><b/><i>?</i></a>", "</x><a></y>?</a>?", "<a><5?<6", "<br><script/>?<c>", "<p>?</a>?</b>?"];
over_docs!(p05, h_p05_full, h_p05_tmpl, h_p05_own, h_p05_toks, h_p05_scale, h_p05_mix, P05_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P06 source positions
fn p06(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        tree(&h, &m, F_SPAN);
        if !o.lt && !o.unexpected {
            spans(&h.get_root_node(), d);
        }
    }
}
/// what the positions say about the source, with no reference to the model
fn spans(r: &RefNode, d: &Doc1) {
    let n = r.borrow();
    let (b, e) = (n.begin_at, n.end_at);
    check(b <= e && e <= d.v.len(), 1);
    if b > e || e > d.v.len() {
        return;
    }
    let quoted = |open: &str, close: &str, code: u32| {
        if let Some(c) = &n.content {
            let mut x: Vec<char> = open.chars().collect();
            x.extend_from_slice(c);
            x.extend(close.chars());
            if open.len() == 9 {
                // any case of CDATA
                check(model::eq_nocase(&x, &d.v[b..e]), code);
            } else {
                same(&d.v[b..e], &x, code);
            }
        } else {
            check(false, code);
        }
    };
    match n.node_type {
        NodeType::Text | NodeType::SpacesBetweenTag => quoted("", "", 2),
        NodeType::Comment => quoted("<!--", "-->", 3),
        NodeType::XMLCDATA => quoted("<![CDATA[", "]]>", 4),
        NodeType::AbstractRoot => check(b == 0 && e == d.v.len(), 5),
        NodeType::Tag => {
            check(b < d.v.len() && d.v[b] == '<', 6);
            if let Some(meta) = &n.meta {
                let name = &meta.borrow().name;
                check(b + 1 + name.len() <= d.v.len(), 7);
                if b + 1 + name.len() <= d.v.len() {
                    same(&d.v[b + 1..b + 1 + name.len()], name, 7);
                }
            }
        }
        NodeType::HTMLDOCTYPE => check(b + 1 < d.v.len() && d.v[b] == '<' && d.v[b + 1] == '!', 8),
        _ => {}
    }
    if let Some(t) = &n.end_tag {
        let t = t.borrow();
        let (b, e) = (t.begin_at, t.end_at);
        check(b <= e && e <= d.v.len() && b >= n.begin_at, 9);
        if let (Some(c), true) = (&t.content, b < e && e <= d.v.len()) {
            let mut x = vec!['<', '/'];
            x.extend_from_slice(c);
            x.push('>');
            same(&d.v[b..e], &x, 9);
        }
    }
    if let Some(c) = &n.childs {
        for x in c {
            spans(x, d);
        }
    }
}
const P06_OWN: &[&str] = &["@<a>@</a^>@", "@<!--@-->@<br>@", "<svg><b>@<![CDATA[@]]>@</b></svg>@", "<title>@</title>@<b>@", "<!DOCTYPE @>@<p>@", "@<5@<b>@"];
over_docs!(p06, h_p06_full, h_p06_tmpl, h_p06_own, h_p06_toks, h_p06_scale, h_p06_mix, P06_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P07 the strict grammar
fn p07(d: &Doc1) {
    let o = Opts::default();
    let r = Doc::parse(&d.s, ParseOptions::default());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_MEANING);
    }
}
const P07_OWN: &[&str] = &["<a@>?</a@>", "<@b>?</@B>", "<a b/?=c>?</a>", "<a b=/?>?</a>", "<a>@</a@>", "<!DOCTYPE@h>", "<$$><$$></$$></$$>", "<a ??=??>"];
over_docs!(p07, h_p07_full, h_p07_tmpl, h_p07_own, h_p07_toks, h_p07_scale, h_p07_mix, P07_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P08 what the options permit
fn p08(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_MEANING | F_FIX);
    }
}
over_docs!(p08, h_p08_full, h_p08_tmpl, h_p08_own, h_p08_toks, h_p08_scale, h_p08_mix, P07_OWN, ALL_KINDS);
/// a document that is accepted without a permission means the same with it
fn p08m(d: &Doc1) {
    let o = any_opts();
    if let Ok(h) = Doc::parse(&d.s, o.real()) {
        let mut p = Opts::from_bits(O_EQ | O_SELF | O_UNCLOSED | O_UNEXPECTED | O_LT);
        p.case_sensitive = o.case_sensitive;
        // (a repair that was on stays on: the repairs do not depend on each other)
        p.unexpected = o.unexpected;
        p.lt = o.lt;
        p.unclosed = o.unclosed;
        match fork(word(100, 0, 2)) {
            0 => p.unexpected = true,
            1 => p.lt = true,
            _ => p.unclosed = true,
        }
        match Doc::parse(&d.s, p.real()) {
            Ok(h2) => check(h.render(&plain()) == h2.render(&plain()), 3),
            Err(_) => check(false, 2),
        }
        done(true, d);
    }
}
#[no_mangle]
pub extern "C" fn h_p08_mono() {
    p08m(&ascii(param()));
}
#[no_mangle]
pub extern "C" fn h_p08_monot() {
    p08m(&template(DOCS, param()));
}

// ---------------------------------------------------------------- P09 auto_fix_unclosed_tag
fn p09(d: &Doc1) {
    let mut o = opts_of(O_CASE | O_EQ | O_SELF | O_LT);
    o.unclosed = true;
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_SHAPE | F_NAME | F_FIX | F_FLAG);
        let mut c: String = d.s.clone();
        for &x in &m.completion {
            c.push(x);
        }
        for &t in m.unclosed.iter().rev() {
            c.push_str("</");
            for &x in &m.nodes[t].name {
                c.push(x);
            }
            c.push('>');
        }
        if !m.unclosed.is_empty() {
            cover(3);
        }
        o.unclosed = false;
        match Doc::parse(&c, o.real()) {
            Ok(h2) => {
                let (a, b) = (h.render(&plain()), h2.render(&plain()));
                check(a.len() == b.len(), 3);
                check(a == b, 3);
            }
            Err(_) => check(false, 2),
        }
    }
}
const P09_OWN: &[&str] = &["<a><b><c>?", "<a ?=\"??", "<a ?='?", "<a b=?", "<p>?<b>?</b>?", "<a><b>?</a", "<svg><a>?<b", "<title>?", "<br", "<a><!--?-->?", "<a /", "<AB><Cd ?"];
over_docs!(p09, h_p09_full, h_p09_tmpl, h_p09_own, h_p09_toks, h_p09_scale, h_p09_mix, P09_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P10 auto_fix_unexpected_endtag
fn p10(d: &Doc1) {
    let mut o = opts_of(O_CASE | O_EQ | O_SELF | O_LT | O_UNCLOSED);
    o.unexpected = true;
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_SHAPE | F_NAME | F_ATTR | F_FLAG | F_TEXT | F_BLANK);
        // the ignored end tags deleted, and every '<' that is text written as an entity
        let mut c = String::new();
        let (mut at, mut i, mut j) = (0, 0, 0);
        while at < d.v.len() {
            if i < m.strays.len() && m.strays[i].0 == at {
                at = m.strays[i].1;
                i += 1;
            } else if j < m.lts.len() && m.lts[j] == at {
                c.push_str("&lt;");
                at += 1;
                j += 1;
            } else {
                c.push(d.v[at]);
                at += 1;
            }
        }
        if i > 0 {
            cover(3);
        }
        o.lt = false;
        o.unexpected = false;
        match Doc::parse(&c, o.real()) {
            Ok(h2) => {
                let (a, b) = (h.render(&plain()), h2.render(&plain()));
                check(a.len() == b.len(), 3);
                check(a == b, 3);
                alike(&h.get_root_node(), &h2.get_root_node());
            }
            Err(_) => check(false, 2),
        }
    }
}
const P10_OWN: &[&str] = &["</?>?</?>?", "<a>?</?>?</a>", "?</b>?<b></b></b>?", "<a>?</?>?<b>?</b></a>", "<svg></?><a/></svg>", "<br></?r>?", "<a></?></?></a>", "?</x>?<5</y>?", "<b>^</x>^</b>", "<pre>?</p>?</pre>"];
over_docs!(p10, h_p10_full, h_p10_tmpl, h_p10_own, h_p10_toks, h_p10_scale, h_p10_mix, P10_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P11 auto_fix_unescaped_lt
fn p11(d: &Doc1) {
    let mut o = opts_of(O_CASE | O_EQ | O_SELF | O_UNEXPECTED | O_UNCLOSED);
    o.lt = true;
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_SHAPE | F_TEXT | F_LINK | F_BLANK);
        let mut c = String::new();
        let mut at = 0;
        for &b in &m.lts {
            for &x in &d.v[at..b] {
                c.push(x);
            }
            c.push_str("&lt;");
            at = b + 1;
        }
        for &x in &d.v[at..] {
            c.push(x);
        }
        if at > 0 {
            cover(3);
        }
        o.lt = false;
        match Doc::parse(&c, o.real()) {
            Ok(h2) => {
                let (a, b) = (h.render(&plain()), h2.render(&plain()));
                check(a.len() == b.len(), 3);
                check(a == b, 3);
                alike(&h.get_root_node(), &h2.get_root_node());
                let mini = RenderOptions { minify_spaces: true, ..Default::default() };
                let (a, b) = (h.render(&mini), h2.render(&mini));
                check(a.len() == b.len(), 4);
                check(a == b, 4);
            }
            Err(_) => check(false, 2),
        }
    }
}
const P11_OWN: &[&str] = &["?<?<??", "<a>?<?</a>?", "<br><?<br>", "<a>^<^</a>", "<<<?", "<b></b><?<b></b>", "<script></script><?", "<!--?--><?<!---->", "@<@<a>@</a>", "<svg><a><?</a></svg>", "<a/><?", "<p>1 <2 <3 ?</p>"];
over_docs!(p11, h_p11_full, h_p11_tmpl, h_p11_own, h_p11_toks, h_p11_scale, h_p11_mix, P11_OWN, b"tocvslrw");

// ---------------------------------------------------------------- P12 attributes
fn p12(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        tree(&h, &m, F_ATTR | F_MAP | F_FLAG);
    }
}
const P12_OWN: &[&str] = &[
    "<a ??????></a>", "<a ?=? ?=?></a>", "<a ??=?? ?></a>", "<a $$=1 $$=2 $$></a>", "<a b='?' B=\"?\" b></a>", "<a b=\"??\"?c=???></a>",
    "<a @=@ @='@' @></a>", "<br b=?/ >", "<br b=?/>", "<br b=??/>", "<a b^=^?></a>", "<a b??=??c></a>", "<a '?' \"?\"=?></a>", "<!DOCTYPE ????>",
    "<!DOCTYPE a \"?\" '?'?b=?>", "<a b=''?=''></a>", "<a /?/?=?/></a>", "<a $=$ $=$ $=$></a>", "<a\t?\n?\r?\x0c?></a>",
    "<a b=\"'?'\" c='\"?\"'></a>",
];
over_docs!(p12, h_p12_full, h_p12_tmpl, h_p12_own, h_p12_toks, h_p12_scale, h_p12_mix, P12_OWN, b"tosvi");

// ---------------------------------------------------------------- P13 look-up by id
fn p13(d: &Doc1) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        // what the document says
        for (id, _) in &m.ids {
            cover(3);
            let q: String = id.iter().collect();
            match h.get_element_by_id(&q) {
                Some(n) => {
                    let n = n.borrow();
                    check(n.node_type == NodeType::Tag, 2);
                    let mut has = false;
                    if let Some(meta) = &n.meta {
                        for a in &meta.borrow().attrs {
                            if let (Some(k), Some(v)) = (&a.key, &a.value) {
                                if is_word(&k.content, b"id") && eq(&v.content, id) {
                                    has = true;
                                }
                            }
                        }
                    }
                    check(has, 3);
                    // it is a node of the tree
                    let p = n.parent.as_ref().and_then(|w| w.upgrade());
                    match p {
                        Some(p) => {
                            let p = p.borrow();
                            let c = p.childs.as_ref().and_then(|c| c.get(n.index).cloned());
                            check(c.map_or(false, |c| std::ptr::eq(&*c.borrow(), &*n)), 4);
                        }
                        None => check(false, 4),
                    }
                }
                None => check(false, 1),
            }
        }
        // any other id is not found
        let mut q = Vec::new();
        let len = fork(word(101, 0, 2));
        for i in 0..len {
            q.push(byte(102 + i, 0, 127) as char);
        }
        let mut known = false;
        for (id, _) in &m.ids {
            known |= eq(id, &q);
        }
        let qs: String = q.iter().collect();
        check(h.get_element_by_id(&qs).is_some() == known, 5);
    }
}
const P13_OWN: &[&str] = &[
    "<a ??=??></a>", "<a id=??></a>", "<a id='?' ID=\"?\"></a>", "<a id=?><b id=?></b></a>", "<a $$=?></a>", "<br id=?><br iD='?'/>",
    "<script id=?></script>", "<a id></a>", "<a id=''></a>", "<!DOCTYPE id=?>", "<a id = ?></a>", "<a b=id id=@></a>", "<svg id=?><p id=?/></svg>", "<a id=?></x><b id=?>",
    "<a ?id=?></a>", "<a id?=?></a>",
];
over_docs!(p13, h_p13_full, h_p13_tmpl, h_p13_own, h_p13_toks, h_p13_scale, h_p13_mix, P13_OWN, b"toic");

// ---------------------------------------------------------------- P14 raw text elements
fn p14(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_RAW | F_SHAPE | F_NAME);
    }
}
const P14_OWN: &[&str] = &[
    "<script>?????</script>", "<style>?????</style>", "<title>?????</title>", "<textarea>????</textarea>", "<script></???ipt>?</script>",
    "<SCRIPT>?</script>?", "<Title>?</tITLE?>?", "<style>?</style^?>?</style>", "<script>?<!--?</script>?-->", "<title><b>?</b>&?</title>", "<script>?</script>?</script>",
    "<s$$$$$>?</s$$$$$>", "<t$$$$>?</t$$$$>", "<textarea>?</text$$$$>", "<svg><style>?</style>?</svg>", "<script ?=?>?</script>", "<script>@@</script>@", "<title></?></title>",
    "<script>?</style>?</script>", "<style><?</style>", "<title></title?>??</title>", "<script></script</script>?</script>", "<title/>?</title>", "<p><title>?</title>?</p>",
    "<title>??^^^^^^>?</title>", "<title>?</titl?^^^>^</title^^>", "<style>@</@tyle>?</style>", "<textarea>?</t???area>?</textarea>",
];
over_docs!(p14, h_p14_full, h_p14_tmpl, h_p14_own, h_p14_toks, h_p14_scale, h_p14_mix, P14_OWN, b"torc");

// ---------------------------------------------------------------- P15 comments and CDATA
fn p15(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let Some((h, m)) = both(r, model::parse(&d.v, o), 1) {
        tree(&h, &m, F_TEXT | F_SHAPE);
    }
}
const P15_OWN: &[&str] = &[
    "<!--??????-->", "<!--?????", "<!--?-->?<!--?-->", "<!-?-?-->", "<!--@@-->", "<svg><a><![CDATA[?????]]>", "<svg><a><![CDATA[??]]>?</a></svg>",
    "<svg><![CDATA[?]]></svg>", "<svg><a></a><![CDATA[?]]></svg>", "<math><a><![CDATA[?]]></a></math>", "<a><![CDATA[?]]></a>", "<svg><a></a></svg><b><![CDATA[?]]></b>",
    "<svg><g><a><![CDATA[@@]]></a></g></svg>", "<svg><sVg><![CDATA[?]]></sVg></svg>", "<svg><svg></svg><a><![CDATA[?]]></a></svg>", "<svg><a><![?DA?A[?]]></a></svg>",
    "<svg><math><![CDATA[?]]></math></svg>", "<s$$><a><![CDATA[?]]></a></s$$>", "<m$$$><a><![CDATA[?]]></a></m$$$>", "<svg/><a><![CDATA[?", "<!--?--!>?-->", "<!--<!--?-->-->", "<!--[if ??]-->?", "<!--[~~~~~~]>~~~~<![~~~~]-->?", "<!--~~~~-~~~~--~~~~-->?",
];
over_docs!(p15, h_p15_full, h_p15_tmpl, h_p15_own, h_p15_toks, h_p15_scale, h_p15_mix, P15_OWN, b"to!gGdsc");

// ---------------------------------------------------------------- P16 minify_spaces
fn p16(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        tree(&h, &m, F_BLANK);
        let ro = ROpts { minify: true, ..Default::default() };
        let t = h.render(&ro.real(false));
        same_str(&t, &ser::render(&m, &ro), 2);
        put_out(&t);
    }
}
const P16_OWN: &[&str] = &[
    "?????", "<p>?????</p>", "<pre>????</pre>??", "<pre>?<b>??</b>?</pre>??", "<p>??</p>??<b>??</b>", "??<br>??<br/>??", "<pre>?</pre^>??", "<pre><pre>?</pre>??</pre>??",
    "<pre/>??<a>??</a>", "<PRE>??</pre>??", "<title>??</title>??", "<script>??</script>??", "<a b='??'>??</a>", "<!--??-->??<!--??-->", "<p>?<i>?</i>?</p>?", "<p>^^<i>^</i>^^x</p>",
    "^^<p>^^</p>^^", "<p>@@@</p>", "<pre>^@</pre>@@", "<p>?^^?^</p>", "<pr?>^^x</pr?>", "<p?e>^^x</p?e>", "<svg><a>^^<![CDATA[^^]]>^^</a></svg>", "<p><b>^^</b>^^</p>", "<p>^^<br>^^x</p>",
    "<pre><br>^^x</pre>^^x", "<div><pre>^^</pre>^^</div>^^x", "<!DOCTYPE h>^^<html>^^</html>", "<$$$$>^^x</$$$$>", "<$$$$$>^^x", "<p $$$$$=p>^^x</p>^^",
];
over_docs!(p16, h_p16_full, h_p16_tmpl, h_p16_own, h_p16_toks, h_p16_scale, h_p16_mix, P16_OWN, b"wtocvpP!");

// ---------------------------------------------------------------- P17 entities
fn p17(d: &Doc1) {
    let o = if word(OPT_VAR, 0, 1) == 1 { relaxed() } else { Opts::default() };
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        let mut ro = ropts_of(R_MINIFY | R_ENCODE | R_DECODE);
        if !ro.encode {
            ro.decode = true;
        }
        let t = h.render(&ro.real(false));
        same_str(&t, &ser::render(&m, &ro), 2);
        put_out(&t);
    }
}
const P17_OWN: &[&str] = &[
    "&??;", "&lt;?", "&l?;&g?;", "&amp?lt;", "&#???;", "&#x??;", "&?&lt;?", "<p>&l?;</p>", "<title>&l?;?</title>", "<textarea>???</textarea>", "<a b='&lt;'>&l?;</a>", "<!--&lt;?-->&lt;",
    "<script>&lt;?</script>", "^&lt;^^&#32;^?", "&#32;^^&#9;?", "<pre>^^&l?;</pre>^^&l?;", "<svg><a><![CDATA[&lt;?]]>&lt;</a></svg>", "&@;", "@&lt;@", "<style>&l?;<</style>", "<TITLE>??</TITLE>", "<title>@@</title>",
    "<textarea>&?;</textarea>", "&#12???;", "&nbsp;&copy;&?uot;", "&AMP;&a?p",
];
over_docs!(p17, h_p17_full, h_p17_tmpl, h_p17_own, h_p17_toks, h_p17_scale, h_p17_mix, P17_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P18 the other render options
fn p18(d: &Doc1) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        let ro = ropts_of(0xff);
        let t = h.render(&ro.real(false));
        same_str(&t, &ser::render(&m, &ro), 2);
        put_out(&t);
    }
}
const P18_OWN: &[&str] = &[
    "<a b='???' c=\"??\"></a>", "<$$ $='$'>?</$$^>", "<B$^$='@'>@</B$^^>", "<B$>", "<B$/>", "<!--?-->?<!--?-->", "<?MG a='?'/>", "<a b=''></a>", "<a b=\"'?'\" c='\"?\"'></a>",
    "<!DOCTYPE Html \"??\" '?'>", "<SVG><A B='?'/></SVG>", "<TITLE A='?'>?</TITLE^>", "<Ab>x", "<INPUT ?='?'>x", "<a b='@'></a>", "<A\u{c9}>x</A\u{c9}>", "<META><Meta/><p/>", "<a>?</a^^>",
    "<a b='c/'/>", "<a b='c/'>", "<a b='?`'>", "<a b='???' c='???'></a>", "<!--[if ?]>^?<![endif]-->?", "<!--[if !IE]><!-->?<!--<![endif]-->", "<a $$$$$='?'></a>", "<a b=\"?'?\"/>", "<a b='=?'>",
];
over_docs!(p18, h_p18_full, h_p18_tmpl, h_p18_own, h_p18_toks, h_p18_scale, h_p18_mix, P18_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P19 inner html and text
fn p19(d: &Doc1) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        let ro = ropts_of(0xff);
        let root = h.get_root_node();
        let mut tags = Vec::new();
        for &c in &m.nodes[0].childs {
            if m.nodes[c].kind == TAG {
                tags.push(c);
            }
        }
        if tags.len() == 1 {
            cover(3);
            same_str(&h.render(&ro.real(true)), &ser::inner(&m, tags[0], &ro, Mode::Outer), 1);
            same_str(&h.render_text(&ro.real(false)), &ser::inner(&m, tags[0], &ro, Mode::Text), 2);
        }
        if m.nodes[0].childs.is_empty() {
            check(h.render(&ro.real(true)).is_empty(), 3);
            check(h.render_text(&ro.real(false)).is_empty(), 3);
        }
        inner_of(&root, &m, 0, &ro);
    }
}
/// which nodes of a large document are looked at one by one
fn chosen(m: &Model, id: usize) -> bool {
    let n = m.nodes.len();
    n <= 64 || id < 3 || id % 13 == 1 || id + 4 > n
}
fn inner_of(r: &RefNode, m: &Model, id: usize, ro: &ROpts) {
    let n = r.borrow();
    match n.node_type {
        NodeType::Tag if !chosen(m, id) => {}
        NodeType::Tag => {
            same(&n.build(&ro.real(true), false), &ser::inner(m, id, ro, Mode::Outer), 4);
            same(&n.build(&ro.real(false), true), &ser::inner(m, id, ro, Mode::Text), 5);
        }
        NodeType::Comment => {
            let t = n.build(&ro.real(false), true);
            if ro.no_comment {
                check(t.is_empty(), 6);
            } else {
                same(&t, m.nodes[id].content.as_ref().unwrap(), 6);
            }
        }
        NodeType::XMLCDATA => {
            let mut want: Vec<char> = "<![CDATA[".chars().collect();
            want.extend_from_slice(m.nodes[id].content.as_ref().unwrap());
            want.extend_from_slice(&[']', ']', '>']);
            same(&n.build(&ro.real(false), true), &want, 7);
        }
        _ => {}
    }
    if let Some(c) = &n.childs {
        for (x, &y) in c.iter().zip(m.nodes[id].childs.iter()) {
            inner_of(x, m, y, ro);
        }
    }
}
const P19_OWN: &[&str] = &[
    "<p>?<b>?</b>?</p>", "^<p>?</p>^", "<p>?<!--?-->?</p>", "<title>??</title>", "<p><title>?</title>?</p>", "<pre>^^?</pre>", "<p>^^?<pre>^^?</pre>^^?</p>", "<br>", "<p><br>?<br/></p>",
    "<svg><a><![CDATA[?]]></a></svg>", "<svg><a>?<![CDATA[]]></a></svg>", "<!DOCTYPE h><p>?</p>", "<!--?--><p>&l?;</p><!---->", "<script>?</script>", "<p><script>?</script></p>", "?", "<p>@<b>@</b></p>", "<p><p><p>?</p>?</p>?</p>", "<A><B>?</B></A>",
];
over_docs!(p19, h_p19_full, h_p19_tmpl, h_p19_own, h_p19_toks, h_p19_scale, h_p19_mix, P19_OWN, b"tocv!rpPw");

// ---------------------------------------------------------------- P20 clones
fn p20(d: &Doc1) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        let before = h.render(&plain());
        let root = h.get_root_node();
        clones(&root, &m, 0);
        check(h.render(&plain()) == before, 1);
        let ro = ropts_few().real(false);
        let t = root.borrow().build(&ro, false);
        let c = root.borrow().clone_node();
        same(&c.borrow().build(&ro, false), &t, 6);
    }
}
fn clones(r: &RefNode, m: &Model, id: usize) {
    if chosen(m, id) {
        clone_of(r);
    }
    if let Some(k) = &r.borrow().childs {
        for (x, &y) in k.iter().zip(m.nodes[id].childs.iter()) {
            clones(x, m, y);
        }
    }
}
fn clone_of(r: &RefNode) {
    let n = r.borrow();
    let was = n.build(&plain(), false);
    let c = n.clone_node();
    check(!Node::is_same(&c, r), 2);
    check(c.borrow().parent.is_none(), 3);
    copy_of(&c, r, n.begin_at);
    same(&c.borrow().build(&plain(), false), &was, 4);
    // a copy of the copy, and a copy by value
    let cc = c.borrow().clone_node();
    check(cc.borrow().begin_at == 0 && cc.borrow().parent.is_none(), 7);
    let by_value: Node = (*n).clone();
    check(by_value.node_type == n.node_type && by_value.begin_at == 0 && by_value.parent.is_none(), 8);
    same(&by_value.build(&plain(), false), &was, 8);
    // the copy is independent
    {
        let mut x = c.borrow_mut();
        if let Some(t) = &mut x.content {
            t.push('!');
        }
        if let Some(meta) = &x.meta {
            let mut meta = meta.borrow_mut();
            meta.name.push('!');
            meta.attrs.clear();
            meta.lc_name_map.clear();
        }
        if let Some(e) = &x.end_tag {
            e.borrow_mut().content = None;
        }
        if let Some(k) = &mut x.childs {
            for y in k.iter() {
                y.borrow_mut().content = Some(vec!['?']);
                y.borrow_mut().childs = None;
            }
            k.clear();
        }
    }
    same(&n.build(&plain(), false), &was, 5);
    same(&cc.borrow().build(&plain(), false), &was, 7);
    copy_of(&cc, r, n.begin_at);
}
/// `c` copies `r`, with positions relative to `base`
fn copy_of(c: &RefNode, r: &RefNode, base: usize) {
    let (c1, r1) = (c.borrow(), r.borrow());
    check(c1.node_type == r1.node_type, 10);
    check(c1.begin_at + base == r1.begin_at, 11);
    check(c1.end_at + base == r1.end_at || r1.end_at < base, 12);
    match (&c1.content, &r1.content) {
        (Some(a), Some(b)) => same(a, b, 13),
        (None, None) => {}
        _ => check(false, 13),
    }
    match (&c1.meta, &r1.meta) {
        (Some(a), Some(b)) => {
            let (a, b) = (a.borrow(), b.borrow());
            same(&a.name, &b.name, 14);
            check(a.is_void == b.is_void && a.self_closed == b.self_closed && a.auto_fix == b.auto_fix, 15);
            check(a.attrs.len() == b.attrs.len(), 16);
            for (x, y) in a.attrs.iter().zip(b.attrs.iter()) {
                same_attr(x, y, 17);
                check(x.need_quote == y.need_quote, 17);
            }
            check(a.lc_name_map == b.lc_name_map, 18);
        }
        (None, None) => {}
        _ => check(false, 14),
    }
    match (&c1.end_tag, &r1.end_tag) {
        (Some(a), Some(b)) => {
            let (a, b) = (a.borrow(), b.borrow());
            check(a.node_type == b.node_type, 19);
            match (&a.content, &b.content) {
                (Some(x), Some(y)) => same(x, y, 19),
                _ => check(false, 19),
            }
            check(a.begin_at + base == b.begin_at, 20);
            check(a.end_at + base == b.end_at, 20);
        }
        (None, None) => {}
        _ => check(false, 19),
    }
    match (&c1.childs, &r1.childs) {
        (Some(a), Some(b)) => {
            check(a.len() == b.len(), 21);
            for i in 0..a.len().min(b.len()) {
                {
                    let x = a[i].borrow();
                    check(x.index == i, 22);
                    check(points_to(&x.parent, c), 23);
                    match (&x.prev, i) {
                        (None, 0) => {}
                        (Some(_), 0) => check(false, 24),
                        (p, _) => check(points_to(p, &a[i - 1]), 24),
                    }
                    check(!Node::is_same(&a[i], &b[i]), 25);
                }
                copy_of(&a[i], &b[i], base);
            }
        }
        (None, None) => {}
        (Some(a), None) => check(a.is_empty(), 21),
        (None, Some(b)) => check(b.is_empty(), 21),
    }
}
const P20_OWN: &[&str] = &["?<a ?=?>?<b>?</b^></a>?", "x<title>?</title>?", "<!--?-->?<br/>", "<p>@<i c='@'>@</i></p>", "<a><b><c>?</c>?</b>?</a>", "x<svg><a><![CDATA[?]]></a></svg>", "<!DOCTYPE ? '?'>", "y<p>?", "<a $=1 $=2>", "<a>?</x>?<b>?</a>"];
over_docs!(p20, h_p20_full, h_p20_tmpl, h_p20_own, h_p20_toks, h_p20_scale, h_p20_mix, P20_OWN, ALL_KINDS);

// ---------------------------------------------------------------- P21 errors
fn p21(d: &Doc1) {
    let o = any_opts();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Err(e), Err(m)) = (r, model::parse(&d.v, o)) {
        error(&d.v, &e, &m);
        put_out(&e.to_string());
    }
}
const P21_OWN: &[&str] = &["?\n?\r?<?", "^^^<?>", "@@<@", "a\r\n^</?>", "<a>\n?</b>", "\n<a/>", "<a\n=?>", "<!?>", "<!-?", "<!DOCTYPE?", "x\r<svg><![", "<a><![", "\n<a>\n<b>\n?", "<A></a>", "<title>\n?", "\r\r\n\n?<1", "<a>@</@>", "@<!--@"];
over_docs!(p21, h_p21_full, h_p21_tmpl, h_p21_own, h_p21_toks, h_p21_scale, h_p21_mix, P21_OWN, b"tocvs!gGdw");

// ---------------------------------------------------------------- P22 is_document
fn p22(d: &Doc1) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(m)) = (r, model::parse(&d.v, o)) {
        let (mut html, mut tags, mut other) = (0, 0, 0);
        for &c in &m.nodes[0].childs {
            let n = &m.nodes[c];
            match n.kind {
                TAG => {
                    tags += 1;
                    if is_word(&n.name, b"html") {
                        html += 1;
                    }
                }
                COMMENT | SPACES | DOCTYPE => {}
                _ => other += 1,
            }
        }
        let root = h.get_root_node();
        let (is, ok) = root.borrow().is_document();
        if html > 0 {
            cover(3);
        }
        check(is == (html > 0), 1);
        check(ok == (html == 0 || (tags == 1 && other == 0)), 2);
        no_document(&root);
    }
}
fn no_document(r: &RefNode) {
    let n = r.borrow();
    if let Some(e) = &n.end_tag {
        check(!e.borrow().is_document().0, 4);
    }
    if let Some(c) = &n.childs {
        for x in c {
            check(!x.borrow().is_document().0, 3);
            no_document(x);
        }
    };
}
const P22_OWN: &[&str] = &[
    "?<html>?</html>?", "<!DOCTYPE h>?<html></html>?", "<!--?--><html></html><!--?-->", "<$$$$></$$$$>", "<HT$L></HTML>?", "<html></html>?<html></html>", "<p></p>?<html></html>", "<html></html><p></p>", "<body><html></html></body>",
    "<html/>?", "<html>", "^<html></html>^", "<html><html></html>?</html>", "<svg><a><![CDATA[?]]></a></svg><html></html>", "<html></html><br>",
];
over_docs!(p22, h_p22_full, h_p22_tmpl, h_p22_own, h_p22_toks, h_p22_scale, h_p22_mix, P22_OWN, b"thHoc!Dwv");

// ---------------------------------------------------------------- P23 names
fn names(n: u32) -> Vec<char> {
    let mut d = Doc1::new();
    for _ in 0..n % 50 {
        if n < 50 {
            d.two();
        } else {
            d.uni();
        }
    }
    d.v
}
/// any name: the classes of names
#[no_mangle]
pub extern "C" fn h_p23_class() {
    let name = names(param());
    let raw = is_raw(&name);
    let lower_only = {
        let mut l = true;
        for &c in &name {
            l &= lower(c) == c;
        }
        l
    };
    check(is_content_tag(&name, &Some(NameCase::Lower)) == raw, 1);
    check(is_content_tag(&name, &None) == (raw && lower_only), 2);
    // asked for names in capital letters: the names are written in small ones
    check(is_content_tag(&name, &Some(NameCase::Upper)) == (raw && lower_only), 4);
    let t = match fork(word(OPT_VAR, 0, 7)) {
        0 => NodeType::AbstractRoot,
        1 => NodeType::HTMLDOCTYPE,
        2 => NodeType::Comment,
        3 => NodeType::Text,
        4 => NodeType::SpacesBetweenTag,
        5 => NodeType::Tag,
        6 => NodeType::TagEnd,
        _ => NodeType::XMLCDATA,
    };
    let text = t == NodeType::Text || t == NodeType::SpacesBetweenTag;
    let want = if model::is_void(&name) {
        false
    } else if is_rcdata(&name) {
        text
    } else if t == NodeType::XMLCDATA {
        is_foreign(&name)
    } else {
        true
    };
    check(allow_insert(&name, t) == want, 3);
    cover(if want { 1 } else { 2 });
    out(want as u32);
}
/// any name: what its start tag opens
#[no_mangle]
pub extern "C" fn h_p23_parse() {
    let n = param();
    let mut d = Doc1::new();
    d.lit("<");
    d.letter();
    for _ in 1..n % 50 {
        if n < 50 {
            d.two();
        } else {
            d.uni();
        }
        let c = d.v[d.v.len() - 1];
        assume(!((c == '>') | (c == '/') | (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\x0c')));
    }
    let name: Vec<char> = d.v[1..].to_vec();
    d.lit(">");
    let o = Opts::from_bits(O_UNCLOSED);
    let r = Doc::parse(&d.s, o.real());
    let raw = is_raw(&name);
    check(r.is_ok() == !raw, 1);
    done(r.is_ok(), &d);
    if let Ok(h) = r {
        let root = h.get_root_node();
        let root = root.borrow();
        let childs = root.childs.as_ref().unwrap();
        check(childs.len() == 1, 2);
        let t = childs[0].borrow();
        check(t.node_type == NodeType::Tag, 3);
        let meta = t.meta.as_ref().unwrap().borrow();
        same(&meta.name, &name, 4);
        let void = model::is_void(&name);
        check(meta.is_void == void, 5);
        check(meta.auto_fix == !void, 6);
        check(t.end_tag.is_some() == !void, 7);
        if void {
            cover(3);
        }
    }
}

// ---------------------------------------------------------------- P24 character classes
#[no_mangle]
pub extern "C" fn h_p24_chars() {
    let mut d = Doc1::new();
    let c = d.uni();
    let w = c as u32;
    let non = (w >= 0xfdd0 && w <= 0xfdef) || (w & 0xfffe) == 0xfffe;
    check(is_non_character(&c) == non, 1);
    let alnum = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
    let key = if w < 128 { alnum || c == '_' || c == '-' || c == '.' || c == ':' } else { !non };
    check(is_char_available_in_key(&c) == key, 2);
    let value = !(ws(c) || w == 0 || c == '"' || c == '\'' || c == '<' || c == '>' || c == '/' || c == '=' || c == '`');
    check(is_char_available_in_value(&c) == value, 3);
    let q = ws(c) || c == '"' || c == '\'' || c == '<' || c == '>' || c == '=' || c == '`';
    check(Attr::need_quoted_char(&c) == q, 4);
    cover(if non { 1 } else { 2 });
    cover(if key { 3 } else { 4 });
    cover(if value { 5 } else { 6 });
    out(key as u32);
    out(value as u32);
    out(non as u32);
}

// ---------------------------------------------------------------- P25 new nodes
#[no_mangle]
pub extern "C" fn h_p25_text() {
    let n = param();
    let mut d = Doc1::new();
    for _ in 0..n {
        d.uni();
    }
    let at = word(OPT_VAR, 0, u32::MAX);
    let given = word(ROPT_VAR, 0, 1) == 1;
    let t = Node::create_text_node(d.v.clone(), if given { Some(at as usize) } else { None });
    let mut blank = true;
    for &c in &d.v {
        blank &= ws(c);
    }
    check(t.node_type == if blank { NodeType::SpacesBetweenTag } else { NodeType::Text }, 1);
    match &t.content {
        Some(c) => same(c, &d.v, 2),
        None => check(false, 2),
    }
    let at = if given { at as usize } else { 0 };
    check(t.begin_at == at && t.end_at == at, 3);
    check(t.index == 0 && t.parent.is_none() && t.root.is_none() && t.childs.is_none() && t.meta.is_none() && t.end_tag.is_none(), 4);
    check(t.prev.is_none() && t.document.is_none(), 4);
    let o = t.build(&plain(), false);
    same(&o, &d.v, 5);
    let mini = t.build(&RenderOptions { minify_spaces: true, ..Default::default() }, false);
    if blank {
        check(mini.is_empty(), 6);
    } else {
        same(&mini, &ser::collapse(&d.v), 6);
    }
    done(blank, &d);
}

// ---------------------------------------------------------------- P26 attributes as values
#[no_mangle]
pub extern "C" fn h_p26_build() {
    let n = param();
    let mut d = Doc1::new();
    for _ in 0..n {
        d.uni();
    }
    let f = word(OPT_VAR, 0, 63);
    let has_key = f & 1 != 0;
    let has_value = f & 2 != 0;
    let quote = if f & 4 == 0 { None } else if f & 8 == 0 { Some('"') } else { Some('\'') };
    let keep = f & 16 != 0;
    let unquote = f & 32 != 0;
    let half = (n / 2) as usize;
    let key: Vec<char> = d.v[..half].to_vec();
    let value: Vec<char> = d.v[half..].to_vec();
    let a = Attr {
        key: if has_key { Some(AttrData { content: key.clone() }) } else { None },
        value: if has_value { Some(AttrData { content: value.clone() }) } else { None },
        quote,
        need_quote: keep,
    };
    let mut want = Vec::new();
    ser::attr(
        if has_key { Some(&key) } else { None },
        if has_value { Some(&value) } else { None },
        quote,
        keep,
        unquote,
        &mut want,
    );
    let got = a.build(unquote);
    same(&got, &want, 1);
    let id = a.check_if_id();
    let is = has_key && has_value && is_word(&key, b"id");
    match id {
        Some(s) => {
            check(is, 2);
            same_str(&s, &value, 3);
        }
        None => check(!is, 2),
    }
    let mut meta = TagMeta::default();
    meta.attrs.push(a.clone());
    meta.attrs.push(a);
    let mut two = vec![' '];
    two.extend_from_slice(&want);
    two.push(' ');
    two.extend_from_slice(&want);
    same(&meta.attrs_to_string(unquote), &two, 4);
    meta.add_attr_key();
    meta.set_attr_key(key.clone());
    meta.set_attr_value(value.clone(), quote);
    check(meta.attrs.len() == 3, 5);
    let l = &meta.attrs[2];
    match (&l.key, &l.value) {
        (Some(k), Some(v)) => {
            same(&k.content, &key, 6);
            same(&v.content, &value, 6);
        }
        _ => check(false, 6),
    }
    check(l.quote == quote, 6);
    // set again: only the last attribute changes
    let again = if word(ROPT_VAR, 0, 3) & 1 == 0 { None } else { Some('"') };
    {
        let a = meta.set_attr_value(key.clone(), again);
        check(a.quote == again, 8);
        match (&a.key, &a.value) {
            (Some(k), Some(v)) => {
                same(&k.content, &key, 8);
                same(&v.content, &key, 8);
            }
            _ => check(false, 8),
        }
    }
    check(meta.attrs.len() == 3 && meta.attrs[2].quote == again, 8);
    match &meta.attrs[2].value {
        Some(v) => same(&v.content, &key, 8),
        None => check(false, 8),
    }
    match &meta.attrs[2].key {
        Some(k) => same(&k.content, &key, 8),
        None => check(false, 8),
    }
    meta.set_attr_key(value.clone());
    check(meta.attrs.len() == 3 && meta.attrs[2].quote == again, 9);
    match (&meta.attrs[2].key, &meta.attrs[2].value) {
        (Some(k), Some(v)) => {
            same(&k.content, &value, 9);
            same(&v.content, &key, 9);
        }
        _ => check(false, 9),
    }
    same(&meta.attrs[0].build(unquote), &want, 10);
    same(&meta.attrs[1].build(unquote), &want, 10);
    check(meta.attrs[0].quote == quote && meta.attrs[1].quote == quote, 10);
    meta.add_attr_value(quote);
    check(meta.attrs.len() == 4 && meta.attrs[3].key.is_none() && meta.attrs[3].value.is_some() && meta.attrs[3].quote == quote, 7);
    cover(if is { 1 } else { 2 });
    out(got.len() as u32);
}

/// many attributes
#[no_mangle]
pub extern "C" fn h_p26_many() {
    let mut d = Doc1::new();
    d.uni();
    d.uni();
    let f = word(OPT_VAR, 0, 7);
    let quote = if f & 1 == 0 { None } else { Some('"') };
    let unquote = f & 2 != 0;
    let n = MANY[param() as usize];
    let mut meta = TagMeta::default();
    let mut want = Vec::new();
    for i in 0..n {
        meta.add_attr_key();
        let key = vec!['k', (b'a' + i % 26) as char];
        let value = if i + 1 == n || f & 4 != 0 { d.v.clone() } else { vec!['v'] };
        meta.set_attr_key(key.clone());
        meta.set_attr_value(value.clone(), quote);
        want.push(' ');
        ser::attr(Some(&key), Some(&value), quote, false, unquote, &mut want);
    }
    same(&meta.attrs_to_string(unquote), &want, 1);
    cover(if unquote { 1 } else { 2 });
    out(want.len() as u32);
}
const MANY: [u8; 9] = [3, 6, 11, 17, 21, 33, 65, 129, 255];

// ---------------------------------------------------------------- P27 files
use crate::fs;
/// the text that the lines of a file are, if it is UTF-8
fn lines_of(b: &[u8]) -> Option<String> {
    let mut o = String::new();
    let mut at = 0;
    while at < b.len() {
        let mut e = at;
        while e < b.len() && b[e] != b'\n' {
            e += 1;
        }
        let next = if e < b.len() { e + 1 } else { e };
        let mut end = e;
        if e < b.len() && e > at && b[e - 1] == b'\r' {
            end -= 1;
        }
        match std::str::from_utf8(&b[at..end]) {
            Ok(s) => o.push_str(s),
            Err(_) => return None,
        }
        o.push('\n');
        at = next;
    }
    Some(o)
}
fn p27(bytes: Vec<u8>, faults: bool, name: usize) {
    let o = opts_of(O_UNCLOSED | O_UNEXPECTED);
    let mut plan = Vec::new();
    if faults {
        for i in 0..2 {
            match fork(word(110 + i, 0, 3)) {
                0 => plan.push(fs::Read { max: 1, errno: 0 }),
                // interrupted, to be tried again
                1 => plan.push(fs::Read { max: 0, errno: 4 }),
                // input/output error
                2 => plan.push(fs::Read { max: 0, errno: 5 }),
                _ => plan.push(fs::Read { max: 2, errno: 0 }),
            }
        }
    }
    let exists = !faults || word(113, 0, 1) == 1;
    let (asked, place) = fs::NAMES[name];
    fs::install(exists, place, bytes.clone(), plan);
    let r = Doc::parse_file(asked, o.real());
    let (opened, closed, hit) = {
        let f = fs::file();
        (f.open, f.closed, f.faulted)
    };
    fs::remove();
    check(opened == closed, 1);
    cover(if r.is_ok() { 1 } else { 2 });
    out(r.is_ok() as u32);
    if !exists {
        check(r.is_err(), 2);
        return;
    }
    match lines_of(&bytes) {
        None => check(r.is_err(), 3),
        Some(t) => {
            let d = Doc::parse(&t, o.real());
            match (r, d) {
                (Ok(a), Ok(b)) => {
                    check(!hit, 4);
                    let (x, y) = (a.render(&plain()), b.render(&plain()));
                    check(x.len() == y.len() && x == y, 5);
                    same_place(&a.get_root_node(), &b.get_root_node());
                    put_out(&x);
                }
                (Err(a), Err(b)) => {
                    let ea = a.downcast_ref::<rphtml::error::ParseError>();
                    check(hit || ea.is_some(), 6);
                    if ea.is_some() {
                        check(a.to_string() == b.to_string(), 7);
                    }
                }
                (Err(_), Ok(_)) => check(hit, 8),
                _ => check(false, 9),
            }
        }
    }
}
fn same_place(a: &RefNode, b: &RefNode) {
    let (a, b) = (a.borrow(), b.borrow());
    check(a.begin_at == b.begin_at && a.end_at == b.end_at, 10);
    if let (Some(x), Some(y)) = (&a.childs, &b.childs) {
        for (x, y) in x.iter().zip(y.iter()) {
            same_place(x, y);
        }
    }
}
/// any bytes
#[no_mangle]
pub extern "C" fn h_p27_bytes() {
    let mut b = Vec::new();
    for i in 0..param() {
        b.push(byte(i, 0, 255));
    }
    p27(b, false, 0);
}
/// any document, any read schedule
#[no_mangle]
pub extern "C" fn h_p27_docs() {
    let d = template(P27_OWN, param());
    p27(d.s.into_bytes(), false, 0);
}
#[no_mangle]
pub extern "C" fn h_p27_faults() {
    let d = template(P27_OWN, param());
    p27(d.s.into_bytes(), true, 0);
}
#[no_mangle]
pub extern "C" fn h_p27_relative() {
    let d = template(P27_OWN, param());
    p27(d.s.into_bytes(), true, 1);
}
/// every way to name the file; other files lie where a wrong name would lead
#[no_mangle]
pub extern "C" fn h_p27_names() {
    let mut d = Doc1::new();
    d.tmpl("<a>?\n?</a>");
    p27(d.s.into_bytes(), false, param() as usize);
}
#[no_mangle]
pub extern "C" fn h_p27_scale() {
    p27(scale(param()).s.into_bytes(), false, 0);
}
/// the ends of the blocks that readers read; 4 * block + how far before its end the holes begin
#[no_mangle]
pub extern "C" fn h_p27_blocks() {
    let p = param();
    let n = (64usize << (p / 4)) - (p % 4) as usize;
    let mut d = Doc1::new();
    d.lit(&"x".repeat(n));
    d.tmpl("@\r\n<b>\u{e9}\n</c>");
    p27(d.s.into_bytes(), false, 0);
}
const P27_OWN: &[&str] = &["<a>?\n?</a>", "?\r\n?<b>\r?</b>", "<p>\n\n?</q>", "\n?<?>", "@\n<i>@</i>", "<pre>?\r\n?</pre>\n", "a\n<!--?\n?-->\n", "<a b='?\n?'></a>", "<script>\r\n?</script>\r\n", ""];

// ---------------------------------------------------------------- P28 no memory
fn p28(d: &Doc1, e: &Doc1, few: bool) {
    let o = opts_of(O_UNCLOSED);
    let a = Doc::parse(&d.s, o.real());
    done(a.is_ok(), d);
    let ro = if few { ropts_few() } else { ropts_of(R_MINIFY | R_UNQUOTE) };
    let first = a.as_ref().map(|h| {
        let y = h.render(&ro.real(false));
        (h.render(&plain()), y)
    });
    // something else happens
    let b = Doc::parse(&e.s, relaxed().real());
    let eb = b.as_ref().map(|h| {
        h.render(&ro.real(false));
        h.render(&plain())
    }).ok();
    // and again
    let c = Doc::parse(&d.s, o.real());
    match (&a, &first, &c) {
        (Ok(a), Ok((x, y)), Ok(c)) => {
            check(*x == a.render(&plain()), 1);
            check(*y == a.render(&ro.real(false)), 2);
            check(*x == c.render(&plain()), 3);
            check(*y == c.render(&ro.real(false)), 4);
            drop(b);
            check(*x == a.render(&plain()), 5);
            check(*y == c.render(&ro.real(false)), 5);
            put_out(x);
        }
        (Err(a), _, Err(c)) => check(a.to_string() == c.to_string(), 6),
        _ => check(false, 7),
    }
    if let Some(eb) = eb {
        match Doc::parse(&e.s, relaxed().real()) {
            Ok(h) => check(h.render(&plain()) == eb, 8),
            Err(_) => check(false, 8),
        }
    }
}
/// many documents and renderings in between
#[no_mangle]
pub extern "C" fn h_p28_many() {
    let p = param();
    let d = template(P28_OWN, p / 4);
    let o = opts_of(O_UNCLOSED);
    let a = Doc::parse(&d.s, o.real());
    done(a.is_ok(), &d);
    let first = a.as_ref().map(|h| h.render(&plain()));
    match p % 4 {
        // parses
        0 => {
            for _ in 0..70 {
                let _ = Doc::parse("<a id=1 b='2'>x<br></a>", ParseOptions::default());
            }
        }
        // refusals
        1 => {
            for _ in 0..70 {
                let _ = Doc::parse("<svg><a><![CDATA[", ParseOptions::default());
            }
        }
        // renderings
        2 => {
            if let Ok(h) = &a {
                for _ in 0..70 {
                    h.render(&plain());
                }
            }
        }
        // documents that stay
        _ => {
            let mut keep = Vec::new();
            for _ in 0..70 {
                keep.push(Doc::parse("<p>x", relaxed().real()));
            }
            for k in keep {
                match k {
                    Ok(k) => check(k.render(&plain()) == "<p>x</p>", 4),
                    Err(_) => check(false, 4),
                }
            }
        }
    }
    let c = Doc::parse(&d.s, o.real());
    match (&a, &first, &c) {
        (Ok(a), Ok(x), Ok(c)) => {
            check(*x == a.render(&plain()), 1);
            check(*x == c.render(&plain()), 2);
            put_out(x);
        }
        (Err(a), _, Err(c)) => check(a.to_string() == c.to_string(), 3),
        _ => check(false, 3),
    }
}
const P28_OWN: &[&str] = &[
    "<svg><a>?", "<title>?", "<!--?", "<pre>^?", "<a b='?", "</a>?", "<a id=?>", "?<", "<script>?", "<!DOC?", "<p>?</p>", "^^<br>?", "<svg><![", "&l?;", "", "<a b='?' c=\"?\">?", "<B$/>?</B>", "<title>?</title>&lt;", "<!--?--><i>?</i >", "<5?<b>", "</x>?",
];
const P28_RICH: &[&str] = &["<a b='$$*' c='$*$'>x", "<A b='*' c=\"?\">?</A >", "^<!--*-->^?<br>^", "<title>&?</title>&lt;^^x", "<pre>^^</pre>^^?", "<B$/>?</B>", "<p>?<!--?-->^^<i>?</i></p>", "<!DOCTYPE ? '?'>?"];
/// any document of the list, with every render option, around a fixed one
#[no_mangle]
pub extern "C" fn h_p28_opts() {
    let d = template(P28_RICH, param());
    let mut e = Doc1::new();
    e.lit("<!DOCTYPE h><A b='1' c=\"2 3\" d><!--c--> x  &lt;<br><pre> y</pre><title>&</title></A >");
    p28(&d, &e, true);
}
/// every pair of documents of the list
#[no_mangle]
pub extern "C" fn h_p28_pairs() {
    let n = P28_OWN.len() as u32;
    let p = param();
    let d = template(P28_OWN, p % n);
    let mut e = Doc1::new();
    e.next = 50;
    for c in P28_OWN[(p / n) as usize].chars() {
        match c {
            '?' | '^' | '$' => {
                e.of(b"a <'");
            }
            _ => e.put(c),
        }
    }
    p28(&d, &e, false);
}
/// any document, after any other of the same length
#[no_mangle]
pub extern "C" fn h_p28_full() {
    let n = param();
    let d = ascii(n);
    let mut e = Doc1::new();
    e.next = 50;
    for _ in 0..n.min(2) {
        e.any();
    }
    p28(&d, &e, false);
}
/// parameter: 8 * length of the name in the document + length of the name in the other one
#[no_mangle]
pub extern "C" fn h_p28_names() {
    let p = param();
    let mut d = Doc1::new();
    d.lit("<");
    for _ in 0..p / 8 {
        d.letter();
    }
    d.lit(">x");
    let mut e = Doc1::new();
    e.next = 50;
    e.lit("<");
    for _ in 0..p % 8 {
        e.letter();
    }
    e.lit(">");
    p28(&d, &e, false);
}
/// the same document again and again
#[no_mangle]
pub extern "C" fn h_p28_again() {
    let p = param();
    let d = template(P28_AGAIN, p / 2);
    let o = opts_of(O_UNCLOSED | O_LT);
    let ro = ROpts::from_bits(if p % 2 == 0 { 0 } else { 0xff });
    let a = Doc::parse(&d.s, o.real());
    done(a.is_ok(), &d);
    let first = a.as_ref().map(|h| h.render(&ro.real(false)));
    for _ in 0..270 {
        let c = Doc::parse(&d.s, o.real());
        match (&a, &first, &c) {
            (Ok(_), Ok(x), Ok(c)) => check(*x == c.render(&ro.real(false)), 1),
            (Err(a), _, Err(c)) => check(a.to_string() == c.to_string(), 2),
            _ => check(false, 3),
        }
    }
    if let (Ok(a), Ok(x)) = (&a, &first) {
        check(*x == a.render(&ro.real(false)), 4);
    }
}
const P28_AGAIN: &[&str] = &[
    "<A b='1'>?<BR></a >", "<svg><a/><![CDATA[?", "<TITLE>&</TITLE>?", "<!--?--><pre>^^", "a<?&lt;", "<!Doctype h '1'>?", "<Script>?</script>", "<i id=1 ID=?>", "</?>", "<HR/><p/>?",
];
#[no_mangle]
pub extern "C" fn h_p28_tmpl() {
    let d = template(DOCS, param());
    let mut e = Doc1::new();
    e.next = 50;
    e.tmpl("<svg><a><pre><i id=x>");
    p28(&d, &e, false);
}

// ---------------------------------------------------------------- P29 edited trees
fn set_content(n: &RefNode, v: &[char]) {
    n.borrow_mut().content = Some(v.to_vec());
}
/// after an edit through the public fields, the rendering is that of the edited tree
fn p29(d: &Doc1, edit: u32, few: bool) {
    let o = relaxed();
    let r = Doc::parse(&d.s, o.real());
    done(r.is_ok(), d);
    if let (Ok(h), Ok(mut m)) = (r, model::parse(&d.v, o)) {
        let mut x = Doc1::new();
        x.next = 60;
        x.any();
        x.any();
        let ro = if few { ropts_few() } else { ropts_of(0xff) };
        let root = h.get_root_node();
        edit_tree(&root, &mut m, 0, edit, &x.v);
        let t = h.render(&ro.real(false));
        same_str(&t, &ser::render(&m, &ro), 1);
        put_out(&t);
        // a copy of the edited tree renders the same
        let c = root.borrow().clone_node();
        let ct: String = c.borrow().build(&ro.real(false), false).iter().collect();
        check(ct == t, 2);
        // and so do its parts
        inner_of(&root, &m, 0, &ro);
    }
}
fn edit_tree(r: &RefNode, m: &mut Model, id: usize, edit: u32, x: &[char]) {
    let kind = kind_of(r.borrow().node_type);
    let kids: Vec<RefNode> = r.borrow().childs.clone().unwrap_or_default();
    let mkids = m.nodes[id].childs.clone();
    for (c, &i) in kids.iter().zip(mkids.iter()) {
        edit_tree(c, m, i, edit, x);
    }
    match edit {
        // other content
        0 => {
            if kind == TEXT || kind == COMMENT || kind == CDATA {
                set_content(r, x);
                m.nodes[id].content = Some(x.to_vec());
            }
        }
        // a text node more, at the end of every element that may have children
        1 => {
            if (kind == TAG && m.nodes[id].end_tag.is_some() && !m.nodes[id].raw) || kind == ROOT {
                let t = Node::create_text_node(x.to_vec(), None);
                let blank = t.node_type == NodeType::SpacesBetweenTag;
                let t = Rc::new(std::cell::RefCell::new(t));
                r.borrow_mut().childs.get_or_insert_with(Vec::new).push(t);
                let k = m.nodes.len();
                m.nodes.push(MNode { kind: if blank { SPACES } else { TEXT }, parent: id, content: Some(x.to_vec()), ..Default::default() });
                m.nodes[id].childs.push(k);
            }
        }
        // the first child removed
        2 => {
            if !m.nodes[id].childs.is_empty() {
                r.borrow_mut().childs.as_mut().unwrap().remove(0);
                m.nodes[id].childs.remove(0);
            }
        }
        // an attribute more
        3 => {
            if kind == TAG {
                let n = r.borrow();
                let mut meta = n.meta.as_ref().unwrap().borrow_mut();
                meta.add_attr_key();
                meta.set_attr_key(vec!['k']);
                meta.set_attr_value(x.to_vec(), Some('\''));
                m.nodes[id].attrs.push(MAttr { key: Some(vec!['k']), value: Some(x.to_vec()), quote: Some('\'') });
            }
        }
        // no attributes
        4 => {
            if kind == TAG {
                r.borrow().meta.as_ref().unwrap().borrow_mut().attrs.clear();
                m.nodes[id].attrs.clear();
            }
        }
        // another name
        5 => {
            if kind == TAG {
                r.borrow().meta.as_ref().unwrap().borrow_mut().name = x.to_vec();
                m.nodes[id].name = x.to_vec();
                if let Some(e) = m.nodes[id].end_tag {
                    r.borrow().end_tag.as_ref().unwrap().borrow_mut().content = Some(x.to_vec());
                    m.nodes[e].name = x.to_vec();
                }
            }
        }
        // children in reverse order
        6 => {
            if m.nodes[id].childs.len() > 1 {
                r.borrow_mut().childs.as_mut().unwrap().reverse();
                m.nodes[id].childs.reverse();
            }
        }
        // an element more, in front
        7 => {
            if (kind == TAG && m.nodes[id].end_tag.is_some() && !m.nodes[id].raw) || kind == ROOT {
                let k = m.nodes.len();
                m.nodes.push(MNode { kind: TAG, parent: id, name: vec!['P', 'r', x[0]], ..Default::default() });
                m.nodes.push(MNode { kind: END, parent: k, name: vec!['P', 'r', x[0], ' '], ..Default::default() });
                m.nodes.push(MNode { kind: TEXT, parent: k, content: Some(vec![' ', '\n', x[1]]), ..Default::default() });
                m.nodes[k].end_tag = Some(k + 1);
                m.nodes[k].childs.push(k + 2);
                m.nodes[k].attrs.push(MAttr { key: None, value: Some(vec![x[1]]), quote: None });
                m.nodes[id].childs.insert(0, k);
                let mut e = Node::new(NodeType::TagEnd, 0);
                e.content = Some(vec!['P', 'r', x[0], ' ']);
                let mut t = Node::new(NodeType::Text, 0);
                t.content = Some(vec![' ', '\n', x[1]]);
                let mut n = Node::new(NodeType::Tag, 0);
                let mut meta = TagMeta::default();
                meta.name = vec!['P', 'r', x[0]];
                meta.add_attr_value(None);
                meta.set_attr_value(vec![x[1]], None);
                n.meta = Some(std::cell::RefCell::new(meta));
                n.end_tag = Some(Rc::new(std::cell::RefCell::new(e)));
                n.childs = Some(vec![Rc::new(std::cell::RefCell::new(t))]);
                let n = Rc::new(std::cell::RefCell::new(n));
                r.borrow_mut().childs.get_or_insert_with(Vec::new).insert(0, n);
            }
        }
        // self closed, or void
        8 => {
            if kind == TAG {
                let n = r.borrow();
                let mut meta = n.meta.as_ref().unwrap().borrow_mut();
                if x[0] == 'v' {
                    meta.is_void = !meta.is_void;
                    m.nodes[id].void = !m.nodes[id].void;
                } else {
                    meta.self_closed = !meta.self_closed;
                    m.nodes[id].self_closed = !m.nodes[id].self_closed;
                }
            }
        }
        // no end tag
        9 => {
            r.borrow_mut().end_tag = None;
            m.nodes[id].end_tag = None;
        }
        // text becomes a comment and the other way round
        10 => {
            if kind == TEXT {
                r.borrow_mut().node_type = NodeType::Comment;
                m.nodes[id].kind = COMMENT;
            } else if kind == COMMENT {
                r.borrow_mut().node_type = NodeType::Text;
                m.nodes[id].kind = TEXT;
            }
        }
        // other values and quotes
        11 => {
            if kind == TAG || kind == DOCTYPE {
                let n = r.borrow();
                let mut meta = n.meta.as_ref().unwrap().borrow_mut();
                for (i, a) in meta.attrs.iter_mut().enumerate() {
                    a.value = Some(AttrData { content: vec![x[0]] });
                    a.quote = if x[1] == '1' { None } else { Some('"') };
                    m.nodes[id].attrs[i].value = Some(vec![x[0]]);
                    m.nodes[id].attrs[i].quote = a.quote;
                }
                meta.attrs.reverse();
                m.nodes[id].attrs.reverse();
            }
        }
        // no children: none at all, or an empty list
        _ => {
            if kind != ROOT {
                r.borrow_mut().childs = if x[0] == 'n' { None } else { Some(Vec::new()) };
                m.nodes[id].childs.clear();
            }
        }
    }
}
const EDITS: u32 = 13;
const P29_OWN: &[&str] = &[
    "<a>?<b>?</b></a>", "?<p b='?'>?</p><br>", "<pre>?<i>?</i></pre>?", "<!--?-->?<a/>", "<title>?</title>?<u></u>", "<svg><a><![CDATA[?]]>?</a></svg>", "<!DOCTYPE ?><html>?</html>", "<a><b><c>?", "<p>?</x>?<i ?>", "<ul><li>?<li>?",
];
/// parameter: EDITS * template + edit
#[no_mangle]
pub extern "C" fn h_p29_own() {
    let p = param();
    p29(&template(P29_OWN, p / EDITS), p % EDITS, false);
}
#[no_mangle]
pub extern "C" fn h_p29_toks() {
    let p = param();
    p29(&tokens(p / EDITS, b"tocv!rw"), p % EDITS, true);
}
