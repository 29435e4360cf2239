//! Reference model: an index-based, look-ahead description of what a document means.
//! Written independently of the crate's character-by-character state machine; used as the
//! oracle that the real parser is compared with.
use rphtml::config::ParseOptions;

pub const ROOT: u8 = 0;
pub const DOCTYPE: u8 = 1;
pub const COMMENT: u8 = 2;
pub const TEXT: u8 = 3;
pub const SPACES: u8 = 4;
pub const TAG: u8 = 5;
pub const END: u8 = 6;
pub const CDATA: u8 = 7;

#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub case_sensitive: bool,
    pub eq_key: bool,
    pub self_closing: bool,
    pub unclosed: bool,
    pub unexpected: bool,
    pub lt: bool,
}
impl Opts {
    pub fn from_bits(b: u32) -> Opts {
        Opts {
            case_sensitive: b & 1 != 0,
            eq_key: b & 2 != 0,
            self_closing: b & 4 != 0,
            unclosed: b & 8 != 0,
            unexpected: b & 16 != 0,
            lt: b & 32 != 0,
        }
    }
    pub fn real(&self) -> ParseOptions {
        ParseOptions {
            case_sensitive_tagname: self.case_sensitive,
            allow_attr_key_starts_with_equal_sign: self.eq_key,
            allow_self_closing: self.self_closing,
            auto_fix_unclosed_tag: self.unclosed,
            auto_fix_unexpected_endtag: self.unexpected,
            auto_fix_unescaped_lt: self.lt,
        }
    }
}

pub struct MAttr {
    pub key: Option<Vec<char>>,
    pub value: Option<Vec<char>>,
    pub quote: Option<char>,
}
#[derive(Default)]
pub struct MNode {
    pub kind: u8,
    pub parent: usize,
    pub begin: usize,
    pub end: usize,
    /// the tag's name, the end tag's name with its trailing whitespace
    pub name: Vec<char>,
    pub attrs: Vec<MAttr>,
    pub content: Option<Vec<char>>,
    pub childs: Vec<usize>,
    pub void: bool,
    pub self_closed: bool,
    pub auto_fix: bool,
    pub raw: bool,
    /// index behind the '>' of the start tag
    pub tag_end: usize,
    pub end_tag: Option<usize>,
}
pub const K_WRONG_TAG: u8 = 1;
pub const K_WRONG_END: u8 = 2;
pub const K_UNCLOSED: u8 = 3;
pub const K_DOCTYPE: u8 = 4;
pub const K_UNRECOGNIZED: u8 = 5;
pub const K_CASE: u8 = 6;
pub const K_SELF_CLOSING: u8 = 7;
pub const K_COMMON: u8 = 8;
pub struct MErr {
    pub kind: u8,
    pub index: usize,
    /// the text that the error names, when it names one
    pub what: Option<Vec<char>>,
}
pub struct Model {
    pub nodes: Vec<MNode>,
    /// (id value, node), in source order of the attributes
    pub ids: Vec<(Vec<char>, usize)>,
    /// spans of the ignored end tags
    pub strays: Vec<(usize, usize)>,
    /// indexes of the '<' that are taken as text
    pub lts: Vec<usize>,
    /// what completes the start tag that the end of the document cuts off
    pub completion: Vec<char>,
    /// elements that the end of the document closes, outermost first
    pub unclosed: Vec<usize>,
}

pub fn ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r'
}
pub fn lower(c: char) -> char {
    if c >= 'A' && c <= 'Z' {
        ((c as u8) + 32) as char
    } else {
        c
    }
}
fn letter(c: char) -> bool {
    (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}
pub fn eq_nocase(a: &[char], b: &[char]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] && lower(a[i]) != lower(b[i]) {
            return false;
        }
    }
    true
}
pub fn eq(a: &[char], b: &[char]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
/// is `name` the lowercase ASCII word `w`, whatever its case
pub fn is_word(name: &[char], w: &[u8]) -> bool {
    if name.len() != w.len() {
        return false;
    }
    for i in 0..w.len() {
        let c = name[i];
        let l = w[i] as char;
        let u = (w[i] - 32) as char;
        if c != l && c != u {
            return false;
        }
    }
    true
}
pub const VOID: [&[u8]; 14] = [
    b"area", b"base", b"br", b"col", b"embed", b"hr", b"img", b"input", b"link", b"meta",
    b"param", b"source", b"track", b"wbr",
];
pub fn is_void(name: &[char]) -> bool {
    for w in VOID.iter() {
        if is_word(name, w) {
            return true;
        }
    }
    false
}
pub fn is_rcdata(name: &[char]) -> bool {
    is_word(name, b"title") || is_word(name, b"textarea")
}
pub fn is_raw(name: &[char]) -> bool {
    is_word(name, b"script") || is_word(name, b"style") || is_rcdata(name)
}
pub fn is_foreign(name: &[char]) -> bool {
    is_word(name, b"svg") || is_word(name, b"math")
}
pub fn trim_end(v: &[char]) -> &[char] {
    let mut n = v.len();
    while n > 0 && ws(v[n - 1]) {
        n -= 1;
    }
    &v[..n]
}
fn all_ws(v: &[char]) -> bool {
    for &c in v {
        if !ws(c) {
            return false;
        }
    }
    true
}

enum TagEnd {
    /// index of '>' and whether "/>"
    Done(usize, bool),
    /// the document ends; the quote that is open, if any
    Eof(Option<char>),
}

struct P<'a> {
    s: &'a [char],
    /// the original length (`s` may have been completed at its end)
    n: usize,
    o: Opts,
    nodes: Vec<MNode>,
    ids: Vec<(Vec<char>, usize)>,
    stack: Vec<usize>,
    /// name of the outermost open svg/math
    foreign: Option<usize>,
    cur: usize,
    /// whitespace text which is "between tags" if a tag follows
    pending: Option<usize>,
    strays: Vec<(usize, usize)>,
    lts: Vec<usize>,
    unclosed: Vec<usize>,
}

impl<'a> P<'a> {
    fn pos(&self, i: usize) -> usize {
        if i < self.n {
            i
        } else {
            self.n
        }
    }
    fn err<T>(&self, kind: u8, index: usize, what: Option<Vec<char>>) -> Result<T, MErr> {
        Err(MErr { kind, index, what })
    }
    /// the document ends where it may not
    fn eof_err<T>(&self) -> Result<T, MErr> {
        if self.stack.len() > 1 && !self.o.unclosed {
            let last = &self.nodes[*self.stack.last().unwrap()];
            return self.err(K_UNCLOSED, last.begin, Some(last.name.clone()));
        }
        self.err(K_UNCLOSED, self.nodes[self.cur].begin, None)
    }
    fn add(&mut self, kind: u8, begin: usize) -> usize {
        let parent = *self.stack.last().unwrap();
        let id = self.nodes.len();
        self.nodes.push(MNode { kind, begin, end: begin, parent, ..Default::default() });
        self.nodes[parent].childs.push(id);
        self.cur = id;
        id
    }
    fn resolve_pending(&mut self) {
        if let Some(t) = self.pending.take() {
            self.nodes[t].kind = SPACES;
        }
    }
    /// the text that runs on from `i`, appended to the node `cur`; `solid`: can not be whitespace only
    fn text(&mut self, i: usize, solid: bool) -> usize {
        let mut j = i;
        while j < self.s.len() && self.s[j] != '<' {
            j += 1;
        }
        let run = &self.s[i..j];
        let blank = !solid && all_ws(run);
        let node = &mut self.nodes[self.cur];
        match &mut node.content {
            Some(c) => c.extend_from_slice(run),
            None => node.content = Some(run.to_vec()),
        }
        node.end = j;
        if j == self.s.len() {
            if blank {
                node.kind = SPACES;
            }
        } else {
            self.pending = if blank { Some(self.cur) } else { None };
        }
        j
    }
    fn attrs(&mut self, node: usize, mut i: usize) -> Result<TagEnd, MErr> {
        let doctype = self.nodes[node].kind == DOCTYPE;
        let s = self.s;
        // after a '/', up to the next attribute
        let mut slash = false;
        // a key without value is the last attribute, so that '=' gives it one
        let mut after_key = false;
        // after '='
        let mut want_value = false;
        while i < s.len() {
            let c = s[i];
            if c == '>' {
                return Ok(TagEnd::Done(i, slash));
            }
            if ws(c) {
                i += 1;
                continue;
            }
            if want_value || (doctype && (c == '"' || c == '\'')) {
                let (from, to, quote);
                if c == '"' || c == '\'' {
                    from = i + 1;
                    let mut j = from;
                    while j < s.len() && s[j] != c {
                        j += 1;
                    }
                    if j == s.len() {
                        return Ok(TagEnd::Eof(Some(c)));
                    }
                    to = j;
                    quote = Some(c);
                    i = j + 1;
                } else {
                    from = i;
                    let mut j = i + 1;
                    while j < s.len() && s[j] != '>' && !ws(s[j]) {
                        j += 1;
                    }
                    to = j;
                    quote = None;
                    i = j;
                    if j == s.len() {
                        return Ok(TagEnd::Eof(None));
                    }
                }
                let value = s[from..to].to_vec();
                if !want_value {
                    self.nodes[node].attrs.push(MAttr { key: None, value: None, quote: None });
                }
                let a = self.nodes[node].attrs.last_mut().unwrap();
                if !doctype {
                    if let Some(k) = &a.key {
                        if is_word(k, b"id") {
                            self.ids.push((value.clone(), node));
                        }
                    }
                }
                a.value = Some(value);
                a.quote = quote;
                want_value = false;
                after_key = false;
                slash = false;
                continue;
            }
            if c == '/' {
                slash = true;
                i += 1;
                continue;
            }
            if c == '=' {
                if after_key {
                    after_key = false;
                    want_value = true;
                    slash = false;
                    i += 1;
                    continue;
                }
                if !self.o.eq_key {
                    return self.err(K_WRONG_TAG, self.pos(i), None);
                }
            }
            // a key
            let mut j = i + 1;
            while j < s.len() && s[j] != '=' && s[j] != '>' && s[j] != '/' && !ws(s[j]) {
                j += 1;
            }
            if j == s.len() {
                return Ok(TagEnd::Eof(None));
            }
            let key = s[i..j].to_vec();
            self.nodes[node].attrs.push(MAttr { key: Some(key), value: None, quote: None });
            slash = false;
            after_key = false;
            i = j;
            if s[j] == '=' {
                want_value = true;
                i = j + 1;
            } else if s[j] != '/' && s[j] != '>' {
                after_key = true;
            }
        }
        Ok(TagEnd::Eof(None))
    }
    /// start tag at '<' = i; returns the index behind it
    fn start_tag(&mut self, i: usize) -> Result<Result<usize, Option<char>>, MErr> {
        let s = self.s;
        let mut j = i + 1;
        while j < s.len() && s[j] != '>' && s[j] != '/' && !ws(s[j]) {
            j += 1;
        }
        let node = self.cur;
        self.nodes[node].name = s[i + 1..j].to_vec();
        if j == s.len() {
            return Ok(Err(None));
        }
        let void = is_void(&self.nodes[node].name);
        self.nodes[node].void = void;
        let (k, slash) = match self.attrs(node, j)? {
            TagEnd::Done(k, slash) => (k, slash),
            TagEnd::Eof(q) => return Ok(Err(q)),
        };
        self.nodes[node].tag_end = k + 1;
        if slash {
            if !self.o.self_closing && !void && self.foreign.is_none() {
                let name = self.nodes[node].name.clone();
                return self.err(K_SELF_CLOSING, self.pos(k), Some(name));
            }
            self.nodes[node].self_closed = true;
            self.stack.pop();
            return Ok(Ok(k + 1));
        }
        if void {
            self.stack.pop();
            return Ok(Ok(k + 1));
        }
        if is_raw(&self.nodes[node].name) {
            self.nodes[node].raw = true;
            return self.raw_text(node, k + 1).map(Ok);
        }
        if self.foreign.is_none() && is_foreign(&self.nodes[node].name) {
            self.foreign = Some(node);
        }
        Ok(Ok(k + 1))
    }
    fn raw_text(&mut self, node: usize, from: usize) -> Result<usize, MErr> {
        let s = self.s;
        let name = self.nodes[node].name.clone();
        let mut k = from;
        while k < s.len() {
            if s[k] == '>' {
                let t = trim_end(&s[from..k]).len();
                if t >= name.len() + 2 {
                    let b = from + t - name.len() - 2;
                    let found = &s[b + 2..from + t];
                    let same = if self.o.case_sensitive { eq(found, &name) } else { eq_nocase(found, &name) };
                    if same && s[b + 1] == '/' && s[b] == '<' {
                        let e = self.nodes.len();
                        self.nodes.push(MNode {
                            kind: END,
                            parent: node,
                            begin: b,
                            end: k + 1,
                            name: s[b + 2..k].to_vec(),
                            ..Default::default()
                        });
                        self.nodes[node].content = Some(s[from..b].to_vec());
                        self.nodes[node].end_tag = Some(e);
                        self.stack.pop();
                        return Ok(k + 1);
                    }
                }
            }
            k += 1;
        }
        self.eof_err()
    }
    fn end_tag(&mut self, i: usize) -> Result<usize, MErr> {
        let s = self.s;
        let before = self.cur;
        let e = self.nodes.len();
        self.nodes.push(MNode { kind: END, begin: i, end: i, ..Default::default() });
        self.cur = e;
        let mut k = i + 2;
        while k < s.len() && s[k] != '>' {
            k += 1;
        }
        if k == s.len() {
            return self.eof_err();
        }
        let raw = &s[i + 2..k];
        let name = trim_end(raw);
        let open = *self.stack.last().unwrap();
        if self.stack.len() > 1 && eq_nocase(&self.nodes[open].name, name) {
            if self.o.case_sensitive && !eq(&self.nodes[open].name, name) {
                return self.err(K_CASE, k, Some(raw.to_vec()));
            }
            self.stack.pop();
            self.nodes[e].end = k + 1;
            self.nodes[e].parent = open;
            self.nodes[e].name = raw.to_vec();
            self.nodes[open].end_tag = Some(e);
            let only_text = self.nodes[open].childs.len() == 1
                && self.nodes[self.nodes[open].childs[0]].kind == TEXT;
            if only_text {
                self.pending = None;
            } else {
                self.resolve_pending();
            }
            if self.foreign == Some(open) {
                self.foreign = None;
            }
            return Ok(k + 1);
        }
        if !self.o.unexpected {
            return self.err(K_WRONG_END, k, Some(raw.to_vec()));
        }
        if self.o.unclosed {
            self.cur = before;
        }
        self.strays.push((i, k + 1));
        Ok(k + 1)
    }
    fn word_at(&self, i: usize, w: &[u8]) -> Result<bool, MErr> {
        for (d, &b) in w.iter().enumerate() {
            if i + d >= self.s.len() {
                return self.eof_err();
            }
            let c = self.s[i + d];
            let up = if c >= 'a' && c <= 'z' { ((c as u8) - 32) as char } else { c };
            if up != b as char {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn until(&mut self, from: usize, mark: char) -> Result<usize, MErr> {
        let s = self.s;
        let mut k = from + 2;
        while k < s.len() {
            if s[k] == '>' && s[k - 1] == mark && s[k - 2] == mark {
                self.nodes[self.cur].content = Some(s[from..k - 2].to_vec());
                self.nodes[self.cur].end = k + 1;
                return Ok(k + 1);
            }
            k += 1;
        }
        self.eof_err()
    }
    fn exclamation(&mut self, i: usize) -> Result<usize, MErr> {
        let s = self.s;
        if i + 2 >= s.len() {
            return self.eof_err();
        }
        match s[i + 2] {
            '-' => {
                if !self.word_at(i + 2, b"--")? {
                    return self.err(K_UNRECOGNIZED, i, None);
                }
                self.add(COMMENT, i);
                self.resolve_pending();
                self.until(i + 4, '-')
            }
            'd' | 'D' => {
                if !self.word_at(i + 2, b"DOCTYPE")? {
                    return self.err(K_UNRECOGNIZED, i, None);
                }
                let node = self.add(DOCTYPE, i);
                self.resolve_pending();
                if i + 9 >= s.len() {
                    return self.eof_err();
                }
                if !ws(s[i + 9]) {
                    return self.err(K_DOCTYPE, i + 9, Some(vec![s[i + 9]]));
                }
                self.nodes[node].name = s[i + 2..i + 9].to_vec();
                match self.attrs(node, i + 9)? {
                    TagEnd::Done(k, slash) => {
                        self.nodes[node].self_closed = slash;
                        self.nodes[node].tag_end = k + 1;
                        Ok(k + 1)
                    }
                    TagEnd::Eof(_) => self.eof_err(),
                }
            }
            '[' => {
                match self.foreign {
                    None => return self.err(K_COMMON, i + 2, None),
                    Some(f) => {
                        let top = *self.stack.last().unwrap();
                        if eq(&self.nodes[f].name, &self.nodes[top].name) {
                            return self.err(K_COMMON, i + 2, None);
                        }
                    }
                }
                if !self.word_at(i + 2, b"[CDATA[")? {
                    return self.err(K_UNRECOGNIZED, i, None);
                }
                self.add(CDATA, i);
                self.resolve_pending();
                self.until(i + 9, ']')
            }
            _ => self.err(K_WRONG_TAG, i, Some(vec![])),
        }
    }
    /// returns the quote to be closed when the document ends within a start tag that is to be completed
    fn run(&mut self) -> Result<Option<Option<char>>, MErr> {
        let s = self.s;
        let mut i = 0;
        while i < s.len() {
            if s[i] != '<' {
                let joins = self.o.unexpected
                    && (self.nodes[self.cur].kind == TEXT || self.nodes[self.cur].kind == SPACES);
                let solid = joins && self.nodes[self.cur].kind == TEXT;
                if !joins {
                    self.add(TEXT, i);
                }
                i = self.text(i, solid);
                continue;
            }
            if i + 1 >= s.len() {
                return self.eof_err();
            }
            let c = s[i + 1];
            if letter(c) {
                let id = self.add(TAG, i);
                self.resolve_pending();
                self.stack.push(id);
                match self.start_tag(i)? {
                    Ok(next) => i = next,
                    Err(q) => {
                        if self.o.unclosed {
                            return Ok(Some(q));
                        }
                        return self.eof_err();
                    }
                }
            } else if c == '/' {
                i = self.end_tag(i)?;
            } else if c == '!' {
                i = self.exclamation(i)?;
            } else {
                if !self.o.lt {
                    return self.err(K_WRONG_TAG, i, Some(vec![c]));
                }
                let k = self.nodes[self.cur].kind;
                if k != TEXT && k != SPACES {
                    self.add(TEXT, i);
                }
                let cur = self.cur;
                self.nodes[cur].kind = TEXT;
                self.lts.push(i);
                let lt = ['&', 'l', 't', ';'];
                match &mut self.nodes[cur].content {
                    Some(t) => t.extend_from_slice(&lt),
                    None => self.nodes[cur].content = Some(lt.to_vec()),
                }
                // the text runs on behind the '<'
                i = self.text(i + 1, true);
            }
        }
        let open = self.stack.split_off(1);
        if !open.is_empty() {
            if !self.o.unclosed {
                let last = &self.nodes[*open.last().unwrap()];
                return self.err(K_UNCLOSED, last.begin, Some(last.name.clone()));
            }
            self.unclosed = open.clone();
            for t in open {
                self.nodes[t].auto_fix = true;
                let e = self.nodes.len();
                let name = self.nodes[t].name.clone();
                self.nodes.push(MNode { kind: END, parent: t, begin: self.n, end: self.n, name, ..Default::default() });
                self.nodes[t].end_tag = Some(e);
            }
        }
        self.nodes[0].end = self.n;
        Ok(None)
    }
}

fn attempt(s: &[char], n: usize, o: Opts) -> Result<Result<Model, Option<char>>, MErr> {
    let mut p = P {
        s,
        n,
        o,
        nodes: vec![MNode::default()],
        ids: Vec::new(),
        stack: vec![0],
        foreign: None,
        cur: 0,
        pending: None,
        strays: Vec::new(),
        lts: Vec::new(),
        unclosed: Vec::new(),
    };
    match p.run()? {
        None => Ok(Ok(Model {
            nodes: p.nodes,
            ids: p.ids,
            strays: p.strays,
            lts: p.lts,
            completion: Vec::new(),
            unclosed: p.unclosed,
        })),
        Some(q) => Ok(Err(q)),
    }
}

pub fn parse(s: &[char], o: Opts) -> Result<Model, MErr> {
    match attempt(s, s.len(), o)? {
        Ok(m) => Ok(m),
        Err(q) => {
            // the start tag that the end of the document cuts off is completed
            let mut t = s.to_vec();
            if let Some(q) = q {
                t.push(q);
            }
            t.push('>');
            match attempt(&t, s.len(), o)? {
                Ok(mut m) => {
                    m.completion = t[s.len()..].to_vec();
                    Ok(m)
                }
                Err(_) => unreachable!(),
            }
        }
    }
}
