//! Symbolic documents.
use crate::sym::*;
pub struct Doc1 {
    pub s: String,
    pub v: Vec<char>,
    pub next: u32,
    /// where the last name begins and ends
    pub name: (usize, usize),
}
impl Doc1 {
    pub fn new() -> Doc1 {
        Doc1 { s: String::with_capacity(64), v: Vec::with_capacity(64), next: 0, name: (0, 0) }
    }
    pub fn put(&mut self, c: char) {
        self.s.push(c);
        self.v.push(c);
    }
    pub fn lit(&mut self, t: &str) {
        self.s.push_str(t);
        for c in t.chars() {
            self.v.push(c);
        }
    }
    pub fn id(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    /// any ASCII character
    pub fn any(&mut self) -> char {
        let i = self.id();
        let b = byte(i, 0, 127);
        self.s.push(b as char);
        self.v.push(b as char);
        b as char
    }
    /// any character of one or two bytes
    pub fn two(&mut self) -> char {
        let i = self.id();
        let w = word(i, 0, 0x7ff);
        let c = unsafe { char::from_u32_unchecked(w) };
        self.put(c);
        c
    }
    /// any Unicode scalar value
    pub fn uni(&mut self) -> char {
        let i = self.id();
        let w = word(i, 0, 0x10ffff);
        assume((w < 0xd800) | (w > 0xdfff));
        let c = unsafe { char::from_u32_unchecked(w) };
        self.put(c);
        c
    }
    pub fn letter(&mut self) -> char {
        let i = self.id();
        let b = byte(i, b'A' as u32, b'z' as u32);
        assume((b <= b'Z') | (b >= b'a'));
        self.put(b as char);
        b as char
    }
    pub fn of(&mut self, set: &[u8]) -> char {
        let i = self.id();
        let b = byte(i, 0, 127);
        let mut ok = false;
        for &x in set {
            ok |= b == x;
        }
        assume(ok);
        self.put(b as char);
        b as char
    }
    /// a printable ASCII character that means nothing anywhere
    pub fn plain(&mut self) -> char {
        let i = self.id();
        let b = byte(i, 0x21, 0x7e);
        let mut ok = true;
        for &x in b"\"&'-/;<=>]`" {
            ok &= b != x;
        }
        assume(ok);
        self.put(b as char);
        b as char
    }
    /// a template: `?` any character up to U+07FF, `@` any character, `$` a letter, `^` whitespace,
    /// `*` not '<' '>' , `%` any but '<', `~` printable and without a meaning, U+0001 the letters of the last `$`s again; everything else is itself
    pub fn tmpl(&mut self, t: &str) {
        let mut last = '\0';
        for c in t.chars() {
            if c == '$' {
                if last != '$' {
                    self.name = (self.v.len(), self.v.len());
                }
                self.name.1 += 1;
            }
            last = c;
            match c {
                '\u{1}' => {
                    for i in self.name.0..self.name.1 {
                        self.put(self.v[i]);
                    }
                }
                '?' => {
                    self.two();
                }
                '~' => {
                    self.plain();
                }
                '@' => {
                    self.uni();
                }
                '$' => {
                    self.letter();
                }
                '^' => {
                    self.of(b" \t\n\x0c\r");
                }
                '%' => {
                    let c = self.two();
                    assume(c != '<');
                }
                '*' => {
                    let c = self.two();
                    assume((c != '<') & (c != '>'));
                }
                _ => self.put(c),
            }
        }
    }
}
pub fn ascii(n: u32) -> Doc1 {
    let mut d = Doc1::new();
    for _ in 0..n {
        d.any();
    }
    d
}

/// a document of `k` tokens; which tokens is symbolic, and so is what they hold
pub fn tokens(k: u32, kinds: &[u8]) -> Doc1 {
    let mut d = Doc1::new();
    for _ in 0..k {
        let i = d.id();
        let t = fork(word(i, 0, kinds.len() as u32 - 1));
        match kinds[t as usize] {
            b't' => {
                let c = d.any();
                assume(c != '<');
            }
            b'o' => {
                d.lit("<");
                d.of(b"abA");
                d.lit(">");
            }
            b'c' => {
                d.lit("</");
                d.of(b"abA");
                d.lit(">");
            }
            b'v' => d.lit("<br>"),
            b's' => {
                d.lit("<");
                d.of(b"ab");
                d.lit("/>");
            }
            b'!' => {
                d.lit("<!--");
                d.any();
                d.lit("-->");
            }
            b'g' => {
                d.lit("<");
                d.of(b"sS");
                d.lit("vg>");
            }
            b'G' => {
                d.lit("</");
                d.of(b"sS");
                d.lit("vg>");
            }
            b'd' => {
                d.lit("<![CDATA[");
                d.any();
                d.lit("]]>");
            }
            b'r' => {
                d.lit("<title>");
                d.any();
                d.lit("</title>");
            }
            b'p' => d.lit("<pre>"),
            b'P' => d.lit("</pre>"),
            b'D' => d.lit("<!DOCTYPE h>"),
            b'h' => d.lit("<html>"),
            b'H' => d.lit("</html>"),
            b'i' => {
                d.lit("<a id=");
                d.of(b"xyX");
                d.lit(">");
            }
            b'w' => d.lit(" "),
            b'l' => d.lit("<"),
            _ => d.lit("x"),
        }
    }
    d
}
/// pieces of documents, in every order
const MIX: &[&str] = &[
    "~", "^", "&lt;", "\u{a0}", "\r\n", "<a>", "</a>", "</a^>", "<B c='~'>", "<b c=~ D>", "</B>", "<br>", "<BR/>", "<img id=\"~\" x=''>", "<!--~-->", "<!---->", "<title></title>", "<Title>&~</TITLE^>",
    "<script><a></script>", "<textarea>^</textarea>", "<pre>", "</PRE>", "<svg>", "</SVG>", "<g/>", "<![CDATA[~]]>", "<![CDATA[]]>", "<!DOCTYPE h>", "<!doctype H '~'>", "<html>", "</html>", "<5", "<a id=~>", "<i", "<p =~>",
];
pub fn mix(k: u32) -> Doc1 {
    let mut d = Doc1::new();
    for _ in 0..k {
        let i = d.id();
        let t = fork(word(i, 0, MIX.len() as u32 - 1));
        d.tmpl(MIX[t as usize]);
    }
    d
}
pub const SCALES: u32 = 57;
/// documents beyond the sizes that buffers are first allocated with
pub fn scale(i: u32) -> Doc1 {
    let mut d = Doc1::new();
    match i {
        0 => {
            d.lit(&"x".repeat(255));
            d.tmpl("??");
        }
        1 => {
            d.lit("<!--");
            d.lit(&"-x".repeat(130));
            d.tmpl("??-->?");
        }
        2 => {
            d.lit("<script>");
            d.lit(&"</script ".repeat(25));
            d.tmpl("??</script>?");
        }
        3 => {
            d.lit("<a b='");
            d.lit(&"y".repeat(230));
            d.tmpl("??' c=?></a>");
        }
        4 => {
            d.lit(&"<a>".repeat(24));
            d.tmpl("??");
            d.lit(&"</a>".repeat(24));
        }
        5 => {
            d.lit("<a");
            for k in 0..12u8 {
                d.put(' ');
                d.put((b'b' + k) as char);
                d.lit("=1");
            }
            d.tmpl(" ?=?>x</a>");
        }
        6 => {
            d.lit(&"<b></b>".repeat(24));
            d.tmpl("?<b>?</b>?");
        }
        7 => {
            d.put('<');
            d.lit(&"n".repeat(205));
            d.tmpl("?>?</");
            d.lit(&"n".repeat(205));
            d.tmpl(">?");
        }
        8 => {
            d.lit("<a>x</a");
            d.lit(&" ".repeat(205));
            d.tmpl("?>?");
        }
        9 => {
            d.lit(&" \n".repeat(120));
            d.tmpl("?<b>?</b>");
        }
        10 => {
            d.lit(&"a\r\nb\n".repeat(12));
            d.tmpl("?<?");
        }
        11 => {
            d.lit(&"\u{4e2d}\u{1f600}".repeat(10));
            d.tmpl("<a>??</a>?");
        }
        12 => {
            d.lit(&"<a id=1>".repeat(6));
            d.tmpl("<b id=?>?</b>");
            d.lit(&"</a>".repeat(6));
        }
        13 => {
            d.lit("<svg>");
            d.lit(&"<g>".repeat(20));
            d.tmpl("<![CDATA[?]]>?");
            d.lit(&"</g>".repeat(20));
            d.lit("</svg>");
        }
        14 => {
            d.lit(&"<p>".repeat(22));
            d.tmpl("?</?");
        }
        15 => {
            d.lit("<!DOCTYPE ");
            d.lit(&"html ".repeat(8));
            d.tmpl("'?' ?>?");
        }
        16 => {
            d.lit("<title>");
            d.lit(&"&lt; ".repeat(45));
            d.tmpl("?</TITLE>?");
        }
        17 => {
            d.lit(&"x".repeat(1100));
            d.tmpl("?<b>?</b>");
        }
        18 => {
            d.lit("<i>y<!--");
            d.lit(&"->".repeat(550));
            d.tmpl("?-->?</i>");
        }
        19 => {
            d.lit(&"<a>".repeat(70));
            d.tmpl("?<b>?</b>");
            d.lit(&"</a>".repeat(70));
            d.tmpl("?");
        }
        20 => {
            d.lit(&"<a>".repeat(40));
            d.tmpl("?");
        }
        21 => {
            d.lit("<a");
            for k in 0..40u8 {
                d.put(' ');
                d.put((b'a' + k % 26) as char);
                d.put((b'A' + k / 26) as char);
                d.lit("='v'");
            }
            d.tmpl(" ?='?'>x</a>");
        }
        22 => {
            d.lit("<u>");
            d.lit(&"<b></b>".repeat(260));
            d.tmpl("?<b>?</b></u>?");
        }
        23 => {
            d.lit(&"\n".repeat(300));
            d.tmpl("?<?");
        }
        24 => {
            d.lit("\r\n");
            d.lit(&"\u{e9}".repeat(300));
            d.tmpl("?</?>");
        }
        25 => {
            d.lit(&"<p k='v'><q/>x".repeat(66));
            d.tmpl("<!--?-->?");
        }
        26 => {
            d.lit("<pre>");
            d.lit(&"<b> ".repeat(35));
            d.tmpl("^^?");
            d.lit(&" </b>".repeat(35));
            d.tmpl("</pre>^^?");
        }
        27 => {
            d.lit(&"a  \n".repeat(130));
            d.tmpl("?^^?");
        }
        28 => {
            d.lit("<a>");
            d.lit(&"</x>".repeat(40));
            d.tmpl("?</a>?</a>");
        }
        29 => {
            d.lit("<a>");
            d.lit(&"< 1".repeat(40));
            d.tmpl("<?</a>?");
        }
        30 => {
            d.lit(&"<!--c--> ".repeat(70));
            d.tmpl("?<a>?</a>");
        }
        31 => {
            d.lit(&"<svg><g/>".repeat(35));
            d.tmpl("<?><![CDATA[?]]>");
            d.lit("</g>");
            d.lit(&"</svg>".repeat(35));
            d.tmpl("<b/>");
        }
        32 => {
            d.lit(&"&lt;&amp;".repeat(40));
            d.tmpl("&?t;?");
        }
        33 => {
            d.lit("<textarea>");
            d.lit(&"</textarea".repeat(110));
            d.tmpl("?>?</textarea>?");
        }
        34 => {
            d.lit("<img b='");
            d.lit(&"y".repeat(1100));
            d.tmpl("?' c=\"");
            d.lit(&"z".repeat(270));
            d.tmpl("?\"/>");
        }
        35 => {
            for k in 0..40u8 {
                d.lit("<i id='");
                d.put((b'a' + k % 13) as char);
                d.put((b'a' + k % 20) as char);
                d.lit("'></i>");
            }
            d.tmpl("<i id=?a></i>");
        }
        36 => {
            d.lit("<A");
            d.lit(&"nM".repeat(135));
            d.tmpl("?>?</A");
            d.lit(&"Nm".repeat(135));
            d.tmpl("?");
            d.lit(&" \t".repeat(135));
            d.lit(">");
        }
        37 => {
            d.lit(&"\u{4e2d}\u{1f600}\n".repeat(100));
            d.tmpl("<a>?</b>");
        }
        38 => {
            d.lit(&"<a><br>".repeat(66));
            d.tmpl("</?>");
            d.lit(&"</A>".repeat(65));
        }
        39 => {
            d.lit("<html>");
            d.lit(&"<p>t</p> ".repeat(130));
            d.tmpl("?</html>?");
        }
        41 => {
            d.lit("<u>");
            d.lit(&"<b></b>".repeat(30));
            d.tmpl("?");
        }
        42 => {
            d.tmpl("?<u><i>");
            d.lit(&"t<br>".repeat(132));
            d.tmpl("?</i>");
        }
        43 => {
            d.lit("<p><a");
            for k in 0..35u8 {
                d.put(' ');
                d.put((b'a' + k % 26) as char);
                d.put((b'A' + k / 26) as char);
                d.lit("=v");
            }
            d.tmpl(" ?='?");
        }
        44 => {
            d.lit("<p>");
            d.lit(&"x<!--c-->".repeat(40));
            d.tmpl(" <?");
        }
        45 => {
            d.lit(&"x".repeat(4200));
            d.tmpl("<b>?</b>?");
        }
        46 => {
            d.lit(&"<a>".repeat(140));
            d.tmpl("?");
            d.lit(&"</a>".repeat(139));
        }
        47 => {
            d.lit("<ul>");
            d.lit(&"<li>a <b>b</b>\n".repeat(36));
            d.tmpl("?</li>");
        }
        48 => {
            d.lit("<!DOCTYPE html>\n<html>\n<head>\n<title>t</title>\n<style>a{}</style>\n</head>\n<body class=\"c\">\n");
            d.lit(&"<div id=\"i\"><p>one<br/>two</p>\n<img src='a.png' alt=x></div>\n".repeat(8));
            d.tmpl("<script>if(a<b){?}</script>\n?</body>\n</html>?");
        }
        49 => {
            d.lit("<svg viewBox='0 0 1 1'>");
            d.lit(&"<path d='M0'/>\n".repeat(40));
            d.tmpl("<g><![CDATA[?]]></g>?</svg>?<b/>");
        }
        50 => {
            d.lit(&"<a></a>\n".repeat(33));
            d.lit(&"</q>".repeat(33));
            d.tmpl("?</a>");
        }
        51 => {
            d.lit("<a");
            d.lit(&" k=v".repeat(270));
            d.tmpl(" k=?>?");
        }
        52 => {
            d.lit("<a id='");
            d.lit(&"i".repeat(130));
            d.tmpl("~?'>?<b id=");
            d.lit(&"j".repeat(70));
            d.tmpl("~>");
        }
        53 => {
            d.lit(&"<a>".repeat(300));
            d.tmpl("?");
            d.lit(&"</a>".repeat(298));
        }
        54 => {
            d.lit(&"<b/>".repeat(1030));
            d.tmpl("?</?");
        }
        55 => {
            d.lit("<a");
            for k in 0..140u32 {
                d.lit(&format!(" k{k}={k}"));
            }
            d.tmpl(" ?=?>x</a>");
        }
        // more characters than 16 bits count
        100 => {
            d.lit("<p>");
            d.lit(&"0123456789abcdef".repeat(4100));
            d.tmpl("?<b>?</b>");
        }
        101 => {
            d.lit(&"\n".repeat(65600));
            d.tmpl("?</?");
        }
        102 => {
            d.lit("<p>");
            d.lit(&"<i></i>".repeat(300));
            d.lit(&"0123456789abcdef".repeat(4100));
            d.tmpl("</p><title>?</title>?");
        }
        _ => {
            d.lit("<!DOCTYPE ");
            d.lit(&"\"q\" 'r' s ".repeat(22));
            d.tmpl("\"?\">?<a ");
            d.lit(&"/ ".repeat(130));
            d.tmpl("?>");
        }
    }
    d
}
