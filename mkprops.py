import json
P="src/parser.rs"
def pr(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if obs: a["observe_at"]=obs
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
IC=["inputs","configurations"]
L=[
pr("P01","Parsing is total",
 "Parsing any text with any combination of parse options ends and returns either a document or an error value. It never panics, overflows or reads outside its buffers, wherever the text is cut off and whatever the options permit.",
 IC,"every text and every combination of the six parse options","The tests parse about sixty fixed snippets, mostly complete documents; a panic needs one particular place where the text ends or one odd character in one parser state.",
 [P],[("one handler per parser state, driven character by character","parser.rs: parse_* handlers, Doc::next"),("end of input","parser.rs: Doc::eof, fix_unfinished_tag")],["Doc::parse"]),
pr("P02","Rendering is total",
 "Every document that was parsed can be rendered with any combination of render options. The same holds for its inner html and its text if it has exactly one top element or is empty. Rendering ends, returns a text and never panics.",
 IC,"every accepted text and every combination of the eight boolean render options","Tests render few documents with one or two options each; the 256 option combinations interact with node kinds.",
 [P],[("recursive building of a node","parser.rs: Node::build_node, TagMeta, Attr::build")],["DocHolder::render"]),
pr("P03","Parse then render is lossless",
 "Rendering a parsed document with default options gives back the source text character for character, except that every start tag and doctype is written in normal form: name, then each attribute after one space as key, key=value or value with its own quotes, then ` /` if self closed (void or not), then `>`. Text, end tags with their spaces and case, comments, CDATA sections and raw text keep exactly the characters of the source, in source order. This holds whenever no repair option is on.",
 IC,"every text accepted with any setting of case_sensitive_tagname, allow_attr_key_starts_with_equal_sign and allow_self_closing","The tests compare some thirty round trips; loss shows only for particular characters in particular parser states.",
 [P],[("characters collected per token","parser.rs: prev_chars, clean_chars_to_vec"),("serialisation","parser.rs: Node::build_node")],["Doc::parse","DocHolder::render"]),
pr("P04","Rendered output parses again to the same document",
 "The default rendering of any accepted document is accepted again with the same parse options, is rendered to the identical text, and gives the same tree (node kinds, names, attributes, contents, nesting), apart from how adjacent text is divided into nodes. This includes documents that needed repairs.",
 IC,"every accepted text with every combination of parse options","Tests never reparse what they render.",
 [P],[("repairs leave a well-formed tree","parser.rs: fix_unclosed_tag, fix_unescaped_lt"),("serialisation","parser.rs: Node::build_node")],["Doc::parse","DocHolder::render"]),
pr("P05","The tree is consistently linked",
 "In a parsed document every node's parent, index and root agree with the child lists, the root belongs to the document, and an end tag belongs to its element and has the element's name (in any letter case). Void and self closed elements, comments, text, CDATA and doctypes have no children and no end tag, raw text elements have content and no children, and every other element has an end tag. Dropping the document frees the whole tree.",
 IC,"every accepted text with every combination of parse options","Tests look at the links of one or two nodes.",
 [P],[("linking","parser.rs: add_new_node, parse_tagend"),("stack of open elements","parser.rs: chain_nodes")],["DocHolder::get_root_node","public fields of Node"]),
pr("P06","Source positions are exact",
 "Begin and end positions of nodes are character offsets into the source: text, comment and CDATA spans cover exactly the characters they stand for, an element begins at its `<` and its end tag lies at its own characters, and the root spans the whole text. This holds for every Unicode text, after void, raw text, self closed and repaired elements alike.",
 IC,"every accepted text, every combination of parse options","The tests check no positions.",
 [P],[("position counter","parser.rs: Doc::next, position, mem_position, set_tag_end_info")],["Node.begin_at","Node.end_at"]),
pr("P07","The strict grammar is decided exactly",
 "With default options the texts that are accepted, and the tree each one gives (elements, nesting, text, attributes, comments, doctypes, raw text), are exactly those of the documented grammar: for instance unclosed elements, end tags that close nothing, `<` not followed by a letter, `/`, `!`, self closing outside svg/math and missing names are refused. Element names match their end tags without regard to letter case by default.",
 ["inputs"],"every text, default options","Tests sample about thirty accepted and twenty refused snippets of an infinite language.",
 [P],[("parser states","parser.rs: parse_wait, parse_tag_*, parse_tagend, parse_unkown_tag, parse_exclamation_begin, parse_doctype_*")],["Doc::parse"]),
pr("P08","Each parse option changes only what it permits",
 "For every combination of parse options, a text is accepted and given the tree that the options in force prescribe; an option that is off permits nothing. A repair option only turns refusals into acceptances: a text accepted without it means the same with it.",
 IC,"every text under all 64 combinations of parse options","Tests set one option at a time on one or two snippets.",
 [P,"src/config.rs"],[("option tests in the handlers","parser.rs: parse_options.*"),("options","config.rs: ParseOptions")],["Doc::parse"]),
pr("P09","Closing unclosed elements equals writing the end tags",
 "With auto_fix_unclosed_tag, a text whose last elements (or last start tag) are not closed gives the same rendering as the text completed by the missing `\"`/`'`, `>` and end tags, innermost first. Exactly the elements that were closed this way are marked as automatically fixed and get an end tag with their own name.",
 IC,"every text, with any setting of the options for case, `=` keys, self closing and unescaped `<`","Two tests with a handful of snippets.",
 [P],[("repair at the end","parser.rs: eof, fix_unclosed_tag, fix_unfinished_tag")],["Doc::parse","DocHolder::render","TagMeta.auto_fix"]),
pr("P10","Ignoring end tags equals deleting them",
 "With auto_fix_unexpected_endtag, an end tag that matches no open element is ignored: the document is the one that the text without that end tag gives, up to the division of text into nodes. An end tag that does match the innermost open element is never ignored, and no element is closed by someone else's end tag.",
 IC,"every text, with any setting of the other options","One test with two snippets.",
 [P],[("matching of end tags","parser.rs: parse_tagend")],["Doc::parse"]),
pr("P11","An unescaped `<` means `&lt;`",
 "With auto_fix_unescaped_lt, a `<` that starts no tag is text: the document is the one that the text with `&lt;` in that place gives, in the innermost open element, up to the division of text into nodes. Every other `<` keeps its meaning.",
 IC,"every text, with any setting of the other options","Two tests with a few snippets.",
 [P],[("repair","parser.rs: fix_unescaped_lt, parse_unkown_tag")],["Doc::parse"]),
pr("P12","Attributes are kept in order, with key, value and quote",
 "The attributes of a start tag or doctype are those of the source in source order, each with its key and value (possibly only one of them) and its quote character, and the self closed flag is set exactly for a tag that ends in an unattached `/`. The look-up table of an element maps the lower-cased key to the first attribute with that key.",
 IC,"every accepted text, every combination of parse options","A few tests with well-formed attributes; quoting, `=`, `/` and white space interact.",
 [P],[("attribute states","parser.rs: parse_tag_wait, parse_tag_attr_key, parse_tag_attr_value"),("look-up table","parser.rs: set_tag_attr_key, TagMeta.lc_name_map")],["TagMeta.attrs","TagMeta.lc_name_map"]),
pr("P13","Elements are found by id",
 "Looking an id up in a parsed document returns an element of its tree that carries this value in an `id` attribute (key in any letter case), if there is one, and nothing otherwise. A doctype is never returned.",
 ["inputs"],"every accepted text, every id","One test with one id.",
 [P],[("id table","parser.rs: id_tags, Attr::check_if_id, set_tag_attr_value")],["DocHolder::get_element_by_id"]),
pr("P14","Raw text ends at its own end tag and nowhere else",
 "The content of script, style, title and textarea elements (in any letter case) is the text up to the first end tag of that name, taken literally: tags, comments, entities and other end tags inside it are not interpreted. After that end tag parsing goes on normally; without one the text is refused.",
 IC,"every text, every combination of parse options","Tests have a few fixed contents; partial matches of the end tag are adversarial.",
 [P],[("detection of the end tag","parser.rs: parse_content_tag, detect, check_tag_type_do")],["Node.content"]),
pr("P15","Comments and CDATA end at the first terminator",
 "A comment is everything between `<!--` and the first `-->` after it, and a CDATA section, which is only permitted in elements within svg or math, everything between `<![CDATA[` and the first `]]>`; nothing inside is interpreted. An unfinished one is refused, and content of any shape (empty, dashes, brackets) is kept exactly.",
 IC,"every text, every combination of parse options","Tests have a few fixed comments; terminators overlap with contents in many ways.",
 [P],[("terminator detection","parser.rs: parse_comment_or_cdata, parse_exclamation_begin"),("svg/math tracking","parser.rs: in_special, is_in_special_chain")],["Node.content"]),
pr("P16","Minifying only touches white space that may go",
 "With minify_spaces a text that is only white space between tags is dropped, any other run of white space in text is reduced to its first character, and everything else is unchanged. Inside `pre` (nested, in any letter case), raw text, comments, CDATA and attribute values nothing changes. The white space kind is given to exactly the all-blank texts next to a tag that are not the only content of their element.",
 IC,"every accepted text, every combination of parse options","Two tests; which text is white space depends on what follows it.",
 [P],[("white space classification","parser.rs: check_textnode, repeat_whitespace, set_text_spaces_between"),("minification","parser.rs: build_node, is_in_pre")],["DocHolder::render","Node.node_type"]),
pr("P17","Entities are decoded and encoded as asked",
 "With decode_entity the character references in text nodes (not in raw text, attributes or comments) are replaced by their characters, and with encode_content the contents of title and textarea are escaped; all other characters, and all other parts of the document, are unchanged. Together with minify_spaces, white space is minified as it was written, not as it was decoded.",
 IC,"every accepted text, every combination of decode_entity, encode_content and minify_spaces","Three tests with one entity each.",
 [P],[("content building","parser.rs: build_node, htmlentity decode/encode")],["DocHolder::render"]),
pr("P18","Every render option does its one job",
 "lowercase_tagname lower-cases element names in start and end tags and nothing else, remove_endtag_space drops the white space of end tags, remove_comment drops comments, always_close_void closes void elements with ` /`, remove_attr_quote drops quotes exactly where the value needs none. In every combination the output differs from the default rendering by these changes only.",
 IC,"every accepted text, every combination of render options","Each option is tested alone on one or two snippets.",
 [P,"src/config.rs"],[("serialisation","parser.rs: build_node, Attr::build, need_quoted_char"),("options","config.rs: RenderOptions")],["DocHolder::render"]),
pr("P19","Inner html and inner text are those of the subtree",
 "Rendering an element with inner_html gives the rendering of its children in order, without its own tags; rendering its text gives the text of its descendants in document order without any tag or comment, with the same treatment of white space and entities. The text of a comment alone is its content, that of a CDATA section is the section as written. A document with one top element is treated like that element; an empty document gives nothing.",
 IC,"every accepted text, every element of it, every combination of render options","A few tests with flat documents.",
 [P],[("recursive building","parser.rs: Node::build, build_node, inner_text")],["Node::build","DocHolder::render","DocHolder::render_text"]),
pr("P20","A cloned node is an equal and independent copy",
 "Cloning any node of a document gives a detached node that renders the same and has the same kind, content, attributes, end tag and children throughout, with positions counted from the beginning of the cloned node and consistent parent, index and previous-sibling links. Changing the clone never changes the original, nor does cloning.",
 ["inputs","histories"],"every node of every accepted text, and changes to every part of the clone","One test with one document.",
 [P],[("deep copy","parser.rs: Node::clone_node, Clone for Node")],["Node::clone_node"]),
pr("P21","Errors say what is wrong and where",
 "A refused text gives an error of the right kind, with the character offset of the offending place and its line and column, counting LF, CR and CRLF each as one line end. The kind, place and message are determined by the text and the options alone.",
 IC,"every refused text, every combination of parse options","Tests only ask whether there is an error.",
 [P,"src/error.rs","src/util.rs"],[("error creation","parser.rs: create_parse_error, Doc::error"),("line and column","error.rs: ParseError")],["ParseError"]),
pr("P22","A complete document is told from a fragment",
 "A root is reported as a document exactly if one of its children is an html element (any letter case), and as a correct one exactly if, besides white space, comments and doctypes, that element is all there is. No other node is a document.",
 ["inputs"],"every accepted text","One test with two documents.",
 [P],[("is_document","parser.rs: Node::is_document")],["Node::is_document"]),
pr("P23","Element names fall into the right classes",
 "Of all names, exactly the listed void elements (any letter case) never have children or end tags, exactly script, style, title and textarea hold raw text. The question which node kinds may be inserted is answered accordingly: nothing into void elements, only text into title and textarea, CDATA only into svg and math, everything else anywhere.",
 ["inputs"],"every name, every node kind","Tests use a dozen names.",
 [P,"src/util.rs","src/types.rs"],[("name tables","parser.rs: VOID_ELEMENTS, is_void_tag, is_content_tag, allow_insert")],["allow_insert","is_content_tag","Doc::parse"]),
pr("P24","Characters fall into the right classes",
 "For every Unicode character it is decided correctly whether it may stand in an attribute key (letters, digits, `_-.:` and everything beyond ASCII but non-characters), in an unquoted value (all but white space, NUL and `\"'<>/=` and backtick), whether it is a Unicode non-character, and whether it forces quotes around a value (white space and `\"'<>=` and backtick).",
 ["inputs"],"every Unicode scalar value","No test of these functions at all.",
 ["src/util.rs",P],[("predicates","util.rs: is_char_available_in_key, is_char_available_in_value, is_non_character"),("quotes","parser.rs: Attr::need_quoted_char")],["rphtml::util","Attr::need_quoted_char"]),
pr("P25","Created text nodes hold what they were given",
 "A text node created from any characters and any position is detached, holds and renders exactly these characters at that position, and is classified as white space exactly if every character is HTML white space. Minified, it gives nothing if it is white space, and its text with every run of white space reduced to its first character otherwise.",
 ["inputs"],"every content, every position or none","No test.",
 [P],[("creation","parser.rs: Node::create_text_node, Node::new")],["Node::create_text_node","Node::build"]),
pr("P26","Attributes are written out faithfully",
 "An attribute built from any key, value and quote is written as key, key=value or value with its quotes, the quotes being dropped only on request and only if the value needs none; several are each preceded by one space. It counts as an id exactly if its key is `id` in any letter case and it has a value, and setting keys and values on a tag appends and fills attributes without touching earlier ones.",
 IC,"every key and value, with or without each part, quote and request","No direct test.",
 [P],[("attribute serialisation","parser.rs: Attr::build, check_if_id"),("tag attributes","parser.rs: TagMeta::attrs_to_string, add_attr_key, set_attr_key, add_attr_value, set_attr_value")],["Attr::build","TagMeta"]),
pr("P27","Parsing a file equals parsing its lines",
 "Parsing a file by absolute or relative name gives the same document or parse error as parsing the text of its lines, each ended by one line feed (CRLF counts as a line end). A missing file, a read error or invalid UTF-8 gives an error value, never a panic; short and interrupted reads change nothing, and the file is closed again.",
 ["inputs","fault_sequences"],"every file content, every sequence of short, interrupted and failing reads","One test with one intact file.",
 [P],[("line reader","parser.rs: Doc::parse_file")],["Doc::parse_file"]),
pr("P28","Parses and renderings do not influence each other",
 "Parsing or rendering one document gives the same result whatever was parsed, rendered, failed or dropped before, in the same process, and rendering a document any number of times changes nothing in it.",
 ["histories","inputs"],"every history of parses (also failing ones) and renderings of two documents","Every test parses fresh documents and renders once.",
 [P],[("no shared mutable state","parser.rs: lazy_static tables, Doc::new")],["Doc::parse","DocHolder::render"]),
pr("P29","Rendering follows edits of the tree",
 "After a program has changed the tree through its public fields (contents, names, attributes, adding and removing children), the document and clones of it are rendered as the changed tree prescribes, under all render options.",
 ["histories","configurations","inputs"],"every accepted document, each kind of edit at every node, every combination of render options","No test edits a tree.",
 [P],[("rendering from the tree alone","parser.rs: Node::build, build_node")],["Node::build","DocHolder::render","Node::clone_node"]),
]
for x in L:
    assert len(x["title"])<=80
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
M={"version":1,"setup_cmd":"python3 check.py --setup","checks":[{
 "property":x["id"],"quick_cmd":"python3 check.py %s --tier quick"%x["id"],"thorough_cmd":"python3 check.py %s --tier thorough"%x["id"],
 "technique":"bounded symbolic execution of the LLVM IR of the crate and a harness, every branch and assertion decided by z3; counterexamples replayed natively",
 "level":"other","level_note":"Holds for every value of the symbolic inputs within the bounds reported in the evidence (lengths, templates, token sequences); nothing is claimed beyond them."} for x in L],"not_applicable":[]}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
