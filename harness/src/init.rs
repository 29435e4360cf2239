use rphtml::config::*;
use rphtml::parser::*;

/// run once before the exploration: the lazily built tables
#[no_mangle]
pub extern "C" fn h_init() {
    let d = Doc::parse("<!DOCTYPE html><html><body id=a class=\"b c\">&amp;x &lt; &#39;<pre> x </pre><svg><a><![CDATA[x]]></a></svg><script>1</script><title>&</title><br></body></html>", ParseOptions::default());
    if let Ok(d) = d {
        let _ = d.get_element_by_id("a");
        let _ = d.render(&RenderOptions { decode_entity: true, encode_content: true, ..Default::default() });
        let _ = allow_insert(&['a'], NodeType::XMLCDATA);
        std::mem::forget(d);
    }
}
