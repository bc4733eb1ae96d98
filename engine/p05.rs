//! What a syntax construct needs to be complete (P05). The tables name node and token kinds of the
//! tree, i.e. its observable vocabulary, not functions of the grammar.
use crate::facts::*;
use crate::pmodel::*;

/// construct, node holding its end tag, keyword of the end tag
const PAIRED: &[(&str, &str, &str)] = &[
    ("TWIG_IF", "TWIG_ENDIF_BLOCK", "TK_ENDIF"),
    ("TWIG_FOR", "TWIG_ENDFOR_BLOCK", "TK_ENDFOR"),
    ("TWIG_APPLY", "TWIG_APPLY_ENDING_BLOCK", "TK_ENDAPPLY"),
    ("TWIG_AUTOESCAPE", "TWIG_AUTOESCAPE_ENDING_BLOCK", "TK_ENDAUTOESCAPE"),
    ("TWIG_EMBED", "TWIG_EMBED_ENDING_BLOCK", ""),
    ("TWIG_SANDBOX", "TWIG_SANDBOX_ENDING_BLOCK", "TK_ENDSANDBOX"),
    ("TWIG_VERBATIM", "TWIG_VERBATIM_ENDING_BLOCK", "TK_ENDVERBATIM"),
    ("TWIG_MACRO", "TWIG_MACRO_ENDING_BLOCK", "TK_ENDMACRO"),
    ("TWIG_WITH", "TWIG_WITH_ENDING_BLOCK", "TK_ENDWITH"),
    ("TWIG_CACHE", "TWIG_CACHE_ENDING_BLOCK", "TK_ENDCACHE"),
    ("TWIG_COMPONENT", "TWIG_COMPONENT_ENDING_BLOCK", "TK_ENDCOMPONENT"),
    ("TWIG_TRANS", "TWIG_TRANS_ENDING_BLOCK", "TK_ENDTRANS"),
    ("SHOPWARE_SILENT_FEATURE_CALL", "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "TK_ENDSW_SILENT_FEATURE_CALL"),
];

/// nodes that stand for one {% ... %} tag
const TAGS: &[&str] = &[
    "TWIG_STARTING_BLOCK",
    "TWIG_ENDING_BLOCK",
    "TWIG_IF_BLOCK",
    "TWIG_ELSE_IF_BLOCK",
    "TWIG_ELSE_BLOCK",
    "TWIG_ENDIF_BLOCK",
    "TWIG_SET_BLOCK",
    "TWIG_ENDSET_BLOCK",
    "TWIG_FOR_BLOCK",
    "TWIG_FOR_ELSE_BLOCK",
    "TWIG_ENDFOR_BLOCK",
    "TWIG_EXTENDS",
    "TWIG_INCLUDE",
    "TWIG_USE",
    "TWIG_APPLY_STARTING_BLOCK",
    "TWIG_APPLY_ENDING_BLOCK",
    "TWIG_AUTOESCAPE_STARTING_BLOCK",
    "TWIG_AUTOESCAPE_ENDING_BLOCK",
    "TWIG_DEPRECATED",
    "TWIG_DO",
    "TWIG_EMBED_STARTING_BLOCK",
    "TWIG_EMBED_ENDING_BLOCK",
    "TWIG_FLUSH",
    "TWIG_FROM",
    "TWIG_IMPORT",
    "TWIG_SANDBOX_STARTING_BLOCK",
    "TWIG_SANDBOX_ENDING_BLOCK",
    "TWIG_VERBATIM_STARTING_BLOCK",
    "TWIG_VERBATIM_ENDING_BLOCK",
    "TWIG_MACRO_STARTING_BLOCK",
    "TWIG_MACRO_ENDING_BLOCK",
    "TWIG_WITH_STARTING_BLOCK",
    "TWIG_WITH_ENDING_BLOCK",
    "TWIG_CACHE_STARTING_BLOCK",
    "TWIG_CACHE_ENDING_BLOCK",
    "TWIG_PROPS",
    "TWIG_COMPONENT_STARTING_BLOCK",
    "TWIG_COMPONENT_ENDING_BLOCK",
    "TWIG_TRANS_STARTING_BLOCK",
    "TWIG_TRANS_ENDING_BLOCK",
    "SHOPWARE_TWIG_SW_EXTENDS",
    "SHOPWARE_TWIG_SW_INCLUDE",
    "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK",
    "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK",
    "SHOPWARE_RETURN",
    "SHOPWARE_ICON",
    "SHOPWARE_THUMBNAILS",
];

/// nodes whose text is free: brackets inside mean nothing
const FREE: &[&str] = &["TWIG_LITERAL_STRING_INNER", "TWIG_COMMENT"];

struct B<'a> {
    f: &'a Facts,
    pm: &'a mut PModel,
    n: u8,
}

impl B<'_> {
    fn kind(&self, k: &str) -> usize {
        self.f.kind(k)
    }
    fn bit(&mut self, kinds: &[&str]) -> u8 {
        let b = self.fresh();
        for k in kinds {
            let i = self.kind(k);
            assert!(self.pm.kbit[i] == 255, "{k} has two roles");
            self.pm.kbit[i] = b;
        }
        b
    }
    fn fresh(&mut self) -> u8 {
        let b = self.n;
        self.n += 1;
        assert!(b < 128);
        b
    }
    fn req(&mut self, k: &str, label: &str, lits: Vec<Lit>) {
        let k = self.kind(k);
        match self.pm.req.iter_mut().find(|r| r.0 == k) {
            Some(r) => r.1.push((label.into(), lits)),
            None => self.pm.req.push((k, vec![(label.into(), lits)])),
        }
    }
    fn prop(&mut self, k: &str, bits: &[u8]) {
        let k = self.kind(k);
        let b = bits.iter().fold(0u128, |a, b| a | 1 << b);
        self.pm.propagate.push((k, b));
    }
}

pub fn install(f: &Facts, pm: &mut PModel) {
    use Lit::*;
    pm.kbit = vec![255; f.kinds.len()];
    let mut b = B { f, pm, n: 0 };
    let open = b.bit(&["TK_CURLY_PERCENT", "TK_CURLY_PERCENT_MINUS", "TK_CURLY_PERCENT_TILDE"]);
    let close = b.bit(&["TK_PERCENT_CURLY", "TK_MINUS_PERCENT_CURLY", "TK_TILDE_PERCENT_CURLY"]);
    for t in TAGS {
        b.req(t, "opening {%", vec![Must(open)]);
        b.req(t, "closing %}", vec![Must(close)]);
    }
    let vo = b.bit(&["TK_OPEN_CURLY_CURLY", "TK_OPEN_CURLY_CURLY_MINUS", "TK_OPEN_CURLY_CURLY_TILDE"]);
    let vc = b.bit(&["TK_CLOSE_CURLY_CURLY", "TK_MINUS_CLOSE_CURLY_CURLY", "TK_TILDE_CLOSE_CURLY_CURLY"]);
    b.req("TWIG_VAR", "opening {{", vec![Must(vo)]);
    b.req("TWIG_VAR", "closing }}", vec![Must(vc)]);
    let co = b.bit(&["TK_OPEN_CURLY_HASHTAG", "TK_OPEN_CURLY_HASHTAG_MINUS", "TK_OPEN_CURLY_HASHTAG_TILDE"]);
    let cc = b.bit(&["TK_HASHTAG_CLOSE_CURLY", "TK_MINUS_HASHTAG_CLOSE_CURLY", "TK_TILDE_HASHTAG_CLOSE_CURLY"]);
    let ho = b.bit(&["TK_LESS_THAN_EXCLAMATION_MARK_MINUS_MINUS"]);
    let hc = b.bit(&["TK_MINUS_MINUS_GREATER_THAN"]);
    b.req("TWIG_COMMENT", "opening {#", vec![Must(co)]);
    b.req("TWIG_COMMENT", "closing #}", vec![Must(cc)]);
    b.req("HTML_COMMENT", "opening <!--", vec![Must(ho)]);
    b.req("HTML_COMMENT", "closing -->", vec![Must(hc)]);
    for k in ["LUDTWIG_DIRECTIVE_FILE_IGNORE", "LUDTWIG_DIRECTIVE_IGNORE"] {
        b.req(k, "closing delimiter", vec![Must(cc), Must(hc)]);
        b.req(k, "closing delimiter of the opened kind", vec![Must(co), Must(hc)]);
        b.req(k, "closing delimiter of the opened kind", vec![Must(ho), Must(cc)]);
    }
    // HTML
    let lt = b.bit(&["TK_LESS_THAN"]);
    let gt = b.bit(&["TK_GREATER_THAN"]);
    let lts = b.bit(&["TK_LESS_THAN_SLASH"]);
    let sgt = b.bit(&["TK_SLASH_GREATER_THAN"]);
    let hend = b.bit(&["HTML_ENDING_TAG"]);
    let hstart = b.bit(&["HTML_STARTING_TAG"]);
    let void = b.fresh();
    b.pm.void_bit = void;
    b.req("HTML_STARTING_TAG", "opening <", vec![Must(lt)]);
    b.req("HTML_STARTING_TAG", "closing >", vec![Must(gt), Must(sgt)]);
    b.req("HTML_ENDING_TAG", "opening </", vec![Must(lts)]);
    b.req("HTML_ENDING_TAG", "closing >", vec![Must(gt)]);
    b.req("HTML_TAG", "start tag", vec![Must(hstart)]);
    b.req("HTML_TAG", "end tag", vec![Must(hend), Must(sgt), Must(void)]);
    b.prop("HTML_STARTING_TAG", &[sgt, void]);
    b.req("HTML_DOCTYPE", "closing >", vec![Must(gt)]);
    // strings
    let dq = b.bit(&["TK_DOUBLE_QUOTES"]);
    let sq = b.bit(&["TK_SINGLE_QUOTES"]);
    let (dq2, sq2) = (b.fresh(), b.fresh());
    b.pm.twice = vec![(dq, dq2), (sq, sq2)];
    b.req("TWIG_LITERAL_STRING", "closing quote", vec![Must(dq2), Must(sq2)]);
    b.req("HTML_STRING", "closing double quote", vec![NotMay(dq), Must(dq2)]);
    b.req("HTML_STRING", "closing single quote", vec![NotMay(sq), Must(sq2)]);
    // brackets
    for (name, o, c) in [
        (")", "TK_OPEN_PARENTHESIS", "TK_CLOSE_PARENTHESIS"),
        ("]", "TK_OPEN_SQUARE", "TK_CLOSE_SQUARE"),
        ("}", "TK_OPEN_CURLY", "TK_CLOSE_CURLY"),
    ] {
        let (o, c) = (b.bit(&[o]), b.bit(&[c]));
        let label = format!("closing {name}");
        for k in f.kinds.iter().filter(|k| (k.starts_with("TWIG_") || k.starts_with("SHOPWARE_")) && !FREE.contains(&k.as_str())) {
            b.req(k, &label, vec![NotMay(o), Must(c)]);
        }
    }
    // constructs with an end tag
    for (k, end, kw) in PAIRED {
        let e = b.bit(&[end]);
        b.req(k, "end tag", vec![Must(e)]);
        if !kw.is_empty() {
            let w = b.bit(&[kw]);
            b.req(end, "matching end keyword", vec![Must(w)]);
        }
    }
    let (em, sem, eem, esem) = (b.bit(&["TK_EMBED"]), b.bit(&["TK_SW_EMBED"]), b.bit(&["TK_ENDEMBED"]), b.bit(&["TK_SW_END_EMBED"]));
    b.prop("TWIG_EMBED_STARTING_BLOCK", &[em, sem]);
    b.prop("TWIG_EMBED_ENDING_BLOCK", &[eem, esem]);
    b.req("TWIG_EMBED", "start keyword", vec![Must(em), Must(sem)]);
    b.req("TWIG_EMBED", "matching end keyword", vec![Must(sem), Must(eem)]);
    b.req("TWIG_EMBED", "matching end keyword", vec![Must(em), Must(esem)]);
    // a block may have a value instead of a body, an assignment likewise
    let (bend, kw) = (b.bit(&["TWIG_ENDING_BLOCK"]), b.bit(&["TK_ENDBLOCK"]));
    let ex = b.bit(&["TWIG_EXPRESSION"]);
    b.prop("TWIG_STARTING_BLOCK", &[ex]);
    b.req("TWIG_BLOCK", "end tag", vec![Must(bend), Must(ex)]);
    b.req("TWIG_ENDING_BLOCK", "matching end keyword", vec![Must(kw)]);
    let (send, kw) = (b.bit(&["TWIG_ENDSET_BLOCK"]), b.bit(&["TK_ENDSET"]));
    let eq = b.bit(&["TK_EQUAL"]);
    b.prop("TWIG_ASSIGNMENT", &[eq]);
    b.prop("TWIG_SET_BLOCK", &[eq]);
    b.req("TWIG_SET", "end tag", vec![Must(send), Must(eq)]);
    b.req("TWIG_ENDSET_BLOCK", "matching end keyword", vec![Must(kw)]);
}
