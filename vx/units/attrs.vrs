//@ props C01 C02 C05 C08
//@ include enc_spec.rs attr_spec.rs
//@ extract htmltools.rs fn quoteattr -> r
//@ spec
    ensures quoted(r@), r@ == qattr(data@)
//@ entry
    proof { lemma_qattr(data@); }
//@ after let data
    proof { axiom_repl_char(data@, '"', "&quot;"@); lemma_enc_lits();
       assert forall|c: char| #[trigger] has(data@, c) == (exists|k: int| 0 <= k <= data@.len() && #[trigger] pat_at(c, data@, k)) by { lemma_has(data@, c); } 
       assert(forall|q: char, s: Seq<char>| #[trigger] wrap(q, s) =~= seq![q] + s + seq![q]); }
//@ end
//@ extract htmltools.rs fn is_valid_attribute_char -> r
//@ spec
    ensures r == valid_attr_char(c)
//@ end
//@ extract htmltools.rs fn join_html_attributes
//@ nloops 1
//@ rewrite let valid_attrs = attributes\.iter\(\)\.filter\(\|\(name, _\)\| (.*?)\);\s*for \((\w+), (\w+)\) in valid_attrs \{(.*?)\n    \} ==> for vx_a in vx_it: attributes.iter() { let (name, _) = vx_a; if \1 { let (\2, \3) = vx_a; \4 } }
//@ spec
    ensures final(result)@ == old(result)@ + joined(attributes@, attributes@.len() as int)
//@ loop 1
      invariant result@ == old(result)@ + joined(attributes@, vx_it.index@)
//@ end
#[verifier::external_body]
fn encode_html(text: &str, quotes: bool, line_spacers: bool) -> (r: String) ensures r@ == enc(text@, quotes, line_spacers) { unimplemented!() }
trait AsOptionStr { spec fn os(&self) -> Option<Seq<char>>; fn as_option_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.os() == Some(s@), None => self.os() is None }; }
//@ extract htmltools.rs fn generate_tag -> r
//@ spec
    ensures r@ == tag_text(tag.os(), match content { Some(c) => Some(c@), None => None }, attributes@)
//@ entry
    proof { reveal_strlit("<"); reveal_strlit("</"); reveal_strlit(" />"); reveal_strlit(""); }
//@ end
