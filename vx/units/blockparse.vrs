//@ props C04 C08
//@ include style_spec.rs regex.rs
//@ extract block.rs struct BlockAttributes
//@ end
//@ extract block.rs impl BlockAttributes fn parse -> r
//@ rewrite &(\w+)\[(\d+)\] ==> \1.at(\2)
//@ rewrite \b(\w+)\[(\d+)\]\. ==> \1.at(\2).
//@ rewrite \|m\| m\.at\((\d)\)\.to_owned\(\) ==> |m: Captures| -> (s: String) requires m.wf() && m.group(\1) is Some ensures s@ == m.group(\1)->Some_0.str() { m.at(\1).to_owned() }
//@ rewrite \|m\| m\.as_str\(\)\.to_owned\(\) ==> |m: Match| -> (s: String) requires m.wf() ensures s@ == m.str() { m.as_str().to_owned() }
//@ rewrite style\.extend\((.*?)\);\n ==> vx_extend_any(&mut style);
//@ rewrite style\.join\("; "\) \+ ";" ==> vx_join_style(&style)
//@ rewrite style\.push\(format!\("(vertical-align|text-align):\{\}", (\w+)\)\); ==> style.push(format!("\1:{}", \2)); proof { assert(style@.last()@ =~= "\1:"@ + \2@); assert(generated_decl(style@.last()@)); }
//@ rewrite style\.push\(format!\("(padding-\w+):\{\}em", (.*?\.len\(\))\)\); ==> style.push(format!("\1:{}em", \2)); proof { let n = m.at_spec(1).spec_bytes().len(); lemma_dec_digits(n); assert(style@.last()@ =~= "\1:"@ + dec(n) + "em"@); assert(generated_decl(style@.last()@)); }
//@ spec
    ensures restricted ==> r.class is None && r.id is None && (r.style matches Some(s) ==> generated_style(s@)),
        r.class matches Some(s) ==> class_chars(s@), r.id matches Some(s) ==> id_chars(s@), r.lang matches Some(s) ==> lang_chars(s@),
        r.colspan matches Some(s) ==> num_chars(s@), r.rowspan matches Some(s) ==> num_chars(s@), r.span matches Some(s) ==> num_chars(s@), r.width matches Some(s) ==> num_chars(s@),
        !include_id ==> r.id is None,
//@ entry
    proof { axiom_str_ext("^"); axiom_str_ext("-"); axiom_str_ext("~"); }
//@ end-hint
    proof { if restricted && style@.len() > 0 { assert(generated_style(join_style(style@, style@.len() as int) + ";"@)); } }
//@ end
