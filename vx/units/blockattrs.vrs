//@ props C05 C02 C08
//@ include enc_spec.rs attr_spec.rs map_spec.rs regex.rs
//@ extract block.rs struct BlockHtmlAttributes
//@ end
impl BlockHtmlAttributes { 
    spec fn wf(&self) -> bool { sorted(self.0@) }
}
//@ extract block.rs impl BlockHtmlAttributes fn insert
//@ rewrite self\.0\.binary_search_by_key\(&(\w+), \|item\| &item\.0\) ==> vx_bsearch(&self.0, \1)
//@ rewrite \b(\w+)\.into\(\) ==> String::from(\1)
//@ rewrite self\.0\[index\]\.1 = value; ==> self.0[index].1 = value; proof { lemma_set(a0, self.0@, index as int); }
//@ rewrite self\.0\.insert\(insertion_index, (.*?)\); ==> self.0.insert(insertion_index, \1); proof { lemma_ins(a0, self.0@, insertion_index as int, self.0@[insertion_index as int]); }
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), upd(old(self).0@, final(self).0@, key@, value@)
//@ entry
    let ghost a0 = self.0@;
//@ end
//@ extract block.rs impl BlockHtmlAttributes fn insert_css_class -> r
//@ rewrite self\.0\.binary_search_by_key\(&(\"?\w+\"?), \|item\| &item\.0\) ==> vx_bsearch(&self.0, \1)
//@ rewrite ([\w"]+)\.into\(\) ==> String::from(\1)
//@ rewrite let content = &mut self\.0\[index\]\.1;(.*?content\.push_str\(trimmed_name\)) ==> proof { lemma_sorted_distinct(a0); lemma_val(a0, index as int); } let content = &mut self.0[index].1; \1; proof { assert(self.0@[index as int].1@ =~= a0[index as int].1@ + seq![' '] + trimmed_name@); lemma_set(a0, self.0@, index as int); }
//@ rewrite self\.0\.insert\(\s*insertion_index,(.*?)\);\n ==> self.0.insert(insertion_index, \1); proof { lemma_absent(a0, "class"@, insertion_index as int); lemma_ins(a0, self.0@, insertion_index as int, self.0@[insertion_index as int]); }
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), !r ==> final(self).0@ == old(self).0@,
       r ==> upd(old(self).0@, final(self).0@, "class"@, match aget(old(self).0@, "class"@) { Some(c) => c + seq![' '] + trimmed(name.sview()), None => trimmed(name.sview()) })
//@ entry
    let ghost a0 = self.0@;
//@ end
//@ extract block.rs impl BlockHtmlAttributes trait ToString fn to_string -> r
//@ header impl ToString for ==> impl
//@ spec
    ensures r@ == joined_all(self.0@, self.0@.len() as int)
//@ iter 1 vx_it
//@ loop 1
      invariant result@ == joined_all(self.0@, vx_it.index@)
//@ end
#[verifier::external_body]
fn quoteattr(data: &str) -> (r: String) ensures quoted(r@), r@ == qattr(data@) { unimplemented!() }
//@ extract block.rs impl BlockHtmlAttributes trait AddAssign fn add_assign
//@ header impl std::ops::AddAssign<.*> for ==> impl
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), match rhs.1 { Some(v) => upd(old(self).0@, final(self).0@, rhs.0@, v@), None => final(self).0@ == old(self).0@ }
//@ end
//@ extract block.rs struct BlockAttributes
//@ end
impl BlockHtmlAttributes {
#[verifier::external_body] fn default() -> (r: Self) ensures r.0@.len() == 0 { unimplemented!() } // #[derive(Default)] of a tuple struct around a Vec
}
//@ extract block.rs impl BlockAttributes fn html_attrs -> r
//@ rewrite chunks \+= (\(.*?\)); ==> chunks.add_assign(\1);
//@ spec
    ensures sorted(r.0@), names_distinct(r.0@),
        forall|k: Seq<char>| #[trigger] aget(r.0@, k) == (
            if k == "class"@ { ov(self.class) } else if k == "colspan"@ { ov(self.colspan) } else if k == "id"@ { ov(self.id) } else if k == "lang"@ { ov(self.lang) }
            else if k == "rowspan"@ { ov(self.rowspan) } else if k == "span"@ { ov(self.span) } else if k == "style"@ { ov(self.style) } else if k == "width"@ { ov(self.width) } else { None })
//@ entry
    proof { reveal_strlit("class"); reveal_strlit("colspan"); reveal_strlit("id"); reveal_strlit("lang"); reveal_strlit("rowspan"); reveal_strlit("span"); reveal_strlit("style"); reveal_strlit("width"); }
//@ after let chunks
    assert(forall|k: Seq<char>| aget(chunks.0@, k) is None);
//@ end-hint
    proof { lemma_sorted_distinct(chunks.0@);
      assert("class"@.len() == 5 && "colspan"@.len() == 7 && "id"@.len() == 2 && "lang"@.len() == 4 && "rowspan"@.len() == 7 && "span"@.len() == 4 && "style"@.len() == 5 && "width"@.len() == 5);
      assert("class"@[0] == 'c' && "colspan"@[0] == 'c' && "lang"@[0] == 'l' && "rowspan"@[0] == 'r' && "span"@[0] == 's' && "style"@[0] == 's' && "width"@[0] == 'w'); }
//@ end
