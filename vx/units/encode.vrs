//@ props C01 C02 C06 C08
//@ include enc_spec.rs
//@ extract htmltools.rs fn encode_html -> r
//@ attr #[verifier::rlimit(50)]
//@ spec
    ensures r@ == enc(text@, quotes, line_spacers)
//@ nloops 1
//@ before loop 1
    proof {
    assert(forall|c: char| pattern@.contains(c) <==> #[trigger] special(c, quotes, line_spacers)) by {
      assert(pattern@[0] == '&' && pattern@[1] == '<' && pattern@[2] == '>');
      if quotes { assert(pattern@[3] == '"' && pattern@[4] == '\''); 
      if line_spacers { assert(pattern@[5] == '\n' && pattern@[6] == '\r' && pattern@[7] == '\t'); } }
      else if line_spacers { assert(pattern@[3] == '\n' && pattern@[4] == '\r' && pattern@[5] == '\t'); }
    }
    assert(enc(text@.subrange(0, 0), quotes, line_spacers) =~= seq![]);
    }
//@ loop 1
      invariant
        leftover@.len() <= text@.len(),
        leftover@ == text@.subrange(text@.len() - leftover@.len(), text@.len() as int),
        result@ == enc(text@.subrange(0, text@.len() - leftover@.len()), quotes, line_spacers),
        forall|c: char| pattern@.contains(c) <==> #[trigger] special(c, quotes, line_spacers),
      ensures forall|j: int| 0 <= j <= leftover@.len() ==> !pat_at(pattern, leftover@, j),
      decreases leftover@.len()
//@ loop 1 start
        let ghost l0 = leftover@; let ghost k = cidx(l0, sep_index as int); let ghost n = text@.len() - l0.len();
        proof { 
          assert(special(l0[k], quotes, line_spacers));
          lemma_ascii_step(l0, k);
          assert forall|i: int| 0 <= i < k implies !special(#[trigger] l0[i], quotes, line_spacers) by { assert(!pat_at(pattern, l0, i)); }
          lemma_enc_step(l0, k, quotes, line_spacers);
          lemma_enc_cat(text@.subrange(0, n), l0.subrange(0, k + 1), quotes, line_spacers);
          assert(text@.subrange(0, n + k + 1) =~= text@.subrange(0, n) + l0.subrange(0, k+1));
          lemma_enc_lits(); axiom_str_ext("&"); axiom_str_ext("<"); axiom_str_ext(">"); axiom_str_ext("\""); axiom_str_ext("'"); axiom_str_ext("\n"); axiom_str_ext("\r"); axiom_str_ext("\t");
        }
//@ after let sep
        assert(sep@ =~= seq![l0[k]]);
//@ after let replacement
        assert(replacement@ =~= entity(l0[k]));
//@ loop 1 end
        assert(leftover@ =~= text@.subrange(n + k + 1, text@.len() as int));
        assert(result@ =~= enc(text@.subrange(0, n + k + 1), quotes, line_spacers));
//@ end-hint
    proof { 
       let n = text@.len() - leftover@.len();
       assert forall|i: int| 0 <= i < leftover@.len() implies !special(#[trigger] leftover@[i], quotes, line_spacers) by { assert(!pat_at(pattern, leftover@, i)); }
       lemma_enc_plain(leftover@, quotes, line_spacers);
       lemma_enc_cat(text@.subrange(0, n), leftover@, quotes, line_spacers);
       assert(text@ =~= text@.subrange(0, n) + leftover@);
    }
//@ end
