//@ props C07 C08
//@ include br_spec.rs
//@ extract parser.rs fn insert_brs -> r
//@ rewrite text\.match_indices\('\\n'\)\.count\(\) ==> vx_count(text, '\\n')
//@ rewrite Cow<'c, str> ==> String
//@ rewrite text\.into\(\) ==> text.to_owned()
//@ rewrite output\.into\(\) ==> output
//@ rewrite (text\[[^\]]*\])\s*\.starts_with\(\|c\| (.*?)\); ==> vx_starts_with(&\1, |c: char| -> (b: bool) ensures b == (char_ws(c) || c == '|') { \2 });
//@ rewrite STOP_PREFIXES\.iter\(\)\.any\(\|p\| \{(.*?)\n                    \}\); ==> { let mut vx_any = false; for p in STOP_PREFIXES.iter() { let ghost va0 = vx_any; if {\1 } { vx_any = true; } proof { let i = vx_it.index@; assert(p@ == STOP_PREFIXES@[i]@); assert(vx_any == (va0 || stop_at(text@, k0 + k, STOP_PREFIXES@[i]@))); } } proof { let s = STOP_PREFIXES@; let t = text@; let kk = k0 + k; assert(vx_any == (stop_at(t, kk, s[0]@) || stop_at(t, kk, s[1]@) || stop_at(t, kk, s[2]@) || stop_at(t, kk, s[3]@) || stop_at(t, kk, s[4]@) || stop_at(t, kk, s[5]@))); assert(vx_any == stop_before(t, kk)); } vx_any };
//@ rewrite output \+= (.*?); ==> output.push_str(\1);
//@ rewrite return text\.to_owned\(\) ==> { proof { lemma_brs_plain(text@, br@, 0, text@.len() as int); assert(text@.subrange(0, text@.len() as int) =~= text@); assert(with_brs(text@, br@, 0) =~= seq![]); assert(seq![] + text@ =~= text@); } return text.to_owned() }
//@ rewrite let mut output = ==> proof { assert(num_newlines * br.spec_bytes().len() <= text@.len() * br.spec_bytes().len()) by(nonlinear_arith) requires num_newlines <= text@.len(); } let mut output =
//@ spec
    requires text.spec_bytes().len() + text@.len() * br.spec_bytes().len() <= usize::MAX
    ensures r@ == with_brs(text@, br@, text@.len() as int)
//@ nloops 2
//@ loop 1
      invariant 
        STOP_PREFIXES@.len() == 6, forall|k: int| stop_before(text@, k) == (stop_at(text@, k, STOP_PREFIXES@[0]@) || stop_at(text@, k, STOP_PREFIXES@[1]@) || stop_at(text@, k, STOP_PREFIXES@[2]@) || stop_at(text@, k, STOP_PREFIXES@[3]@) || stop_at(text@, k, STOP_PREFIXES@[4]@) || stop_at(text@, k, STOP_PREFIXES@[5]@)),
        cb(text@, next_start as int), 
        output@ == with_brs(text@, br@, cidx(text@, next_start as int)),
      ensures cb(text@, next_start as int), ({ let k0 = cidx(text@, next_start as int); let u = text@.subrange(k0, text@.len() as int); forall|j: int| 0 <= j <= u.len() ==> !#[trigger] pat_at('\n', u, j) })
      decreases text.spec_bytes().len() - next_start
//@ loop 1 start
      let ghost k0 = cidx(text@, next_start as int);
      let ghost u = text@.subrange(k0, text@.len() as int);
      let ghost k = cidx(u, rel_newline_pos as int);
      proof {
         lemma_shift(text@, k0, k); lemma_ascii_step(text@, k0 + k);
         assert forall|i: int| k0 <= i < k0 + k implies text@[i] != '\n' by { assert(!pat_at('\n', u, i - k0)); }
         lemma_brs_plain(text@, br@, k0, k0 + k);
         assert(pat_at('\n', u, k)); assert(text@[k0 + k] == '\n');
         assert(text.spec_bytes().len() == encode_utf8(text@).len());
      }
//@ iter 2 vx_it
//@ loop 2
      invariant abs_newline_pos == bpos(text@, k0 + k), 0 <= k0, 0 <= k, k0 + k < text@.len(), STOP_PREFIXES@.len() == 6, cb(text@, abs_newline_pos as int),
         vx_any == exists|i: int| 0 <= i < vx_it.index@ && #[trigger] stop_at(text@, cidx(text@, abs_newline_pos as int), STOP_PREFIXES@[i]@),
//@ after loop 1
    proof {
      let k0 = cidx(text@, next_start as int); let u = text@.subrange(k0, text@.len() as int);
      assert forall|j: int| k0 <= j < text@.len() implies text@[j] != '\n' by { assert(!pat_at('\n', u, j - k0)); }
      lemma_brs_plain(text@, br@, k0, text@.len() as int);
      lemma_brs_len(text@, br@, k0);
      assert(text@.subrange(0, text@.len() as int) =~= text@);
      assert(with_brs(text@, br@, 0) =~= seq![]); assert(seq![] + text@ =~= text@);
    }
//@ loop 1 end
      proof { let s = STOP_PREFIXES@; assert(text@.subrange(k0 + k + 1, text@.len() as int).len() > 0 ==> text@.subrange(k0 + k + 1, text@.len() as int)[0] == text@[k0 + k + 1]); }
      assert(output@ =~= with_brs(text@, br@, k0 + k + 1));
//@ end
