use super::*;
use std::collections::BTreeSet;
pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str { "C11" }
    fn runs(&self, th: bool) -> u64 { if th { 1_000_000 } else { 150_000 } }
    fn rule(&self) -> &'static str { "A text - generated program or expression, then damaged by 0-4 storage faults or cut off - is given to a whole-input entry point; if it is accepted, the tokens found in the tree are compared, as a multiset, with the tokens the lexer delivers for the same text, which must hold no error. Non-trivial: the text was accepted; distinct by (text, entry point)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C11", "accept");
        let api = *r.pick(&["file", "file", "file", "eval", "functype"]);
        let m = r.heavy(5);
        let base = match api { "file" => { let s = r.u64(); let g = gen::program(s, m, 0); gen::layout(&g, &[]).text } a => { let s = r.u64(); let g = gen::expression(s, a); gen::layout(&g, &[]).text } };
        let base = if api == "file" && r.chance(1, 400) { gen::pad_text(r) + &base } else { base };
        p.text(api, &base);
        if r.chance(3, 4) { for o in damage::random(r, &base, 3, &damage::ALL) { let mut q = vec![10]; q.extend(o); p.ops.push(q) } }
        if r.chance(1, 8) { let k = r.below(base.chars().count() + 1); p.ops.push(vec![10, 0, k as i64, 0, 0]) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let ops: Vec<Vec<i64>> = ops_of(p, 10).iter().map(|o| o[1..].to_vec()).collect();
        let text = damage::apply(&t.text, &ops);
        st.hit("evaluations");
        for o in &ops { st.hit(&format!("fault_{}", damage::KINDS[o[0] as usize % damage::KINDS.len()])) }
        let g = match golden(st, &t.api, &text) { Some(g) => g, None => return Ok(()) };
        let tree = match g.out.last() { Some(s) if s.starts_with("Ok(") => s.clone(), _ => { st.hit("reach_rejected"); return Ok(()) } };
        let lx = match golden(st, "lex", &text) { Some(g) => g, None => return Ok(()) };
        st.hit(if ops.is_empty() { "reach_accepted_intact" } else { "reach_accepted_damaged" });
        st.distinct.insert(hash_bytes(format!("{}{}", t.api, text).as_bytes()));
        let ctx = |d: String| format!("{} accepts {:?}: {}", t.api, clip(&text), d);
        let mut toks = vec![];
        let mut names = BTreeSet::new();
        for s in &lx.out {
            match V::parse(s) {
                Ok(v) if s.starts_with("Ok(") => { let (_, a) = v.ctor(); names.insert(a[0].ctor().0.to_string()); toks.push(a[0].text()) }
                _ => return viol("error", ctx(format!("but the text has a lexical error: {}", clip(s)))),
            }
        }
        let v = match V::parse(&tree) { Ok(v) => v, Err(e) => { eprintln!("harness: {}", e); die(DIE_HARNESS) } };
        let mut have = vec![];
        oracle::tree_tokens(&v, &names, &mut have);
        let (mut a, mut b) = (toks.clone(), have.clone());
        a.sort();
        b.sort();
        if a != b {
            let miss: Vec<&String> = { let mut h = b.clone(); a.iter().filter(|x| { if let Some(i) = h.iter().position(|y| y == *x) { h.remove(i); false } else { true } }).collect() };
            let extra: Vec<&String> = { let mut h = a.clone(); b.iter().filter(|x| { if let Some(i) = h.iter().position(|y| y == *x) { h.remove(i); false } else { true } }).collect() };
            if let Some(m) = miss.first() { return viol("dropped", ctx(format!("the tree lacks the token {} (and {} more)", m, miss.len() - 1))) }
            return viol("invented", ctx(format!("the tree holds {} once too often (and {} more)", extra[0], extra.len() - 1)))
        }
        if st.samples.is_empty() { st.samples.push(ctx(format!("{} tokens, all in the tree", toks.len()))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: storage the text comes from, allocator, clock" }
}
