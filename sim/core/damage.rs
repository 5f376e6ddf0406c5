//! Faults on the stored text: what short reads, torn, lost, stale, misdirected and flipped writes leave behind.
use crate::prng::Rng;

pub const KINDS: [&str; 14] = ["cut", "bit_flip", "nul", "lost_chars", "duplicated_block", "swapped_blocks", "replaced_char", "inserted_char", "zeroed_block", "stale_block", "misdirected_block", "repeated_char", "lost_line", "long_run"];
pub const CHARS: &str = "\n\n\r\t \\'\"\"'#()[]{}:;,.=+-*/<>!@%&|^~?$`0189_abxXoOeEjJrfRF\u{0}\u{7f}\u{80}é変\u{feff}\u{c}\u{b}\u{a0}\u{2028}ﬁＡİ𝐱ª１\u{301}\u{200d}\u{85}\u{3000}\u{1F600}";

/// [kind, pos, len, val] -- all taken modulo the current length, so that shrinking stays meaningful.
pub fn apply(text: &str, ops: &[Vec<i64>]) -> String {
    let orig: Vec<char> = text.chars().collect();
    let mut c = orig.clone();
    let table: Vec<char> = CHARS.chars().collect();
    for o in ops {
        let g = |i: usize| o.get(i).copied().unwrap_or(0).max(0) as usize;
        if c.is_empty() && g(0) != 7 { continue }
        let n = c.len();
        let p = if n == 0 { 0 } else { g(1) % (n + 1) };
        let q = p.min(n.saturating_sub(1));
        let l = g(2).min(n - p);
        match g(0) {
            0 => c.truncate(p),
            1 => { let x = c[q] as u32 ^ (1 << (g(3) % 8)); if let Some(x) = char::from_u32(x) { c[q] = x } }
            2 => c[q] = '\0',
            3 => { c.drain(p..p + l); }
            4 => { let b: Vec<char> = c[p..p + l].to_vec(); for (i, x) in b.into_iter().enumerate() { c.insert(p + l + i, x) } }
            5 => { let r = (p + l + g(3)).min(n); let l2 = l.min(n - r); let a: Vec<char> = c[p..p + l].to_vec(); let b: Vec<char> = c[r..r + l2].to_vec(); let mut d = c[..p].to_vec(); d.extend(&b); d.extend(&c[p + l..r]); d.extend(&a); d.extend(&c[r + l2..]); c = d }
            6 => c[q] = table[g(3) % table.len()],
            7 => c.insert(p, table[g(3) % table.len()]),
            8 => for i in p..p + l { c[i] = '\0' },
            9 => for i in p..p + l { if i < orig.len() { c[i] = orig[i] } },
            10 => { let r = g(3) % (n + 1); for i in 0..l { if p + i < n && r + i < n { let x = orig.get(r + i).copied().unwrap_or(' '); c[p + i] = x } } }
            11 => { let x = c[q]; for _ in 0..(g(2) % 40) { c.insert(q, x) } }
            13 => {
                // a long run of one character (none that nests)
                let x = if g(3) % 4 == 0 { c[q] } else { [' ', '\t', '\n', 'a', '0', '_', 'é', '"', ',', ';', '#', '\\', '.', '='][g(3) / 4 % 14] };
                let x = if "([{-+~*".contains(x) { ' ' } else { x };
                let k = [255, 256, 257, 300, 512, 1000, 1025][g(2) % 7];
                let tail: Vec<char> = c.split_off(p);
                c.extend(std::iter::repeat(x).take(k));
                c.extend(tail);
            }
            _ => { let s = c[..p].iter().rposition(|x| *x == '\n').map(|i| i + 1).unwrap_or(0); let e = c[p..].iter().position(|x| *x == '\n').map(|i| p + i + 1).unwrap_or(n); c.drain(s..e); }
        }
    }
    c.into_iter().collect()
}

/// Positions worth hitting: inside strings, comments, numbers, operators and at line starts, not just anywhere.
fn place(r: &mut Rng, c: &[char]) -> usize {
    if c.is_empty() { return 0 }
    if r.chance(1, 3) { return r.below(c.len() + 1) }
    let want: &[char] = match r.below(7) { 0 => &['\'', '"'], 1 => &['\n', '\r'], 2 => &['\\'], 3 => &['(', '[', '{', ')', ']', '}'], 4 => &['#'], 5 => &['0', '1', '.', 'e', 'x', '_'], _ => &['=', '<', '>', '*', '/', '!', ':'] };
    let s = r.below(c.len());
    for i in 0..c.len().min(400) { let k = (s + i) % c.len(); if want.contains(&c[k]) { return (k + r.below(3)).min(c.len()) } }
    s
}

pub fn random(r: &mut Rng, text: &str, max: usize, allow: &[usize]) -> Vec<Vec<i64>> {
    let c: Vec<char> = text.chars().collect();
    let n = r.heavy(max);
    (0..n).map(|_| { let k = match *r.pick(allow) { 13 if !r.chance(1, 3) => 11, k => k }; let p = place(r, &c); let l = r.heavy(30); vec![k as i64, p as i64, l as i64, r.below(4096) as i64] }).collect()
}

pub const ALL: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
