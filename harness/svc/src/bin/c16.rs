//! Source context: the lines around a line, trimmed
use symbolicator_service::source_context::get_context_lines;
use vp_svc::*;
/// the lines of a text: separated by LF, the CR before it is not part of the line, a last empty one does not count
fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    let n = v.len();
    let last = v[n - 1];
    let mut out: Vec<&str> = v.drain(..n - 1).map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    if !last.is_empty() { out.push(last); }
    out
}
fn floor(s: &str, mut i: usize) -> usize { if i >= s.len() { return s.len(); } while !s.is_char_boundary(i) { i -= 1; } i }
fn trimmed(l: &str, col: usize) -> String {
    let n = l.len() as i128;
    if n <= 150 { return l.into(); }
    let c = (col as i128).min(n);
    let mut a = (c - 60).max(0); if a < 5 { a = 0; }
    let mut b = (a + 140).min(n); if b > n - 5 { b = n; }
    if b == n { a = n - 140; }
    let (a, b) = (floor(l, a as usize), floor(l, b as usize));
    format!("{}{}{}", if a > 0 { "{snip} " } else { "" }, &l[a..b], if b < l.len() { " {snip}" } else { "" })
}
fn expected(s: &str, n: usize, col: usize, k: usize) -> Option<(Vec<String>, String, Vec<String>)> {
    let ls = lines(s);
    if n < 1 || n > ls.len() { return None; }
    let t = |r: &[&str]| r.iter().map(|l| trimmed(l, col)).collect::<Vec<_>>();
    Some((t(&ls[(n - 1).saturating_sub(k)..n - 1]), trimmed(ls[n - 1], col), t(&ls[n..n.saturating_add(k).min(ls.len())])))
}
fn main() {
    let mut rep = Rep::new("texts of up to 14 lines (empty, LF and CRLF, with and without a final newline, up to 400 bytes of 1 to 4 byte characters each), line numbers around both ends and huge ones, columns at every edge of the window, 0 to 20 lines of context and huge counts");
    let mut rng = rng::Rng::new(seed());
    let mut texts: Vec<String> = ["", "\n", "\r\n", "a", "a\n", "a\r\n", "a\nb", "\n\n\n", "a\r", "a\rb\nc", "\na\n", "a\n\n"].iter().map(|s| s.to_string()).collect();
    let cs = ['a', ' ', 'é', '€', '🧡', '\t', '}'];
    // lines of every length around the limits, one kind of character or mixed, moved by up to four bytes
    for c in cs { for n in [35, 36, 37, 38, 47, 49, 50, 51, 70, 74, 75, 76, 139, 140, 141, 145, 149, 150, 151, 152, 155, 156, 160, 205, 206, 300] { for p in 0..4 { texts.push("x".repeat(p) + &c.to_string().repeat(n)); } } }
    for _ in 0..if thorough() { 20000 } else { 1500 } {
        let mut s = String::new();
        let m = rng.below(14) as usize;
        for i in 0..m {
            let long = rng.below(3) == 0; let len = if long { 130 + rng.below(120) } else { rng.below(12) };
            for _ in 0..len { s.push(*rng.pick(&cs)); }
            if i + 1 < m || rng.below(2) == 0 { s.push_str(if rng.below(4) == 0 { "\r\n" } else { "\n" }); }
        }
        texts.push(s);
    }
    for s in &texts {
        let n = lines(s).len();
        let long = lines(s).iter().map(|l| l.len()).max().unwrap_or(0);
        let nos = [0, 1, 2, 3, 6, 7, n.saturating_sub(6), n.saturating_sub(1), n, n + 1, n + 2, usize::MAX, usize::MAX - 1];
        let mut cols = vec![0, 1, 59, 60, 61, 63, 64, 65, 66, 100, 140, 150, 9999, usize::MAX, usize::MAX - 59, usize::MAX - 139];
        for d in [0, 1, 60, 75, 76, 79, 80, 81, 84, 85, 86, 139, 140] { cols.push(long.saturating_sub(d)); }
        for _ in 0..3 { cols.push(rng.below(long + 3)); }
        let ks = [None, Some(0), Some(1), Some(2), Some(5), Some(n), Some(20), Some(usize::MAX), Some(usize::MAX - 1)];
        for (i, &no) in nos.iter().enumerate() { for (j, &col) in cols.iter().enumerate() {
            // every line number with every column, the number of context lines in turn
            if n > 1 && (i + j) % 3 != 0 && !thorough() { continue; }
            let k = ks[(i * 7 + j) % ks.len()];
            rep.case((s, no, col, k));
            let want = expected(s, no, col, k.unwrap_or(5));
            match guarded(|| get_context_lines(s, no, col, k)) {
                Ok(got) => if got != want { rep.fail("context", format!("get_context_lines({s:?}, {no}, {col}, {k:?}) is {got:?} instead of {want:?}")); } else { rep.sample(format!("line {no} of {n}, column {col}, {k:?} lines of context: {:?}", got.map(|g| (g.0.len(), g.1.len(), g.2.len())))); },
                Err(e) => rep.fail("panic", format!("get_context_lines({s:?}, {no}, {col}, {k:?}) panics: {e}")),
            }
        } }
    }
    rep.done();
}
