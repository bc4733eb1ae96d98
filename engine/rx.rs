//! A small backtracking regular expression matcher for the patterns found in the source (search semantics).
//! Anything it does not understand makes the whole question unanswerable (None).

#[derive(Debug, Clone)]
pub enum N {
    Chr(char),
    Any,
    Set(bool, Vec<(char, char)>),
    Seq(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, u32, u32),
    Start,
    End,
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<N> {
        let mut v = vec![self.seq()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.seq()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) })
    }
    fn seq(&mut self) -> Option<N> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let mut n = self.atom()?;
            while let Some(q) = self.peek() {
                let (a, b) = match q {
                    '*' => (0, u32::MAX),
                    '+' => (1, u32::MAX),
                    '?' => (0, 1),
                    '{' => {
                        let e = self.c[self.i..].iter().position(|c| *c == '}')? + self.i;
                        let t: String = self.c[self.i + 1..e].iter().collect();
                        self.i = e;
                        match t.split_once(',') {
                            None => {
                                let k = t.parse().ok()?;
                                (k, k)
                            }
                            Some((a, "")) => (a.parse().ok()?, u32::MAX),
                            Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
                        }
                    }
                    _ => break,
                };
                self.i += 1;
                n = N::Rep(Box::new(n), a, b);
            }
            v.push(n);
        }
        Some(N::Seq(v))
    }
    fn class_esc(c: char) -> Option<(bool, Vec<(char, char)>)> {
        Some(match c {
            'd' => (false, vec![('0', '9')]),
            'D' => (true, vec![('0', '9')]),
            'w' => (false, vec![('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')]),
            'W' => (true, vec![('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')]),
            's' => (false, vec![(' ', ' '), ('\t', '\r')]),
            'S' => (true, vec![(' ', ' '), ('\t', '\r')]),
            _ => return None,
        })
    }
    fn esc(c: char) -> Option<char> {
        Some(match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            c if c.is_ascii_alphanumeric() => return None,
            c => c,
        })
    }
    fn atom(&mut self) -> Option<N> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            '(' => {
                if self.peek() == Some('?') {
                    if self.c.get(self.i + 1) != Some(&':') {
                        return None;
                    }
                    self.i += 2;
                }
                let r = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                r
            }
            '[' => {
                let neg = self.peek() == Some('^');
                if neg {
                    self.i += 1;
                }
                let mut v = vec![];
                let mut first = true;
                loop {
                    let mut c = self.peek()?;
                    self.i += 1;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    if c == '[' || c == '&' && self.peek() == Some('&') {
                        return None;
                    }
                    if c == '\\' {
                        let e = self.peek()?;
                        self.i += 1;
                        if let Some((n, s)) = P::class_esc(e) {
                            if n {
                                return None;
                            }
                            v.extend(s);
                            continue;
                        }
                        c = P::esc(e)?;
                    }
                    if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|x| *x != ']') {
                        self.i += 1;
                        let mut d = self.peek()?;
                        self.i += 1;
                        if d == '\\' {
                            d = P::esc(self.peek()?)?;
                            self.i += 1;
                        }
                        v.push((c, d));
                    } else {
                        v.push((c, c));
                    }
                }
                N::Set(neg, v)
            }
            '^' => N::Start,
            '$' => N::End,
            '.' => N::Any,
            '\\' => {
                let e = self.peek()?;
                self.i += 1;
                match e {
                    'A' => N::Start,
                    'z' => N::End,
                    e => match P::class_esc(e) {
                        Some((n, s)) => N::Set(n, s),
                        None => N::Chr(P::esc(e)?),
                    },
                }
            }
            '*' | '+' | '?' | '{' | '}' => return None,
            c => N::Chr(c),
        })
    }
}

pub fn parse(p: &str) -> Option<N> {
    let c: Vec<char> = p.chars().collect();
    let mut x = P { c: &c, i: 0 };
    let n = x.alt()?;
    if x.i != c.len() {
        return None;
    }
    Some(n)
}

fn m(n: &N, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match n {
        N::Chr(c) => i < s.len() && s[i] == *c && k(i + 1),
        N::Any => i < s.len() && s[i] != '\n' && k(i + 1),
        N::Set(neg, v) => i < s.len() && (v.iter().any(|(a, b)| *a <= s[i] && s[i] <= *b) != *neg) && k(i + 1),
        N::Start => i == 0 && k(i),
        N::End => i == s.len() && k(i),
        N::Alt(v) => v.iter().any(|x| m(x, s, i, k)),
        N::Seq(v) => seq(v, s, i, k),
        N::Rep(x, a, b) => rep(x, *a, *b, s, i, k),
    }
}
fn seq(v: &[N], s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match v.split_first() {
        None => k(i),
        Some((x, r)) => m(x, s, i, &mut |j| seq(r, s, j, k)),
    }
}
fn rep(x: &N, a: u32, b: u32, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if a == 0 && k(i) {
        return true;
    }
    b > 0 && m(x, s, i, &mut |j| (j > i || a > 0) && rep(x, a.saturating_sub(1), if b == u32::MAX { b } else { b - 1 }, s, j, k))
}

/// does the pattern occur in the text?
pub fn is_match(p: &str, t: &str) -> Option<bool> {
    let n = parse(p)?;
    let s: Vec<char> = t.chars().collect();
    Some((0..=s.len()).any(|i| m(&n, &s, i, &mut |_| true)))
}
/// does the pattern match the whole text?
pub fn full_match(p: &str, t: &str) -> Option<bool> {
    let n = parse(p)?;
    let s: Vec<char> = t.chars().collect();
    let l = s.len();
    Some(m(&n, &s, 0, &mut |j| j == l))
}
