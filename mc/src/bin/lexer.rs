//! L01-L03: the DOT lexer.
use dot_parser::lexer::{Lexer, Token};
use mc::*;

// ---------------------------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Tok(Token),
    Err(usize, usize),
}

fn float_value(s: &str) -> f64 {
    // Exact when both parts are small: one correctly rounded division.
    let (a, b) = s.split_once('.').unwrap();
    let digits: String = format!("{}{}", a, b).trim_start_matches('0').to_string();
    if digits.len() <= 15 && b.len() <= 22 {
        let m: f64 = if digits.is_empty() { 0.0 } else { digits.parse::<u64>().unwrap() as f64 };
        let mut p = 1.0f64;
        for _ in 0..b.len() {
            p *= 10.0;
        }
        m / p
    } else {
        s.parse().unwrap()
    }
}

/// The language, written down again: from position `i`, the next event and the position behind it.
fn model_next(t: &[char], mut i: usize, line: &mut usize, col: &mut usize) -> Option<(Ev, usize)> {
    let mv = |from: usize, to: usize, line: &mut usize, col: &mut usize| {
        for &c in &t[from..to] {
            if c == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
    };
    while i < t.len() && t[i].is_whitespace() {
        mv(i, i + 1, line, col);
        i += 1;
    }
    if i == t.len() {
        return None;
    }
    let at = Ev::Err(*line, *col);
    let run = |mut j: usize, f: &dyn Fn(char) -> bool| {
        while j < t.len() && f(t[j]) {
            j += 1;
        }
        j
    };
    let c = t[i];
    let (ev, j) = match c {
        '=' => (Ev::Tok(Token::Equals), i + 1),
        '{' => (Ev::Tok(Token::LCurly), i + 1),
        '}' => (Ev::Tok(Token::RCurly), i + 1),
        '[' => (Ev::Tok(Token::LSquare), i + 1),
        ']' => (Ev::Tok(Token::RSquare), i + 1),
        ',' => (Ev::Tok(Token::Comma), i + 1),
        ';' => (Ev::Tok(Token::Semicolon), i + 1),
        '-' if t.get(i + 1) == Some(&'>') => (Ev::Tok(Token::Arrow), i + 2),
        'a'..='z' | 'A'..='Z' | '_' => {
            let j = run(i, &|c| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'));
            (Ev::Tok(Token::Ident(t[i..j].iter().collect())), j)
        }
        '0'..='9' => {
            let digit = |c: char| matches!(c, '0'..='9');
            let mut j = run(i, &digit);
            let mut points = 0;
            while j + 1 < t.len() && t[j] == '.' && digit(t[j + 1]) {
                points += 1;
                j = run(j + 1, &digit);
            }
            let s: String = t[i..j].iter().collect();
            let ev = match points {
                0 => {
                    let mut v: Option<i64> = Some(0);
                    for c in s.bytes() {
                        v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as i64));
                    }
                    match v {
                        Some(v) => Ev::Tok(Token::Integer(v)),
                        None => at,
                    }
                }
                1 => Ev::Tok(Token::Float(float_value(&s))),
                _ => at,
            };
            (ev, j)
        }
        '"' => {
            let mut s = String::new();
            let mut j = i + 1;
            loop {
                match t.get(j) {
                    None => break (at, j),
                    Some('"') => break (Ev::Tok(Token::String(s)), j + 1),
                    Some('\\') => match t.get(j + 1) {
                        None => break (at, j + 1),
                        Some('n') => {
                            s.push('\n');
                            j += 2
                        }
                        Some('t') => {
                            s.push('\t');
                            j += 2
                        }
                        Some('r') => {
                            s.push('\r');
                            j += 2
                        }
                        Some(&c) => {
                            s.push('\\');
                            s.push(c);
                            j += 2
                        }
                    },
                    Some(&c) => {
                        s.push(c);
                        j += 1
                    }
                }
            }
        }
        _ => (at, i + 1),
    };
    mv(i, j, line, col);
    Some((ev, j))
}

fn events(t: &[char]) -> Vec<Ev> {
    let (mut line, mut col, mut i) = (1, 1, 0);
    let mut out = vec![];
    while let Some((ev, j)) = model_next(t, i, &mut line, &mut col) {
        out.push(ev);
        i = j;
    }
    out
}

fn same(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Float(x), Token::Float(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

/// Runs the lexer over the text to its end, through every error, beside `want`.
fn compare(text: &str, want: &[Ev], o: &mut Obs) -> CheckResult {
    let mut lx = Lexer::new(text);
    let mut errs = vec![];
    for (k, ev) in want.iter().enumerate() {
        let before = lx.errors().len();
        let got = if k % 2 == 0 { lx.next() } else { Iterator::next(&mut lx) };
        o.step();
        let new = lx.errors().len() - before;
        match ev {
            Ev::Tok(t) => {
                ensure!(got.as_ref().map_or(false, |g| same(g, t)), "{:?}: request {} gave {:?}, expected {:?}", text, k, got, t);
                ensure!(new == 0, "{:?}: request {} gave {:?} and recorded an error", text, k, got);
            }
            Ev::Err(l, c) => {
                ensure!(got.is_none(), "{:?}: request {} gave {:?}, expected an error at ({}, {})", text, k, got, l, c);
                ensure!(new == 1, "{:?}: request {} recorded {} errors, expected one at ({}, {})", text, k, new, l, c);
                errs.push((*l, *c));
            }
        }
        ensure!(lx.has_errors() == !errs.is_empty(), "{:?}: has_errors is {} after {} errors", text, lx.has_errors(), errs.len());
    }
    for k in 0..3 {
        let got = lx.next();
        o.step();
        ensure!(got.is_none(), "{:?}: goes on with {:?} behind the end (request {})", text, got, k);
        ensure!(lx.errors().len() == errs.len(), "{:?}: an error was recorded behind the end", text);
    }
    if !errs.is_empty() {
        let mut s = String::new();
        ensure!(lx.write_errors(&mut s).is_ok(), "{:?}: write_errors failed", text);
        let lines: Vec<&str> = s.lines().collect();
        ensure!(lines.len() == errs.len() && s.ends_with('\n'), "{:?}: {} errors reported as {:?}", text, errs.len(), s);
        for (l, e) in lines.iter().zip(&errs) {
            let p = format!("({}, {}): ", e.0, e.1);
            ensure!(l.starts_with(&p) && l.len() > p.len(), "{:?}: error reported as {:?}, expected at {}", text, l, p);
        }
    } else {
        let mut s = String::new();
        ensure!(lx.write_errors(&mut s).is_ok() && s.is_empty(), "{:?}: no errors, but reported {:?}", text, s);
    }
    Ok(())
}

/// An output that refuses one of its writes, and all behind it if `shut`.
struct Refusing {
    at: usize,
    shut: bool,
    taken: usize,
    got: String,
}

impl std::fmt::Write for Refusing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.taken += 1;
        if self.taken == self.at || self.shut && self.taken > self.at {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// An output that refuses one of the writes: the report fails and stops there.
fn refused(text: &str, requests: usize, o: &mut Obs) -> CheckResult {
    let mut lx = Lexer::new(text);
    for _ in 0..requests {
        lx.next();
    }
    let mut all = Refusing { at: usize::MAX, shut: false, taken: 0, got: String::new() };
    ensure!(lx.write_errors(&mut all).is_ok(), "{:?}: write_errors failed", text);
    for k in 1..=all.taken {
        if k > 16 && k + 4 <= all.taken {
            continue;
        }
        for shut in [true, false] {
            let mut w = Refusing { at: k, shut, taken: 0, got: String::new() };
            let r = lx.write_errors(&mut w);
            o.step();
            ensure!(r.is_err(), "{:?}: the output refused write {} of {}, and write_errors reports success", text, k, all.taken);
            ensure!(all.got.starts_with(&w.got), "{:?}: the output refused write {}, and holds {:?} of {:?}", text, k, w.got, all.got);
        }
    }
    Ok(())
}

/// The iterator's other ways to get at the tokens agree with `next`.
fn compare_iter(text: &str, want: &[Ev], o: &mut Obs) -> CheckResult {
    let toks: Vec<&Token> = want.iter().map_while(|e| if let Ev::Tok(t) = e { Some(t) } else { None }).collect();
    let n = toks.len();
    let new = || Lexer::new(text);
    let count = Iterator::count(new());
    ensure!(count == n, "{:?}: count is {}, expected {}", text, count, n);
    let last = Iterator::last(new());
    ensure!(last.as_ref().map_or(n == 0, |l| n > 0 && same(l, toks[n - 1])), "{:?}: last is {:?}", text, last);
    let (low, high) = new().size_hint();
    ensure!(low <= n && high.map_or(true, |h| h >= n), "{:?}: size_hint is {:?} for {} tokens", text, (low, high), n);
    let mut all = vec![];
    new().for_each(|t| all.push(t));
    let folded = new().fold(0, |k, t| if k < n && same(&t, toks[k]) { k + 1 } else { usize::MAX - 1 });
    ensure!(folded == n, "{:?}: fold went over other tokens", text);
    ensure!(all.len() == n && all.iter().zip(&toks).all(|(a, b)| same(a, b)), "{:?}: for_each gave {:?}", text, all);
    for k in [0, 1, 2, n.saturating_sub(1)] {
        // Behind an error `nth` goes on with the rest, so only up to it.
        if k >= n {
            continue;
        }
        let mut lx = new();
        let got = lx.nth(k);
        ensure!(got.as_ref().map_or(false, |g| same(g, toks[k])), "{:?}: nth({}) is {:?}", text, k, got);
        let rest: Vec<Token> = lx.by_ref().collect();
        ensure!(rest.len() == n - k - 1 && rest.iter().zip(&toks[k + 1..]).all(|(a, b)| same(a, b)), "{:?}: {:?} behind nth({})", text, rest, k);
    }
    o.step();
    Ok(())
}

/// The same from further on, and with what the iterator skips: errors are recorded all the same.
fn compare_adapters(text: &str, want: &[Ev], o: &mut Obs) -> CheckResult {
    let toks: Vec<&Token> = want.iter().map_while(|e| if let Ev::Tok(t) = e { Some(t) } else { None }).collect();
    let n = toks.len();
    let errors = (want.len() > n) as usize;
    let eq = |a: &[Token], b: &[&Token]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b));
    for first in 0..=n.min(2) {
        let start = || {
            let mut lx = Lexer::new(text);
            for _ in 0..first {
                lx.next();
            }
            lx
        };
        let rest = &toks[first..];
        let mut ks: Vec<usize> = (0..=7).chain([rest.len() / 2, rest.len().saturating_sub(1), rest.len(), rest.len() + 1]).filter(|k| *k <= rest.len() + 1).collect();
        ks.sort();
        ks.dedup();
        for k in ks {
            let mut lx = start();
            let got = lx.by_ref().nth(k);
            ensure!(got.is_some() == (k < rest.len()) && got.iter().all(|g| same(g, rest[k])), "{:?}: nth({}) after {} is {:?}, expected {:?}", text, k, first, got, rest.get(k));
            let want_errors = if k < rest.len() { 0 } else { errors };
            ensure!(lx.errors().len() == want_errors, "{:?}: {} errors recorded by nth({}) after {}, expected {}", text, lx.errors().len(), k, first, want_errors);
            if k < rest.len() {
                let r: Vec<Token> = lx.by_ref().collect();
                ensure!(eq(&r, &rest[k + 1..]), "{:?}: {:?} behind nth({}) after {}", text, r, k, first);
                ensure!(lx.errors().len() == errors, "{:?}: {} errors recorded in the end, expected {}", text, lx.errors().len(), errors);
                let r: Vec<Token> = start().skip(k).collect();
                ensure!(eq(&r, &rest[k..]), "{:?}: skip({}) after {} gives {:?}", text, k, first, r);
            }
            let mut lx = start();
            let r: Vec<Token> = lx.by_ref().take(k).collect();
            ensure!(eq(&r, &rest[..k.min(rest.len())]), "{:?}: take({}) after {} gives {:?}", text, k, first, r);
            if k <= rest.len() {
                let r: Vec<Token> = lx.collect();
                ensure!(eq(&r, &rest[k..]), "{:?}: {:?} behind take({}) after {}", text, r, k, first);
            }
            o.step();
        }
        for step in 2..4 {
            let r: Vec<Token> = start().step_by(step).collect();
            let w: Vec<&Token> = rest.iter().step_by(step).cloned().collect();
            ensure!(eq(&r, &w), "{:?}: step_by({}) after {} gives {:?}", text, step, first, r);
        }
        let mut lx = start();
        let c = lx.by_ref().count();
        ensure!(c == rest.len() && lx.errors().len() == errors, "{:?}: count after {} is {} with {} errors, expected {} with {}", text, first, c, lx.errors().len(), rest.len(), errors);
        let last = start().last();
        ensure!(last.is_some() == !rest.is_empty() && last.iter().all(|l| same(l, rest[rest.len() - 1])), "{:?}: last after {} is {:?}", text, first, last);
        let count = Iterator::count(start());
        ensure!(count == rest.len(), "{:?}: count after {} is {}", text, first, count);
    }
    Ok(())
}

fn chars_of(case: &[i64]) -> Vec<char> {
    case.iter().map(|x| char::from_u32(*x as u32).unwrap()).collect()
}

fn by_alphabet(e: &mut Enum, fam: &'static str, alpha: &[char], len: usize) {
    for len in 0..=len {
        sequences(alpha.len() as i64, len, &mut |s| {
            if !e.mine() {
                return true;
            }
            let c: Vec<i64> = s.iter().map(|x| alpha[*x as usize] as i64).collect();
            e.emit(fam, &c);
            !e.stopped()
        });
    }
}

/// Fragments of text that other lexers give a meaning of their own: comments, other escapes and
/// literals, markup, keywords, look-alikes of digits, letters and white space.
const FRAGMENTS: [&str; 104] = [
    "//", "/*", "*/", "/", "*", "<", ">", "<!--", "-->", "<b>", "</", "#", "##", "%", "'", "'a'", "''", "`", "$x", "${x}", "@", "!", "?", "~", "^", "&", "&&", "|", "||", "&amp;", "&lt;", "&#65;",
    "&#x41;", "%41", "+", "++", "+5", "--", "->", "=>", "==", ":=", "::", ":", "<<", "(", ")", "...", ".5", "5.", "-5", "- >", "0x1F", "0b10", "0o17", "1e5", "1E+5", "1.5e3", "1.5e-3", "1.5f", "1_000",
    "1,000", "10pt", "0", "017", "graph", "digraph", "DiGraph", "DIGRAPH", "subgraph", "strict", "Strict", "node", "edge", "NODE", "NaN", "nan", "inf", "true", "null", "r\"a\"", "b\"a\"", "\"", "\"\"", "\"a\"", "\\x41",
    "\\u0041", "\\u{41}", "\\101", "\\0", "\\N", "\\G", "\\\n", "\\\r\n", "\r\n", "\n", " ", "\u{200b}", "\u{ff11}", "\u{661}", "\u{130}", "e\u{301}", "\0", "\u{1b}[0m",
];

fn by_fragments(e: &mut Enum, fam: &'static str, len: usize) {
    for len in 1..=len {
        sequences(FRAGMENTS.len() as i64, len, &mut |s| {
            if !e.mine() {
                return true;
            }
            let c: Vec<i64> = s.iter().flat_map(|x| FRAGMENTS[*x as usize].chars()).map(|c| c as i64).collect();
            e.emit(fam, &c);
            !e.stopped()
        });
    }
}

/// Every text of `len` characters up to `top`, from U+0000 or, for `len` of four, from the space.
fn ascii(e: &mut Enum, fam: &'static str, len: usize) {
    let low = if len > 3 { 32 } else { 0 };
    let high = if len > 3 { 126 } else { 127 };
    let alpha: Vec<char> = (low..=high).map(|c: u8| c as char).collect();
    sequences(alpha.len() as i64, len, &mut |s| {
        if !e.mine() {
            return true;
        }
        let c: Vec<i64> = s.iter().map(|x| alpha[*x as usize] as i64).collect();
        e.emit(fam, &c);
        !e.stopped()
    });
}

fn scalars() -> impl Iterator<Item = i64> {
    (0..0x110000i64).filter(|x| !(0xd800..0xe000).contains(x) && *x != 0xfeff)
}

// ------------------------------------------------------------------------------------------ L01

const TOKENS: i64 = 23;
fn token(i: i64) -> (&'static str, Token) {
    let id = |s: &str| Token::Ident(s.to_string());
    let st = |s: &str| Token::String(s.to_string());
    match i {
        0 => ("{", Token::LCurly),
        1 => ("}", Token::RCurly),
        2 => ("[", Token::LSquare),
        3 => ("]", Token::RSquare),
        4 => ("=", Token::Equals),
        5 => (",", Token::Comma),
        6 => (";", Token::Semicolon),
        7 => ("->", Token::Arrow),
        8 => ("a", id("a")),
        9 => ("_", id("_")),
        10 => ("Zz09_x", id("Zz09_x")),
        11 => ("e5", id("e5")),
        12 => ("_1", id("_1")),
        13 => ("0", Token::Integer(0)),
        14 => ("17", Token::Integer(17)),
        15 => ("007", Token::Integer(7)),
        16 => ("2.5", Token::Float(2.5)),
        17 => ("0.125", Token::Float(0.125)),
        18 => ("\"\"", st("")),
        19 => ("\"a b\"", st("a b")),
        20 => ("\"->{=;\"", st("->{=;")),
        21 => ("\"\\n\\\"\"", st("\n\\\"")),
        22 => ("\"é\n1.2.3 -\"", st("é\n1.2.3 -")),
        _ => unreachable!(),
    }
}

const SEPS: [&str; 12] = ["", " ", "\n", "\t", "\r\n", "  ", "\u{a0}", "\u{2003}", "\u{85}", "\u{b}", " \u{3000}\n", "\u{c}"];

fn merges(a: &Token, b: &Token) -> bool {
    let num = |t: &Token| matches!(t, Token::Integer(_) | Token::Float(_));
    let id = |t: &Token| matches!(t, Token::Ident(_));
    (id(a) && (id(b) || num(b))) || (num(a) && num(b))
}

fn l01_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "tokens" => {
            // pairs of separator and token, then a last separator
            let mut text = String::new();
            let mut want: Vec<Token> = vec![];
            for p in case[..case.len() - 1].chunks(2) {
                let (s, t) = token(p[1]);
                if p[0] == 0 && want.last().map_or(false, |l| merges(l, &t)) {
                    text.push(' ');
                }
                text.push_str(SEPS[p[0] as usize]);
                text.push_str(s);
                want.push(t);
            }
            text.push_str(SEPS[*case.last().unwrap() as usize]);
            let evs: Vec<Ev> = want.iter().cloned().map(Ev::Tok).collect();
            compare(&text, &evs, o)?;
            // The same through the iterator.
            compare_iter(&text, &evs, o)?;
            if case.len() <= 7 {
                compare_adapters(&text, &evs, o)?;
            }
            let all: Vec<Token> = Lexer::new(&text).collect();
            ensure!(all.len() == want.len() && all.iter().zip(&want).all(|(a, b)| same(a, b)), "{:?}: collected {:?}, expected {:?}", text, all, want);
            o.state(fp_str(&text));
            o.nontrivial(want.len() > 1);
            o.note(|| format!("{:?}", text));
        }
        "space" => {
            // a white space character at each place of a small text
            let c = char::from_u32(case[0] as u32).unwrap();
            let text = format!("{}a{}->{}1{}{}2.5{}\"x\"{}", c, c, c, c, c, c, c);
            let want = [Token::Ident("a".into()), Token::Arrow, Token::Integer(1), Token::Float(2.5), Token::String("x".into())];
            compare(&text, &want.map(Ev::Tok), o)?;
            o.state(fp_str(&text));
            o.nontrivial(true);
        }
        "longest" => {
            // an identifier or number of a given length, and what stops it
            let (n, kind, stop) = (case[0] as usize, case[1], case[2]);
            let (s, t) = match kind {
                0 => {
                    let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                    (s.clone(), Token::Ident(s))
                }
                1 => {
                    let s: String = (0..n).map(|i| if i == 0 { 'Q' } else { (b'0' + (i % 10) as u8) as char }).collect();
                    (s.clone(), Token::Ident(s))
                }
                2 => {
                    let s: String = (0..n).map(|i| if i % 3 == 1 { 'é' } else { '\n' }).collect();
                    (format!("\"{}\"", s), Token::String(s))
                }
                _ => (format!("{}1", "0".repeat(n - 1)), Token::Integer(1)),
            };
            let (st, tt) = token(stop);
            if merges(&t, &tt) {
                return Ok(());
            }
            compare(&format!("{}{}", s, st), &[Ev::Tok(t), Ev::Tok(tt)], o)?;
            o.state(fp_str(&s));
            o.nontrivial(n > 1);
        }
        "many" => {
            // n tokens of one kind or of all in turn, with little or much white space between
            let (n, kind, gap) = (case[0], case[1], case[2]);
            let mut text = String::new();
            let mut want: Vec<Ev> = vec![];
            let mut last = None;
            for i in 0..n {
                let (s, t) = token(if kind < 0 { i % TOKENS } else { kind });
                if gap == 0 && last.as_ref().map_or(false, |l| merges(l, &t)) {
                    text.push('\n');
                }
                for k in 0..gap {
                    text.push_str(SEPS[1 + (k % 3) as usize]);
                }
                text.push_str(s);
                last = Some(t.clone());
                want.push(Ev::Tok(t));
            }
            compare(&text, &want, o)?;
            compare_adapters(&text, &want, o)?;
            o.state(fp_str(&text));
            o.nontrivial(n > 1);
            o.note(|| text.clone());
        }
        _ => {
            // any text; if it is free of errors, it must tokenise as the model says
            let t = chars_of(case);
            let want = events(&t);
            let text: String = t.iter().collect();
            o.state(fp_str(&text));
            if want.iter().all(|e| matches!(e, Ev::Tok(_))) {
                o.nontrivial(want.len() > 1);
                compare(&text, &want, o)?;
                if fam == "words" {
                    compare_iter(&text, &want, o)?;
                }
            }
        }
    }
    Ok(())
}

const BROAD: [char; 19] = ['a', '1', ' ', '.', '-', '>', '"', '\\', 'n', '_', '0', '\n', '{', '=', ';', 'é', '#', '\u{2003}', '\u{1d11e}'];

fn l01_enum(e: &mut Enum) {
    for len in 0..=3usize {
        let seps: &[i64] = if len <= 2 { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { &[0, 1, 10] };
        sequences(TOKENS, len, &mut |ts| {
            sequences(seps.len() as i64, len + 1, &mut |ss| {
                if len == 2 && ss[0] != 0 && ss[2] != 0 && ss[0] != ss[2] {
                    return true;
                }
                if !e.mine() {
                    return true;
                }
                let mut c = vec![];
                for i in 0..len {
                    c.push(seps[ss[i] as usize]);
                    c.push(ts[i]);
                }
                c.push(seps[ss[len] as usize]);
                e.emit("tokens", &c);
                true
            });
            !e.stopped()
        });
    }
    for len in 4..=e.pick(4, 5) {
        sequences(TOKENS, len, &mut |ts| {
            for sep in 0..2 {
                if !e.mine() {
                    continue;
                }
                let mut c = vec![];
                for t in ts {
                    c.push(sep);
                    c.push(*t);
                }
                c.push(0);
                e.emit("tokens", &c);
            }
            !e.stopped()
        });
    }
    for s in scalars() {
        if char::from_u32(s as u32).unwrap().is_whitespace() {
            e.emit("space", &[s]);
        }
    }
    for n in (1..=e.pick(600, 1100)).chain([1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100_000]) {
        for kind in 0..4 {
            for stop in 0..TOKENS {
                e.emit("longest", &[n, kind, stop]);
            }
        }
    }
    for n in (1..=e.pick(130, 300)).chain([511, 512, 513, 1024, 1025]) {
        for kind in -1..TOKENS {
            for gap in [0, 1, 2, 40] {
                e.emit("many", &[n, kind, gap]);
            }
        }
    }
    for gap in [300, 1024, 65536] {
        for kind in -1..TOKENS {
            e.emit("many", &[3, kind, gap]);
        }
    }
    by_alphabet(e, "text", &BROAD, e.pick(5, 6));
    by_alphabet(e, "text", &['a', '_', '1', 'Z', '.', ' ', '"'], e.pick(8, 9));
    by_alphabet(e, "text", &['-', '>', '-', ' ', 'a', '='], e.pick(8, 9));
    by_alphabet(e, "text", &['0', '1', 'x', 'e', 'f', '.', '_', 'E', 'b', '-'], e.pick(6, 7));
    by_alphabet(e, "text", &['[', ']', '{', '}', ';', ',', '='], e.pick(7, 8));
    by_fragments(e, "words", e.pick(3, 3));
    ascii(e, "text", 3);
    if e.thorough() {
        ascii(e, "text", 4);
    }
    for c in scalars() {
        e.emit("text", &['a' as i64, c, '1' as i64]);
        e.emit("text", &['"' as i64, c, '"' as i64, 'b' as i64]);
    }
}

// ------------------------------------------------------------------------------------------ L02

/// `n` characters of one kind, then an error, a token and an unterminated string.
fn far_text(n: i64, kind: i64) -> Vec<char> {
    let mut s: Vec<char> = (0..n)
        .map(|i| match kind {
            0 => '\n',
            1 => 'é',
            2 => if i % 7 == 6 { '\n' } else { ' ' },
            4 => if i == 10 { '\n' } else { ' ' },
            5 => if i % 1000 == 999 { '\u{2003}' } else { 'z' },
            _ => if i % 5 == 4 { '#' } else { ';' },
        })
        .collect();
    s.extend("# a \"".chars());
    s
}

fn l02_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let t = if fam == "far" { far_text(case[0], case[1]) } else { chars_of(case) };
    let text: String = t.iter().collect();
    let want = events(&t);
    compare(&text, &want, o)?;
    if fam == "words" || fam == "limits" || fam == "errors" {
        refused(&text, want.len(), o)?;
    }
    if fam == "words" || fam == "limits" {
        compare_adapters(&text, &want, o)?;
    }
    // The iterator stops at the first error and can be resumed.
    let mut lx = Lexer::new(&text);
    let mut k = 0;
    let mut rounds = 0;
    // A report that is asked for early or again says the same of the errors so far.
    let report = |lx: &Lexer| -> Result<String, String> {
        let mut s = String::new();
        match lx.write_errors(&mut s) {
            Ok(()) => Ok(s),
            Err(_) => Err(format!("{:?}: write_errors failed", text)),
        }
    };
    let mut early = String::new();
    loop {
        let run: Vec<Token> = lx.by_ref().collect();
        o.step();
        let m = want[k..].iter().take_while(|e| matches!(e, Ev::Tok(_))).count();
        ensure!(run.len() == m, "{:?}: after {} errors, {} tokens up to the next error or end, expected {}", text, rounds, run.len(), m);
        k += m;
        if k == want.len() {
            break;
        }
        k += 1;
        rounds += 1;
        ensure!(lx.errors().len() == rounds, "{:?}: {} errors recorded, expected {}", text, lx.errors().len(), rounds);
        if rounds <= 2 {
            let now = report(&lx)?;
            ensure!(now.lines().count() == rounds && now.starts_with(&early), "{:?}: after {} errors the report is {:?}, and was {:?}", text, rounds, now, early);
            early = now;
        }
    }
    if rounds > 0 {
        let (one, two) = (report(&lx)?, report(&lx)?);
        o.step();
        ensure!(one == two, "{:?}: reported as {:?}, and when asked again as {:?}", text, one, two);
        ensure!(one.lines().count() == rounds && one.starts_with(&early), "{:?}: reported as {:?}, after the first errors as {:?}", text, one, early);
    }
    o.state(fp_str(&text));
    o.nontrivial(rounds > 0);
    o.note(|| format!("{:?}: {:?}", text, want));
    Ok(())
}

fn l02_enum(e: &mut Enum) {
    by_fragments(e, "words", 3);
    ascii(e, "text", 3);
    if e.thorough() {
        ascii(e, "text", 4);
    }
    by_alphabet(e, "text", &['/', '*', '#', '\n', 'a', '"', '\\', '<', '>'], e.pick(6, 7));
    by_alphabet(e, "text", &BROAD, e.pick(5, 6));
    by_alphabet(e, "text", &['1', '.', '-', 'a', ' ', '0'], e.pick(8, 9));
    by_alphabet(e, "text", &['"', '\\', 'n', '\n', 'é', '#'], e.pick(8, 9));
    by_alphabet(e, "text", &['\n', '\r', 'é', '#', 'a', '\u{1d11e}', '\t'], e.pick(7, 8));
    by_alphabet(e, "text", &['-', '>', '.', '"'], e.pick(9, 10));
    for c in scalars() {
        e.emit("scalar", &[c]);
        e.emit("scalar", &['\n' as i64, c, '1' as i64, '#' as i64]);
        e.emit("scalar", &['"' as i64, c]);
        e.emit("scalar", &['1' as i64, '.' as i64, c]);
        e.emit("scalar", &['-' as i64, c, '-' as i64]);
    }
    many_errors(e);
    // Integers around the limit, malformed numbers, errors far into a text.
    for base in ["9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551616", "99999999999999999999999999", "1.2.3", "1.2.3.4", "0.0.", "1..2", "00000000000000000000009223372036854775807"] {
        for pre in ["", " ", "\n", "é ", "a ", "{\n\n  ", "\"x\ny\" "] {
            for post in ["", " ", "a", ".", "-", "#", "\n\n#", " 1 \""] {
                let c: Vec<i64> = format!("{}{}{}", pre, base, post).chars().map(|c| c as i64).collect();
                e.emit("limits", &c);
            }
        }
    }
    for n in (0..=e.pick(600, 1100)).chain([4096, 32767, 32768, 65535, 65536, 65537, 70_000, 131_071, 131_072, 131_073, 140_000, 262_145, 524_289, 1_000_003, 1_048_577]) {
        for kind in 0..6 {
            if (kind == 1 || kind == 3) && n > 2000 {
                continue; // each of these characters is an error of its own
            }
            e.emit("far", &[n, kind]);
        }
    }
}

// Texts of many errors: lone hyphens, unterminated strings do not repeat.
fn many_errors(e: &mut Enum) {
    for n in [255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 10_001] {
        for unit in ["#", "#a ", "-\n", "1.2.3 ", "é", "99999999999999999999,"] {
            if n > 3000 && unit.len() > 3 {
                continue;
            }
            let c: Vec<i64> = unit.repeat(n).chars().map(|c| c as i64).collect();
            e.emit("errors", &c);
        }
    }
}

// ------------------------------------------------------------------------------------------ L03

fn one(text: &str, want: Token, o: &mut Obs) -> CheckResult {
    compare(text, &[Ev::Tok(want)], o)
}

/// Literals, good and bad, and a few other things that stand between them.
const LITERALS: [&str; 18] = [
    "7", "0.5", "007", "12.25", "9223372036854775807", "123456.789", "\"a\"", "\"\\n\"", "\"\"", "\"\\q\\\"\"", "1.2.3", "99999999999999999999", "9.9.", "0.0.0.", "#", "-", "x", "\"1.5",
];

fn l03_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "integer" => {
            // value (as high and low halves), leading zeros
            let v = case[0] as i128 * 1_000_000_000_000 + case[1] as i128;
            let text = format!("{}{}", "0".repeat(case[2] as usize), v);
            o.state(fp_str(&text));
            o.nontrivial(v > 9);
            if v <= i64::MAX as i128 {
                one(&text, Token::Integer(v as i64), o)?;
                for after in [".", ".x", "..5", "-", "->", " .5"] {
                    let t: Vec<char> = format!("{}{}", text, after).chars().collect();
                    let s: String = t.iter().collect();
                    let evs = events(&t);
                    ensure!(evs[0] == Ev::Tok(Token::Integer(v as i64)), "the model is wrong");
                    compare(&s, &evs, o)?;
                }
            } else {
                compare(&text, &[Ev::Err(1, 1)], o)?;
            }
            o.note(|| text.clone());
        }
        "decimal" => {
            // whole part, digits of the fraction, its length
            let text = format!("{}.{:0w$}", case[0], case[1], w = case[2] as usize);
            let want = float_value(&text);
            one(&text, Token::Float(want), o)?;
            o.state(fp_str(&text));
            o.nontrivial(case[1] != 0);
            o.note(|| text.clone());
        }
        "long" => {
            // lengths and fill digits: values that need correct rounding
            let f = |n: i64, k: i64| -> String { (0..n).map(|i| (b'0' + ((i * k + k) % 10) as u8) as char).collect() };
            let text = format!("{}{}.{}", case[4], f(case[0], case[1]), f(case[2], case[3]));
            let want: f64 = text.parse().unwrap();
            one(&text, Token::Float(want), o)?;
            // A double printed with 17 significant digits is read back.
            let p = format!("{:.17e}", want);
            if want < 1e15 && want > 1e-3 {
                let plain = format!("{:.25}", want);
                one(&plain, Token::Float(want), o)?;
            }
            o.note(|| p);
            o.state(fp_str(&text));
            o.nontrivial(true);
        }
        "scaled" => {
            // digits, moved by a power of ten
            let d = case[0].to_string();
            let p = case[1];
            let text = if p <= 0 {
                // the point is before the last -p digits
                let z = "0".repeat((-p + 1 - d.len() as i64).max(0) as usize);
                let d = format!("{}{}", z, d);
                let at = (d.len() as i64 + p) as usize;
                if p == 0 { format!("{}.0", d) } else { format!("{}.{}", &d[..at], &d[at..]) }
            } else {
                format!("{}{}.{}", d, "0".repeat(p as usize), if p % 2 == 0 { "0" } else { "5" })
            };
            let want: f64 = text.parse().unwrap();
            o.state(fp_str(&text));
            o.note(|| text.clone());
            if want.is_finite() {
                one(&text, Token::Float(want), o)?;
                o.nontrivial(p != 0);
            }
        }
        "half" => {
            // half way between two doubles, in all its digits; what follows decides
            let (j, n) = (case[0] as u128, case[1] as usize);
            let odd = 2 * j + 1;
            let digits = format!("{:053}", odd * 5u128.pow(53));
            let (low, high) = (1.0 + j as f64 * f64::EPSILON, 1.0 + (j + 1) as f64 * f64::EPSILON);
            let (text, want) = match case[2] {
                0 => (format!("1.{}{}", digits, "0".repeat(n)), if j % 2 == 0 { low } else { high }),
                1 => (format!("1.{}{}1", digits, "0".repeat(n)), high),
                _ => {
                    // the last digit is a 5
                    ensure!(digits.ends_with('5'), "the model is wrong");
                    (format!("1.{}4{}", &digits[..52], "9".repeat(n)), low)
                }
            };
            one(&text, Token::Float(want), o)?;
            o.state(fp_str(&text));
            o.nontrivial(true);
            o.note(|| format!("half way above {:?}, {} more digits", low, n));
        }
        "exact" => {
            // the double with given bits, to its last decimal place, and a touch more
            let v = f64::from_bits(case[0] as u64);
            let mut text = format!("{:.1080}", v);
            one(&text, Token::Float(v), o)?;
            text.push_str("0001");
            one(&text, Token::Float(v), o)?;
            o.state(fp_i64(62, [case[0]]));
            o.nontrivial(true);
            o.note(|| format!("{:e}", v));
        }
        "string" => {
            // the characters between the quotes
            let t: Vec<char> = std::iter::once('"').chain(chars_of(case)).chain(['"']).collect();
            let text: String = t.iter().collect();
            let want = events(&t);
            compare(&text, &want, o)?;
            // Without a quote or backslash, the content is the text itself.
            if !case.contains(&34) && !case.contains(&92) {
                let s: String = chars_of(case).iter().collect();
                one(&text, Token::String(s), o)?;
            }
            o.state(fp_str(&text));
            o.nontrivial(case.contains(&92));
            o.note(|| text.clone());
        }
        "behind" => {
            // literals behind others, some of which are rejected
            let sep = ["", " ", "\n"][case[0] as usize];
            let text = case[1..].iter().map(|x| LITERALS[*x as usize]).collect::<Vec<_>>().join(sep);
            let t: Vec<char> = text.chars().collect();
            let want = events(&t);
            compare(&text, &want, o)?;
            o.state(fp_str(&text));
            o.nontrivial(want.iter().any(|e| matches!(e, Ev::Err(..))));
            o.note(|| text.clone());
        }
        "escape" => {
            let c = char::from_u32(case[0] as u32).unwrap();
            let want = match c {
                'n' => "\n".to_string(),
                't' => "\t".to_string(),
                'r' => "\r".to_string(),
                c => format!("\\{}", c),
            };
            one(&format!("\"\\{}\"", c), Token::String(want.clone()), o)?;
            one(&format!("\"x\\{}\\ny\"", c), Token::String(format!("x{}\ny", want)), o)?;
            if c != '"' && c != '\\' {
                one(&format!("\"{}\"", c), Token::String(c.to_string()), o)?;
                one(&format!("\"n{}\\n{}\"", c, c), Token::String(format!("n{}\n{}", c, c)), o)?;
            }
            o.state(fp_i64(61, [case[0]]));
            o.nontrivial(matches!(c, 'n' | 't' | 'r' | '"' | '\\'));
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn l03_enum(e: &mut Enum) {
    for v in 0..e.pick(200_000, 2_000_000) {
        e.emit("integer", &[0, v, (v % 4) * (v % 3)]);
    }
    let max = i64::MAX as i128;
    for p in 1..=22u32 {
        let t = 10i128.pow(p);
        for d in -3..=3 {
            for k in [1, 2, 5, 9] {
                for z in [0, 1, 30] {
                    let v = t * k + d;
                    e.emit("integer", &[(v / 1_000_000_000_000) as i64, (v % 1_000_000_000_000) as i64, z]);
                }
            }
        }
    }
    for b in 0..68 {
        for d in -3..=3 {
            for z in [0, 1, 30] {
                let v = (1i128 << b) + d;
                if v >= 0 {
                    e.emit("integer", &[(v / 1_000_000_000_000) as i64, (v % 1_000_000_000_000) as i64, z]);
                }
            }
        }
    }
    for d in -200..=200 {
        let v = max + d;
        e.emit("integer", &[(v / 1_000_000_000_000) as i64, (v % 1_000_000_000_000) as i64, 0]);
    }
    for a in [0i64, 1, 2, 9, 10, 99, 255, 1000, 123456, 99999999] {
        for w in 1..=e.pick(5, 6) {
            for f in 0..10i64.pow(w as u32) {
                e.emit("decimal", &[a, f, w]);
            }
        }
    }
    for a in 0..=e.pick(50, 80) {
        for b in 1..=e.pick(60, 120) {
            for k in [0, 1, 3, 7, 9] {
                for l in [0, 1, 3, 9] {
                    for h in [0, 1, 9] {
                        e.emit("long", &[a, k, b, l, h]);
                    }
                }
            }
        }
    }
    for d in (1..=9).chain([17, 25, 99, 123456789, 2225073858507201, 2225073858507202, 4940656458412465, 2470328229206232, 2470328229206233, 1797693134862315, 9007199254740993, 9007199254740992, 9223372036854775807]) {
        for p in -e.pick(500, 1200)..=310 {
            e.emit("scaled", &[d, p]);
        }
    }
    for j in 0..6 {
        for n in (0..=e.pick(1300, 4200)).chain([2000, 4095, 4096, 5000, 10_000, 20_000, 40_000, 65_536, 70_000]) {
            for k in 0..3 {
                e.emit("half", &[j, n, k]);
            }
        }
    }
    for x in 0..2047u64 {
        for m in [0, 1, 2, (1 << 52) - 1, 1 << 51, 0x5_5555_5555_5555] {
            e.emit("exact", &[(x << 52 | m) as i64]);
        }
    }
    for b in 0..52 {
        // subnormal
        e.emit("exact", &[1i64 << b]);
        e.emit("exact", &[(1i64 << b) - 1]);
    }
    for len in 2..=e.pick(4, 5) {
        sequences(LITERALS.len() as i64, len, &mut |s| {
            for sep in 0..3 {
                if e.mine() {
                    let c: Vec<i64> = [sep].iter().chain(s).cloned().collect();
                    e.emit("behind", &c);
                }
            }
            !e.stopped()
        });
    }
    by_alphabet(e, "string", &['\\', '"', 'n', 't', 'r', 'a', 'é', '\n'], e.pick(7, 8));
    by_alphabet(e, "string", &['\\', '"', 'n', ' '], e.pick(10, 11));
    for c in scalars() {
        e.emit("escape", &[c]);
    }
    by_fragments(e, "string", 3);
    ascii(e, "string", 3);
    if e.thorough() {
        ascii(e, "string", 4);
    }
    by_alphabet(e, "string", &['\\', 'x', 'u', '4', '1', '{', '}', '"'], e.pick(6, 8));
    by_alphabet(e, "string", &['&', '#', 'l', 't', ';', 'a', '<'], e.pick(7, 8));
    by_alphabet(e, "string", &['"', '+', ' ', 'a', '\\', '\n'], e.pick(8, 9));
    // Runs of consecutive characters, far into a string.
    let all: Vec<i64> = scalars().filter(|c| *c != 34 && *c != 92).collect();
    for (k, run) in all.chunks(96).enumerate() {
        for far in [0, 70, 90, 300, 5000] {
            if far == 5000 && k % 8 != 0 {
                continue;
            }
            let c: Vec<i64> = (0..far).map(|_| 97).chain(run.iter().cloned()).collect();
            e.emit("string", &c);
        }
    }
    for n in 0..=e.pick(300, 1100) {
        for k in 0..6 {
            let c: Vec<i64> = (0..n).map(|i| match k {
                0 => 92,
                1 => if i % 2 == 0 { 92 } else { 34 },
                2 => if i % 2 == 0 { 92 } else { 110 },
                3 => if i % 3 == 0 { 92 } else { 116 },
                4 => 0x1d11e,
                _ => 97 + i % 26,
            }).collect();
            e.emit("string", &c);
        }
    }
}

static PROPS: &[Prop] = &[
    Prop { id: "L01", enumerate: l01_enum, check: l01_check, rule: "Token sequences are spelled with every choice of separators and must come back exactly; texts over small alphabets that the language model finds free of errors must tokenise as it says. Non-trivial: at least two tokens.", bounds_quick: "all sequences of up to 2 of 23 tokens with 12 separators and 3 with 3; 4 with none or a space; every white space scalar; tokens of every length up to 600 and around powers of two to 100000 before every token; 1 to 130 and 511 to 1025 tokens, gaps to 65536; all texts up to length 5 over 19 characters, 8 over 7; all ASCII texts of 3 characters; all sequences of up to 3 of 104 fragments (comments, hexadecimal and exponent spellings, escapes, entities, keywords in any case, look-alikes), there also through count, last, size_hint, nth, fold and for_each; every scalar inside a word and a string", bounds_thorough: "5 tokens; lengths up to 1100, up to 300 tokens; texts up to length 6 and 9, printable ASCII texts of 4 characters", assumptions: &["the byte order mark is left out: the language does not say what it means"] },
    Prop { id: "L02", enumerate: l02_enum, check: l02_check, rule: "Every text over small alphabets is lexed to its end through every error, beside a model that gives each token and each error with its line and column. Non-trivial: at least one error.", bounds_quick: "all texts up to length 5 over 19 characters, 8 over 6 (numbers, strings), 7 over 7 (lines), 9 over 4; every scalar in 5 contexts; integers around the limit in 56 contexts; all ASCII texts of 3 characters, all sequences of up to 3 of 104 fragments; errors up to 600 characters in and around powers of two up to 1048577; up to 10001 errors in one text; reports to an output that refuses any one of the first 16 or last 4 writes, and goes on or not; reports asked for early and again; short texts also through nth, skip, take, step_by, count and last", bounds_thorough: "lengths 6, 9, 8 and 10, printable ASCII texts of 4 characters; errors up to 1100 characters in", assumptions: &["the byte order mark is left out", "the wording of error messages is free"] },
    Prop { id: "L03", enumerate: l03_enum, check: l03_check, rule: "Literals are made from values and must be read back exactly; strings over the escape alphabet are compared with the model. Non-trivial: more than one digit, a non-zero fraction, or an escape.", bounds_quick: "all integers below 200000, around powers of ten and two and the 64-bit limit, with leading zeros; all fractions of up to 5 digits after 10 whole parts; 180000 long decimals; decimals half way between two doubles, exact and a little off at up to 70000 digits behind; 22 digit strings scaled by 10^-500 to 10^310; doubles of every exponent; all strings up to length 7 over 8 characters and 10 over 4, over alphabets of escapes, entities and concatenation, of 3 ASCII characters and of 3 of 104 fragments; every scalar plain and escaped, and in runs of 96 behind up to 5000 others; all sequences of up to 4 of 18 good and bad literals", bounds_thorough: "integers below 2000000; fractions of 6 digits; longer decimals; scales from 10^-1200; strings up to 8 and 11; 5 literals in a row", assumptions: &["std's decimal to double conversion is the reference for decimals of more than 15 digits"] },
];

fn main() {
    mc_main(PROPS)
}
