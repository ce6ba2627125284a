use super::unitab::IDTAB;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IdClass {
    None,
    Start,
    Cont,
    /// not settled by the Unicode version the implementation is allowed to lag behind at
    New,
}

pub fn id_class(c: char) -> IdClass {
    let u = c as u32;
    if u < 0x80 {
        return match c {
            'a'..='z' | 'A'..='Z' | '$' | '_' => IdClass::Start,
            '0'..='9' => IdClass::Cont,
            _ => IdClass::None,
        };
    }
    if u == 0x200c || u == 0x200d {
        return IdClass::Cont;
    }
    // Characters whose properties later versions of Unicode changed.
    if matches!(u, 0x1cf2 | 0x1cf3 | 0x111c9) {
        return IdClass::New;
    }
    let i = match IDTAB.binary_search_by(|(s, _)| s.cmp(&u)) {
        Ok(i) => i,
        Err(i) => i - 1,
    };
    match IDTAB[i].1 {
        1 => IdClass::Start,
        2 => IdClass::Cont,
        // planes 4 to 13 and the noncharacters are not going to be letters
        3 if (0x40000..0xe0000).contains(&u) || u & 0xfffe == 0xfffe || (0xfdd0..0xfdf0).contains(&u) => IdClass::None,
        3 => IdClass::New,
        _ => IdClass::None,
    }
}

pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

pub fn is_ws(c: char) -> bool {
    matches!(
        c,
        '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'
            ..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}'
    )
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Eof,
    Id { name: String, esc: bool },
    P(&'static str),
    Num(f64),
    Str(String),
    /// a template chunk; cooked is None when an escape is malformed; raw; tail
    Tpl { cooked: Option<String>, raw: String, tail: bool },
    Regex { pattern: String, flags: String },
    /// text that is no token; the char offset where it stops being a possible token prefix
    Bad(usize),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
    pub nl: bool,
    /// the text uses something the properties leave open: giron may accept or reject
    pub may: bool,
    /// nothing at all is said about a text containing this
    pub unspec: bool,
    /// legacy octal number or escape
    pub octal: bool,
}

// Longest first within each first character.
static PUNCTS: &[&str] = &[
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--",
    "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ".", ";", ",", "<",
    ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=",
];

pub struct Lexer<'a> {
    pub s: &'a [char],
    pub script: bool,
}

impl<'a> Lexer<'a> {
    fn at(&self, i: usize) -> char {
        // NUL never is meaningful in any test below, so it doubles as end-of-input sentinel
        *self.s.get(i).unwrap_or(&'\0')
    }
    fn has(&self, i: usize, t: &str) -> bool {
        let mut j = i;
        for c in t.chars() {
            if j >= self.s.len() || self.s[j] != c {
                return false;
            }
            j += 1;
        }
        true
    }

    /// Skip white space and comments. Returns (position, saw line terminator, bad position, unspec)
    fn skip(&self, mut i: usize, at_start: bool) -> (usize, bool, Option<usize>, bool) {
        let mut nl = at_start;
        let mut unspec = false;
        loop {
            if i >= self.s.len() {
                return (i, nl, None, unspec);
            }
            let c = self.s[i];
            if is_ws(c) {
                i += 1;
            } else if is_lt(c) {
                nl = true;
                i += 1;
            } else if self.has(i, "//") {
                while i < self.s.len() && !is_lt(self.s[i]) {
                    i += 1;
                }
            } else if self.has(i, "/*") {
                let st = i;
                i += 2;
                loop {
                    if i >= self.s.len() {
                        return (st, nl, Some(i), unspec);
                    }
                    if self.has(i, "*/") {
                        i += 2;
                        break;
                    }
                    if is_lt(self.s[i]) {
                        nl = true;
                    }
                    i += 1;
                }
            } else if self.script && (self.has(i, "<!--") || (nl && self.has(i, "-->"))) {
                unspec = true;
                return (i, nl, None, unspec);
            } else if i == 0 && self.has(0, "#!") {
                return (i, nl, None, true);
            } else {
                return (i, nl, None, unspec);
            }
        }
    }

    pub fn token(&self, pos: usize) -> Tok {
        let (i, nl, bad, unspec) = self.skip(pos, pos == 0);
        let mut t = Tok { k: K::Eof, start: i, end: i, nl, may: false, unspec, octal: false };
        if pos == 0 {
            // a "newline before" at the very start is harmless (nothing precedes it)
            t.nl = true;
        }
        if let Some(b) = bad {
            t.k = K::Bad(b);
            t.end = self.s.len();
            return t;
        }
        if i >= self.s.len() {
            return t;
        }
        let c = self.s[i];
        match id_class(c) {
            IdClass::Start => {
                self.ident(&mut t);
                return t;
            }
            IdClass::New => {
                t.unspec = true;
                t.k = K::Bad(i);
                t.end = i + 1;
                return t;
            }
            _ => {}
        }
        match c {
            '\\' => self.ident(&mut t),
            '0'..='9' => self.number(&mut t),
            '.' if self.at(i + 1).is_ascii_digit() => self.number(&mut t),
            '"' | '\'' => self.string(&mut t, c),
            '`' => self.template(&mut t),
            _ => {
                // post-2019 punctuators
                if (self.has(i, "?.") && !self.at(i + 2).is_ascii_digit())
                    || self.has(i, "??")
                    || self.has(i, "&&=")
                    || self.has(i, "||=")
                {
                    t.unspec = true;
                }
                for p in PUNCTS {
                    if self.has(i, p) {
                        t.k = K::P(p);
                        t.end = i + p.chars().count();
                        return t;
                    }
                }
                t.k = K::Bad(i);
                t.end = i + 1;
            }
        }
        t
    }

    /// Unicode escape after the backslash and the `u`; returns code unit/point and new position.
    fn unicode_escape(&self, mut i: usize) -> Result<(u32, usize, bool), usize> {
        // i points just after 'u'
        if self.at(i) == '{' && i < self.s.len() {
            i += 1;
            let st = i;
            let mut v: u32 = 0;
            while i < self.s.len() && self.s[i].is_ascii_hexdigit() {
                v = v.saturating_mul(16).saturating_add(self.s[i].to_digit(16).unwrap());
                if v > 0x10ffff {
                    return Err(i);
                }
                i += 1;
            }
            if i == st || self.at(i) != '}' {
                return Err(i);
            }
            Ok((v, i + 1, true))
        } else {
            let mut v = 0;
            for k in 0..4 {
                match self.at(i + k).to_digit(16) {
                    Some(d) if i + k < self.s.len() => v = v * 16 + d,
                    _ => return Err(i + k),
                }
            }
            Ok((v, i + 4, false))
        }
    }

    fn ident(&self, t: &mut Tok) {
        let mut i = t.start;
        let mut name = String::new();
        let mut esc = false;
        let mut first = true;
        while i < self.s.len() {
            let c = self.s[i];
            let (ch, ni) = if c == '\\' {
                esc = true;
                if self.at(i + 1) != 'u' {
                    t.k = K::Bad(i + 1);
                    t.end = i + 1;
                    return;
                }
                match self.unicode_escape(i + 2) {
                    Ok((v, ni, _)) => match char::from_u32(v) {
                        Some(ch) => (ch, ni),
                        None => {
                            t.k = K::Bad(ni - 1);
                            t.end = ni;
                            return;
                        }
                    },
                    Err(p) => {
                        t.k = K::Bad(p);
                        t.end = p;
                        return;
                    }
                }
            } else {
                (c, i + 1)
            };
            let ok = match id_class(ch) {
                IdClass::Start => true,
                IdClass::Cont => !first,
                IdClass::New => {
                    t.unspec = true;
                    t.k = K::Bad(i);
                    t.end = i + 1;
                    return;
                }
                IdClass::None => false,
            };
            if !ok {
                if c == '\\' {
                    t.k = K::Bad(ni - 1);
                    t.end = ni;
                    return;
                }
                break;
            }
            name.push(ch);
            first = false;
            i = ni;
        }
        t.end = i;
        t.k = K::Id { name, esc };
    }

    fn after_number(&self, t: &mut Tok, i: usize) {
        let c = self.at(i);
        if i < self.s.len() {
            match id_class(c) {
                IdClass::Start => {
                    t.k = K::Bad(i);
                    // big integers and digit separators
                    let int = self.s[t.start..i].iter().all(|c| c.is_ascii_alphanumeric())
                        && (self.at(t.start + 1).is_ascii_alphabetic() || !self.s[t.start..i].iter().any(|c| matches!(c, 'e' | 'E')))
                        && !(self.at(t.start) == '0' && self.at(t.start + 1).is_ascii_digit());
                    let next = self.at(i + 1);
                    if c == 'n' && int && !(id_class(next) == IdClass::Start && i + 1 < self.s.len() || next.is_ascii_digit() || next == '\\')
                        || c == '_' && next.is_ascii_hexdigit()
                    {
                        t.unspec = true;
                    }
                }
                IdClass::New => {
                    t.k = K::Bad(i);
                    t.unspec = true;
                }
                _ => {
                    if c.is_ascii_digit() || c == '\\' {
                        t.k = K::Bad(i);
                    }
                }
            }
        }
        t.end = i;
    }

    fn number(&self, t: &mut Tok) {
        let s = t.start;
        let mut i = s;
        if self.at(i) == '0' && matches!(self.at(i + 1), 'x' | 'X' | 'o' | 'O' | 'b' | 'B') {
            let radix = match self.at(i + 1) {
                'x' | 'X' => 16,
                'o' | 'O' => 8,
                _ => 2,
            };
            i += 2;
            let st = i;
            while i < self.s.len() && self.s[i].to_digit(radix).is_some() {
                i += 1;
            }
            if i == st {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            t.k = K::Num(radix_value(&self.s[st..i], radix));
            return self.after_number(t, i);
        }
        let mut legacy_decimal = false;
        if self.at(i) == '0' && self.at(i + 1).is_ascii_digit() {
            t.octal = true;
            let mut j = i;
            let mut dec = false;
            while self.at(j).is_ascii_digit() {
                if self.at(j) >= '8' {
                    dec = true;
                }
                j += 1;
            }
            if !dec {
                t.k = K::Num(radix_value(&self.s[i..j], 8));
                return self.after_number(t, j);
            }
            legacy_decimal = true;
        }
        let _ = legacy_decimal;
        while self.at(i).is_ascii_digit() {
            i += 1;
        }
        if self.at(i) == '.' {
            i += 1;
            while self.at(i).is_ascii_digit() {
                i += 1;
            }
        }
        if matches!(self.at(i), 'e' | 'E') {
            let mut j = i + 1;
            if matches!(self.at(j), '+' | '-') {
                j += 1;
            }
            let st = j;
            while self.at(j).is_ascii_digit() {
                j += 1;
            }
            if j == st {
                t.k = K::Bad(j);
                t.end = j;
                return;
            }
            i = j;
        }
        let text: String = self.s[s..i].iter().collect();
        t.k = K::Num(decimal_value(&text));
        self.after_number(t, i);
    }

    fn string(&self, t: &mut Tok, q: char) {
        let mut i = t.start + 1;
        let mut units: Vec<u32> = vec![]; // code points; surrogate units appear as themselves
        loop {
            if i >= self.s.len() {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            let c = self.s[i];
            if c == q {
                i += 1;
                break;
            }
            if c == '\n' || c == '\r' {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            if c != '\\' {
                units.push(c as u32);
                i += 1;
                continue;
            }
            i += 1;
            if i >= self.s.len() {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            let c = self.s[i];
            match c {
                '\r' => {
                    i += 1;
                    if self.at(i) == '\n' {
                        i += 1;
                    }
                }
                '\n' | '\u{2028}' | '\u{2029}' => i += 1,
                'u' | 'x' => match self.hex_escape(i) {
                    Ok((v, ni, _)) => {
                        t.may |= push_unit(&mut units, v) && is_lt(self.s[i - 2]);
                        i = ni;
                    }
                    Err(p) => {
                        t.k = K::Bad(p);
                        t.end = p;
                        return;
                    }
                },
                '0'..='7' => {
                    let max = if c <= '3' { 3 } else { 2 };
                    let mut v = 0;
                    let mut n = 0;
                    while n < max && i < self.s.len() && self.s[i].is_digit(8) {
                        v = v * 8 + self.s[i].to_digit(8).unwrap();
                        i += 1;
                        n += 1;
                    }
                    if !(n == 1 && v == 0 && !self.at(i).is_ascii_digit()) {
                        t.octal = true;
                    }
                    units.push(v);
                }
                '8' | '9' => {
                    t.octal = true;
                    units.push(c as u32);
                    i += 1;
                }
                _ => {
                    units.push(single_escape(c) as u32);
                    i += 1;
                }
            }
        }
        t.end = i;
        let mut out = String::new();
        let mut lone = false;
        for u in units {
            match char::from_u32(u) {
                Some(ch) => out.push(ch),
                None => {
                    // a string of characters cannot hold it: rejected, or replaced
                    out.push('\u{FFFD}');
                    lone = true
                }
            }
        }
        t.may |= lone;
        t.k = K::Str(out);
    }

    /// i points at the `u` or `x`
    fn hex_escape(&self, i: usize) -> Result<(u32, usize, bool), usize> {
        if self.at(i) == 'x' {
            let mut v = 0;
            for k in 1..3 {
                match self.at(i + k).to_digit(16) {
                    Some(d) if i + k < self.s.len() => v = v * 16 + d,
                    _ => return Err(i + k),
                }
            }
            Ok((v, i + 3, false))
        } else {
            self.unicode_escape(i + 1)
        }
    }

    fn template(&self, t: &mut Tok) {
        self.chunk(t)
    }

    /// Re-scan a `}` token as the continuation of a template.
    pub fn template_continue(&self, t: &Tok) -> Tok {
        let mut n = Tok { k: K::Eof, start: t.start, end: t.start, nl: t.nl, may: false, unspec: t.unspec, octal: false };
        self.chunk(&mut n);
        n
    }

    fn chunk(&self, t: &mut Tok) {
        let mut i = t.start + 1;
        let mut raw = String::new();
        let mut units: Vec<u32> = vec![];
        let mut ok = true;
        let tail;
        loop {
            if i >= self.s.len() {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            let c = self.s[i];
            if c == '`' {
                i += 1;
                tail = true;
                break;
            }
            if c == '$' && self.at(i + 1) == '{' {
                i += 2;
                tail = false;
                break;
            }
            if c == '\r' {
                i += 1;
                if self.at(i) == '\n' {
                    i += 1;
                }
                raw.push('\n');
                units.push(10);
                continue;
            }
            if c != '\\' {
                raw.push(c);
                units.push(c as u32);
                i += 1;
                continue;
            }
            raw.push('\\');
            i += 1;
            if i >= self.s.len() {
                t.k = K::Bad(i);
                t.end = i;
                return;
            }
            let c = self.s[i];
            match c {
                '\r' => {
                    i += 1;
                    if self.at(i) == '\n' {
                        i += 1;
                    }
                    raw.push('\n');
                }
                '\n' | '\u{2028}' | '\u{2029}' => {
                    raw.push(c);
                    i += 1;
                }
                'u' | 'x' => match self.hex_escape(i) {
                    Ok((v, ni, _)) => {
                        t.may |= push_unit(&mut units, v) && is_lt(self.s[i - 2]);
                        raw.extend(&self.s[i..ni]);
                        i = ni;
                    }
                    Err(_) => {
                        ok = false;
                        raw.push(c);
                        i += 1;
                    }
                },
                '0' if !self.at(i + 1).is_ascii_digit() => {
                    units.push(0);
                    raw.push('0');
                    i += 1;
                }
                '0'..='9' => {
                    ok = false;
                    raw.push(c);
                    i += 1;
                }
                _ => {
                    raw.push(c);
                    units.push(single_escape(c) as u32);
                    i += 1;
                }
            }
        }
        t.end = i;
        let mut out = String::new();
        let mut lone = false;
        for u in units {
            match char::from_u32(u) {
                Some(ch) => out.push(ch),
                None => {
                    // a string of characters cannot hold it: rejected, or replaced
                    out.push('\u{FFFD}');
                    lone = true
                }
            }
        }
        t.may |= lone;
        t.k = K::Tpl { cooked: if ok { Some(out) } else { None }, raw, tail };
    }

    /// Re-scan a `/` or `/=` token as a regular expression literal.
    pub fn regex(&self, t: &Tok) -> Tok {
        let mut n = t.clone();
        n.may = false;
        n.octal = false;
        let st = t.start + 1;
        let mut i = st;
        let mut class = false;
        loop {
            if i >= self.s.len() || is_lt(self.s[i]) {
                n.k = K::Bad(i);
                n.end = i;
                return n;
            }
            let c = self.s[i];
            if c == '\\' {
                i += 1;
                if i >= self.s.len() || is_lt(self.s[i]) {
                    n.k = K::Bad(i);
                    n.end = i;
                    return n;
                }
                i += 1;
                continue;
            }
            if class {
                if c == ']' {
                    class = false;
                }
            } else if c == '[' {
                class = true;
            } else if c == '/' {
                break;
            }
            i += 1;
        }
        let pattern: String = self.s[st..i].iter().collect();
        i += 1;
        let fs = i;
        while i < self.s.len() {
            match id_class(self.s[i]) {
                IdClass::Start | IdClass::Cont => i += 1,
                IdClass::New => {
                    n.unspec = true;
                    break;
                }
                IdClass::None => break,
            }
        }
        if self.at(i) == '\\' && i < self.s.len() {
            n.k = K::Bad(i);
            n.end = i;
            return n;
        }
        let flags: String = self.s[fs..i].iter().collect();
        if !surely_valid_regex(&pattern, &flags) {
            n.may = true;
        }
        n.end = i;
        n.k = K::Regex { pattern, flags };
        n
    }
}

/// Is v the second half of a pair? A line continuation between the halves is not made much of: the text may be rejected.
fn push_unit(units: &mut Vec<u32>, v: u32) -> bool {
    if (0xdc00..0xe000).contains(&v) {
        if let Some(&h) = units.last() {
            if (0xd800..0xdc00).contains(&h) {
                units.pop();
                units.push(0x10000 + ((h - 0xd800) << 10) + (v - 0xdc00));
                return true;
            }
        }
    }
    units.push(v);
    false
}

fn single_escape(c: char) -> char {
    match c {
        'b' => '\u{8}',
        't' => '\t',
        'n' => '\n',
        'v' => '\u{b}',
        'f' => '\u{c}',
        'r' => '\r',
        c => c,
    }
}

/// Patterns and flags about whose validity no version of the standard leaves any doubt.
fn surely_valid_regex(p: &str, flags: &str) -> bool {
    for (i, f) in flags.char_indices() {
        if !"gimuys".contains(f) || flags[..i].contains(f) {
            return false;
        }
    }
    let u = flags.contains('u');
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    let mut atom = false;
    while i < cs.len() {
        match cs[i] {
            '\\' => {
                i += 1;
                match cs.get(i) {
                    Some('d') | Some('w') | Some('s') | Some('n') | Some('t') | Some('/') | Some('[') | Some(']')
                    | Some('\\') | Some('.') | Some('*') | Some('(') | Some(')') | Some('^') | Some('$') => atom = true,
                    Some('"') | Some('\'') | Some('`') if !u => atom = true,
                    _ => return false,
                }
            }
            '[' => {
                i += 1;
                if cs.get(i) == Some(&'^') {
                    i += 1;
                }
                loop {
                    match cs.get(i) {
                        None => return false,
                        Some(']') => break,
                        Some('-') => return false,
                        Some('\\') => {
                            i += 1;
                            match cs.get(i) {
                                Some('d') | Some('n') | Some('/') | Some('[') | Some(']') | Some('\\') => {}
                                _ => return false,
                            }
                        }
                        _ => {}
                    }
                    i += 1;
                }
                atom = true;
            }
            '*' | '+' | '?' => {
                if !atom {
                    return false;
                }
                atom = false;
            }
            '(' | ')' | '{' | '}' | ']' | '^' | '$' => return false,
            '|' => atom = false,
            _ => atom = true,
        }
        i += 1;
    }
    true
}

/// Value of a digit string in radix 2, 8 or 16, rounded to nearest even.
pub fn radix_value(d: &[char], radix: u32) -> f64 {
    let bits_per = match radix {
        16 => 4,
        8 => 3,
        _ => 1,
    };
    let mut top: u64 = 0;
    let mut n = 0u32; // significant bits taken into top
    let mut extra: u32 = 0; // bits dropped
    let mut sticky = false;
    for c in d {
        let v = c.to_digit(radix).unwrap();
        for b in (0..bits_per).rev() {
            let bit = (v >> b) & 1;
            if n == 0 && bit == 0 {
                continue;
            }
            if n < 63 {
                top = top << 1 | bit as u64;
                n += 1;
            } else {
                extra += 1;
                sticky |= bit == 1;
            }
        }
    }
    if extra == 0 {
        return top as f64;
    }
    let t = top << 1 | sticky as u64; // 64 bits, lowest is sticky
    let mut f = t as f64;
    let mut e = extra as i64 - 1;
    while e > 0 && f.is_finite() {
        let s = e.min(512);
        f *= 2f64.powi(s as i32);
        e -= s;
    }
    f
}

/// Value of a decimal literal spelled per StrDecimalLiteral.
pub fn decimal_value(s: &str) -> f64 {
    let mut t = String::new();
    if s.starts_with('.') {
        t.push('0');
    }
    t.push_str(s);
    // "5." and "5.e3" are fine for Rust's correctly rounding parser, too
    t.parse::<f64>().unwrap()
}
