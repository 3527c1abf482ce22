#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    List(Vec<Expr>),
    /// `{ k: v, ... }`
    Tuple(Vec<(String, Expr)>),
    Sym(String),
    Int(i128),
    UInt(u128),
    Buff(Vec<u8>),
    Str(String),
    Utf8(String),
    /// `'SP...` or `'SP....name`
    Principal(String),
    /// `.name`
    Rel(String),
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Open,
    Close,
    OpenB,
    CloseB,
    Comma,
    Colon,
    Atom(String),
    Str(String),
    Utf8(String),
}

fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            ';' if c.get(i + 1) == Some(&';') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1
                }
            }
            '(' => {
                out.push(Tok::Open);
                i += 1
            }
            ')' => {
                out.push(Tok::Close);
                i += 1
            }
            '{' => {
                out.push(Tok::OpenB);
                i += 1
            }
            '}' => {
                out.push(Tok::CloseB);
                i += 1
            }
            ',' => {
                out.push(Tok::Comma);
                i += 1
            }
            ':' => {
                out.push(Tok::Colon);
                i += 1
            }
            '"' | 'u' if c[i] == '"' || c.get(i + 1) == Some(&'"') => {
                let utf = c[i] == 'u';
                i += 1 + utf as usize;
                let mut s = String::new();
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\\') => {
                            i += 1;
                            s.push(match c.get(i) {
                                Some('n') => '\n',
                                Some('t') => '\t',
                                Some('r') => '\r',
                                Some('0') => '\0',
                                Some(x) => *x,
                                None => return Err("unterminated string".into()),
                            });
                        }
                        Some(x) => s.push(*x),
                    }
                    i += 1;
                }
                i += 1;
                out.push(if utf { Tok::Utf8(s) } else { Tok::Str(s) });
            }
            _ => {
                let st = i;
                while i < c.len() && !" \t\r\n(){},:\"".contains(c[i]) && !(c[i] == ';' && c.get(i + 1) == Some(&';')) {
                    i += 1
                }
                out.push(Tok::Atom(c[st..i].iter().collect()));
            }
        }
    }
    Ok(out)
}

fn atom(s: &str) -> Result<Expr, String> {
    let num = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    if let Some(d) = s.strip_prefix("0x") {
        return Ok(Expr::Buff(hex::decode(d).map_err(|e| format!("{s}: {e}"))?));
    }
    if let Some(d) = s.strip_prefix('u') {
        if num(d) {
            return d.parse().map(Expr::UInt).map_err(|e| format!("{s}: {e}"));
        }
    }
    if num(s) || s.strip_prefix('-').is_some_and(num) {
        return s.parse().map(Expr::Int).map_err(|e| format!("{s}: {e}"));
    }
    if let Some(p) = s.strip_prefix('\'') {
        return Ok(Expr::Principal(p.into()));
    }
    if s.len() > 1 && s.starts_with('.') {
        return Ok(Expr::Rel(s[1..].into()));
    }
    Ok(Expr::Sym(s.into()))
}

fn one(t: &[Tok], i: &mut usize) -> Result<Expr, String> {
    let Some(k) = t.get(*i) else { return Err("unexpected end".into()) };
    *i += 1;
    match k {
        Tok::Open => {
            let mut v = vec![];
            loop {
                match t.get(*i) {
                    Some(Tok::Close) => {
                        *i += 1;
                        return Ok(Expr::List(v));
                    }
                    Some(_) => v.push(one(t, i)?),
                    None => return Err("missing )".into()),
                }
            }
        }
        Tok::OpenB => {
            let mut v = vec![];
            loop {
                match t.get(*i) {
                    Some(Tok::CloseB) => {
                        *i += 1;
                        return Ok(Expr::Tuple(v));
                    }
                    Some(Tok::Comma) => *i += 1,
                    Some(Tok::Atom(k)) => {
                        *i += 1;
                        if t.get(*i) != Some(&Tok::Colon) {
                            return Err(format!("missing : after {k}"));
                        }
                        *i += 1;
                        v.push((k.clone(), one(t, i)?));
                    }
                    x => return Err(format!("unexpected {x:?} in tuple")),
                }
            }
        }
        Tok::Atom(s) => atom(s),
        Tok::Str(s) => Ok(Expr::Str(s.clone())),
        Tok::Utf8(s) => Ok(Expr::Utf8(s.clone())),
        x => Err(format!("unexpected {x:?}")),
    }
}

pub fn parse(src: &str) -> Result<Vec<Expr>, String> {
    let t = lex(src)?;
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        out.push(one(&t, &mut i)?);
    }
    Ok(out)
}
