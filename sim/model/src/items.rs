//! Splits generated source text into its items, to compare two outputs as sets
//! of items whatever their order. Knows strings, characters and comments, so
//! that their contents are not taken for braces; nothing else about the text.

/// The items of `src`, white space normalised, sorted. The bodies of modules
/// are split in turn.
pub fn items(src: &str) -> Vec<String> {
    let c: Vec<char> = src.chars().collect();
    let mut out = Vec::new();
    let mut cur = String::new();
    let mut depth = 0i64;
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        // Comments are dropped.
        if ch == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            let mut n = 1;
            i += 2;
            while i < c.len() && n > 0 {
                if c[i] == '*' && i + 1 < c.len() && c[i + 1] == '/' {
                    n -= 1;
                    i += 1;
                } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
                    n += 1;
                    i += 1;
                }
                i += 1;
            }
            continue;
        }
        if ch == '"' {
            cur.push(ch);
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    cur.push(c[i]);
                    i += 1;
                }
                cur.push(c[i]);
                i += 1;
            }
            cur.push('"');
            i += 1;
            continue;
        }
        if ch == '\'' && i + 2 < c.len() && (c[i + 2] == '\'' || c[i + 1] == '\\') {
            cur.push(ch);
            i += 1;
            while i < c.len() && c[i] != '\'' {
                if c[i] == '\\' && i + 1 < c.len() {
                    cur.push(c[i]);
                    i += 1;
                }
                cur.push(c[i]);
                i += 1;
            }
            cur.push('\'');
            i += 1;
            continue;
        }
        if ch.is_whitespace() {
            if !cur.is_empty() && !cur.ends_with(' ') {
                cur.push(' ');
            }
            i += 1;
            continue;
        }
        if depth == 0 && ch == '}' {
            // End of a module body.
            i += 1;
            flush(&mut cur, &mut out);
            continue;
        }
        cur.push(ch);
        match ch {
            '{' => {
                if depth == 0 && is_module(&cur) {
                    flush(&mut cur, &mut out);
                } else {
                    depth += 1;
                }
            }
            '(' | '[' => depth += 1,
            ')' | ']' => depth -= 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    flush(&mut cur, &mut out);
                }
            }
            ';' if depth == 0 => flush(&mut cur, &mut out),
            _ => {}
        }
        i += 1;
    }
    flush(&mut cur, &mut out);
    out.sort();
    out
}

fn is_module(head: &str) -> bool {
    let w: Vec<&str> = head.split_whitespace().collect();
    w.len() >= 3 && w[w.len() - 3] == "mod" && w[w.len() - 1] == "{"
}

fn flush(cur: &mut String, out: &mut Vec<String>) {
    let t = cur.trim();
    if !t.is_empty() {
        out.push(t.to_string());
    }
    cur.clear();
}

/// What two item lists do not have in common.
pub fn difference(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let short = |s: &String| s.chars().take(200).collect::<String>();
    let only = |x: &[String], y: &[String]| -> String {
        x.iter()
            .find(|i| x.iter().filter(|j| j == i).count() != y.iter().filter(|j| j == i).count())
            .map(short)
            .unwrap_or_else(|| "nothing".into())
    };
    Some(format!("one has `{}`, the other `{}`", only(a, b), only(b, a)))
}

#[cfg(test)]
mod tests {
    #[test]
    fn splits() {
        let s = "#[x] pub mod a {\nuse b; /* } */ #[d(\"}\")] pub struct C { a: [u8; 3], } impl C { fn f() { '}' } }\n}\n";
        assert_eq!(
            super::items(s),
            vec![
                "#[d(\"}\")] pub struct C { a: [u8; 3], }",
                "#[x] pub mod a {",
                "impl C { fn f() { '}' } }",
                "use b;"
            ]
        );
    }
}
