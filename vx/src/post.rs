//! Text splicing of ghost code into the printed function.

/// Replace every `name!(args)` by f(args); args found by balanced parentheses.
pub fn replace_macro(src: &str, name: &str, mut f: impl FnMut(&str) -> String) -> String {
    let pat = format!("{name}!");
    let mut out = String::new();
    let mut rest = src;
    while let Some(p) = rest.find(&pat) {
        out.push_str(&rest[..p]);
        let after = &rest[p + pat.len()..];
        let bytes = after.as_bytes();
        let mut i = 0;
        while i < bytes.len() && (bytes[i] as char).is_whitespace() {
            i += 1;
        }
        let mut depth = 0;
        let start = i;
        let mut end = None;
        let mut k = i;
        while k < bytes.len() {
            match bytes[k] {
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(k);
                        break;
                    }
                }
                _ => {}
            }
            k += 1;
        }
        let e = end.expect("unbalanced");
        let args = after[start + 1..e].trim();
        out.push_str(&f(args));
        rest = &after[e + 1..];
    }
    out.push_str(rest);
    out
}

/// `{ WS name!(k);` -> `<text(k)> {`
pub fn splice_before_brace(src: &str, name: &str, mut f: impl FnMut(&str) -> String) -> String {
    let re = regex::Regex::new(&format!(r"\{{\s*{name}!\(\s*([A-Za-z0-9_]+)\s*\);?")).unwrap();
    re.replace_all(src, |c: &regex::Captures| {
        let t = f(&c[1]);
        if t.trim().is_empty() {
            "{".to_string()
        } else {
            format!("\n{}\n{{", t.trim_end())
        }
    })
    .into_owned()
}
