//! Does a text show part of a secret?

const PART: usize = 5;

/// `plain`: the same text without the secret.
pub fn shows(text: &str, plain: &str, secret: &[u8]) -> bool {
    if text == plain {
        return false;
    }
    let n = secret.len();
    let some: Vec<&[u8]> = if n > 600 { vec![&secret[..400], &secret[n - 200..]] } else { vec![secret] };
    some.iter().any(|s| s.windows(PART).any(|w| part(text, plain, w)))
}
fn part(text: &str, plain: &str, w: &[u8]) -> bool {
    let mut distinct = w.to_vec();
    distinct.sort_unstable();
    distinct.dedup();
    if distinct.len() < 3 || !w.iter().any(|b| b.is_ascii_alphabetic()) {
        return false;
    }
    let list = |sep: &str, f: &dyn Fn(u8) -> String| w.iter().map(|b| f(*b)).collect::<Vec<_>>().join(sep);
    [
        String::from_utf8_lossy(w).into_owned(),
        w.escape_ascii().to_string(),
        list(", ", &|b| b.to_string()),
        list(",", &|b| b.to_string()),
        list("", &|b| format!("{b:02x}")),
        list("", &|b| format!("{b:02X}")),
        list(" ", &|b| format!("{b:02x}")),
        list(", ", &|b| format!("{b:x}")),
    ]
    .iter()
    .any(|x| text.contains(x.as_str()) && !plain.contains(x.as_str()))
}
/// Texts that differ in nothing but numbers.
pub fn alike(a: &str, b: &str) -> bool {
    let f = |s: &str| s.chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
    f(a) == f(b)
}
