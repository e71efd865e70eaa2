use std::borrow::Cow;
pub fn tilde<S: AsRef<str> + ?Sized>(s: &S) -> Cow<'_, str> {
    let s = s.as_ref();
    match (s.strip_prefix('~'), std::env::var("HOME")) {
        (Some(rest), Ok(home)) if rest.is_empty() || rest.starts_with('/') => Cow::Owned(format!("{home}{rest}")),
        _ => Cow::Borrowed(s),
    }
}
