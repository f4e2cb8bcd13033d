//! Offline stand-in for `colored`: plain text, no escape sequences.
use std::fmt::{Display, Formatter};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ColoredString(String);

impl Display for ColoredString {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub trait Colorize {
    fn plain(self) -> ColoredString
    where
        Self: Sized;
    fn red(self) -> ColoredString where Self: Sized { self.plain() }
    fn green(self) -> ColoredString where Self: Sized { self.plain() }
    fn yellow(self) -> ColoredString where Self: Sized { self.plain() }
    fn blue(self) -> ColoredString where Self: Sized { self.plain() }
    fn magenta(self) -> ColoredString where Self: Sized { self.plain() }
    fn cyan(self) -> ColoredString where Self: Sized { self.plain() }
    fn white(self) -> ColoredString where Self: Sized { self.plain() }
    fn bold(self) -> ColoredString where Self: Sized { self.plain() }
    fn dimmed(self) -> ColoredString where Self: Sized { self.plain() }
    fn underline(self) -> ColoredString where Self: Sized { self.plain() }
    fn normal(self) -> ColoredString where Self: Sized { self.plain() }
}
impl Colorize for &str {
    fn plain(self) -> ColoredString { ColoredString(self.to_string()) }
}
impl Colorize for ColoredString {
    fn plain(self) -> ColoredString { self }
}
