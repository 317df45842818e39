//! Stand-in for colored 2: same escape sequences; colouring is on unless overridden.
use std::{fmt, ops::Deref};
pub mod control {
    use std::sync::atomic::{AtomicU8, Ordering};
    static OVERRIDE: AtomicU8 = AtomicU8::new(2);
    pub fn set_override(on: bool) {
        OVERRIDE.store(on as u8, Ordering::Relaxed)
    }
    pub fn unset_override() {
        OVERRIDE.store(2, Ordering::Relaxed)
    }
    pub(crate) fn on() -> bool {
        OVERRIDE.load(Ordering::Relaxed) != 0
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString {
    input: String,
    fg: Option<&'static str>,
    bg: Option<&'static str>,
    style: u8,
}
const STYLES: [(u8, char); 8] =
    [(1, '1'), (2, '2'), (4, '4'), (8, '7'), (16, '3'), (32, '5'), (64, '8'), (128, '9')];
impl ColoredString {
    fn compute(&self) -> String {
        let mut v: Vec<String> =
            STYLES.iter().filter(|(b, _)| self.style & b != 0).map(|(_, c)| c.to_string()).collect();
        v.extend(self.bg.map(|x| x.to_string()));
        v.extend(self.fg.map(|x| x.to_string()));
        format!("\x1B[{}m", v.join(";"))
    }
    fn plain(&self) -> bool {
        self.fg.is_none() && self.bg.is_none() && self.style == 0
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString { input: s.to_string(), ..Default::default() }
    }
}
impl Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.input
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if !control::on() || self.plain() {
            return <str as fmt::Display>::fmt(&self.input, f);
        }
        let st = self.compute();
        let inner = self.input.replace("\x1B[0m", &format!("\x1B[0m{}", st));
        f.write_str(&st)?;
        fmt::Display::fmt(&inner, f)?;
        f.write_str("\x1B[0m")
    }
}
macro_rules! cols {
    ($($n:ident $bn:ident $f:literal $b:literal;)*) => {
        pub trait Colorize {
            fn cs(self) -> ColoredString where Self: Sized;
            $(fn $n(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.fg = Some($f); c }
              fn $bn(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.bg = Some($b); c })*
            fn bold(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 1; c }
            fn dimmed(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 2; c }
            fn underline(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 4; c }
            fn reversed(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 8; c }
            fn italic(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 16; c }
            fn blink(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 32; c }
            fn hidden(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 64; c }
            fn strikethrough(self) -> ColoredString where Self: Sized { let mut c = self.cs(); c.style |= 128; c }
            fn normal(self) -> ColoredString where Self: Sized { let c = self.cs(); ColoredString { input: c.input, ..Default::default() } }
            fn clear(self) -> ColoredString where Self: Sized { self.normal() }
        }
    };
}
cols! {
    black on_black "30" "40"; red on_red "31" "41"; green on_green "32" "42"; yellow on_yellow "33" "43";
    blue on_blue "34" "44"; magenta on_magenta "35" "45"; purple on_purple "35" "45"; cyan on_cyan "36" "46";
    white on_white "37" "47"; bright_black on_bright_black "90" "100"; bright_red on_bright_red "91" "101";
    bright_green on_bright_green "92" "102"; bright_yellow on_bright_yellow "93" "103";
    bright_blue on_bright_blue "94" "104"; bright_magenta on_bright_magenta "95" "105";
    bright_purple on_bright_purple "95" "105"; bright_cyan on_bright_cyan "96" "106"; bright_white on_bright_white "97" "107";
}
impl Colorize for ColoredString {
    fn cs(self) -> ColoredString {
        self
    }
}
impl<'a> Colorize for &'a str {
    fn cs(self) -> ColoredString {
        self.into()
    }
}
