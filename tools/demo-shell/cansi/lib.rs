//! Stand-in for cansi 2.2 (v3 API): splits text by ANSI SGR sequences.
pub mod v3 {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Color {
        Black, Red, Green, Yellow, Blue, Magenta, Cyan, White,
        BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue, BrightMagenta, BrightCyan, BrightWhite,
    }
    const COLS: [Color; 16] = [
        Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White,
        Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue,
        Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite,
    ];
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Intensity {
        Normal,
        Bold,
        Faint,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct CategorisedSlice<'a> {
        pub text: &'a str,
        pub start: usize,
        pub end: usize,
        pub fg: Option<Color>,
        pub bg: Option<Color>,
        pub intensity: Option<Intensity>,
        pub italic: Option<bool>,
        pub underline: Option<bool>,
        pub blink: Option<bool>,
        pub reversed: Option<bool>,
        pub hidden: Option<bool>,
        pub strikethrough: Option<bool>,
    }
    fn blank(text: &str, start: usize) -> CategorisedSlice {
        CategorisedSlice {
            text, start, end: start + text.len(), fg: None, bg: None, intensity: None, italic: None, underline: None,
            blink: None, reversed: None, hidden: None, strikethrough: None,
        }
    }
    pub fn categorise_text(s: &str) -> Vec<CategorisedSlice> {
        let mut out = vec![];
        let mut cur = blank("", 0);
        let b = s.as_bytes();
        let (mut i, mut from) = (0, 0);
        while i < b.len() {
            if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
                let mut j = i + 2;
                while j < b.len() && !(0x40..=0x7e).contains(&b[j]) {
                    j += 1;
                }
                if j < b.len() {
                    if from < i {
                        out.push(CategorisedSlice { text: &s[from..i], start: from, end: i, ..cur });
                    }
                    if b[j] == b'm' {
                        sgr(&s[i + 2..j], &mut cur);
                    }
                    i = j + 1;
                    from = i;
                    continue;
                }
            }
            i += 1;
        }
        if from < b.len() {
            out.push(CategorisedSlice { text: &s[from..], start: from, end: b.len(), ..cur });
        }
        out
    }
    fn sgr(p: &str, c: &mut CategorisedSlice) {
        for n in p.split(';') {
            match if n.is_empty() { Ok(0) } else { n.parse::<u32>() } {
                Ok(0) => *c = CategorisedSlice { text: c.text, ..blank("", 0) },
                Ok(1) => c.intensity = Some(Intensity::Bold),
                Ok(2) => c.intensity = Some(Intensity::Faint),
                Ok(22) => c.intensity = Some(Intensity::Normal),
                Ok(3) => c.italic = Some(true),
                Ok(23) => c.italic = Some(false),
                Ok(4) => c.underline = Some(true),
                Ok(24) => c.underline = Some(false),
                Ok(5) | Ok(6) => c.blink = Some(true),
                Ok(25) => c.blink = Some(false),
                Ok(7) => c.reversed = Some(true),
                Ok(27) => c.reversed = Some(false),
                Ok(8) => c.hidden = Some(true),
                Ok(28) => c.hidden = Some(false),
                Ok(9) => c.strikethrough = Some(true),
                Ok(29) => c.strikethrough = Some(false),
                Ok(n @ 30..=37) => c.fg = Some(COLS[n as usize - 30]),
                Ok(39) => c.fg = None,
                Ok(n @ 40..=47) => c.bg = Some(COLS[n as usize - 40]),
                Ok(49) => c.bg = None,
                Ok(n @ 90..=97) => c.fg = Some(COLS[n as usize - 90 + 8]),
                Ok(n @ 100..=107) => c.bg = Some(COLS[n as usize - 100 + 8]),
                _ => (),
            }
        }
    }
    fn split(s: &str) -> (&str, Option<&str>) {
        match s.find('\n') {
            Some(i) => (s[..i].strip_suffix('\r').unwrap_or(&s[..i]), Some(&s[i + 1..])),
            None => (s, None),
        }
    }
    /// Lines of slices; a trailing empty line is not produced.
    pub fn line_iter<'a>(slices: &[CategorisedSlice<'a>]) -> std::vec::IntoIter<Vec<CategorisedSlice<'a>>> {
        let mut out = vec![];
        let mut line: Vec<CategorisedSlice> = vec![];
        for s in slices {
            let mut rest = s.text;
            loop {
                let (first, rem) = split(rest);
                if !first.is_empty() || (line.is_empty() && rem.is_some()) {
                    line.push(CategorisedSlice { text: first, ..*s });
                }
                match rem {
                    Some(r) => {
                        out.push(std::mem::take(&mut line));
                        rest = r;
                    }
                    None => break,
                }
            }
        }
        if !line.is_empty() {
            out.push(line);
        }
        out.into_iter()
    }
}
