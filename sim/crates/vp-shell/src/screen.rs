//! A terminal: what the shell's output leaves on the screen.
use unicode_width::UnicodeWidthChar;

pub struct Screen {
    pub w: usize,
    pub h: usize,
    /// "" marks the second half of a wide character
    pub cells: Vec<String>,
    x: usize,
    y: usize,
    pend: Vec<u8>,
    /// no frame is half drawn: the cursor is shown or hidden last
    pub whole: bool,
}
impl Screen {
    pub fn new(w: usize, h: usize) -> Self {
        Screen { w, h, cells: vec![" ".into(); w * h], x: 0, y: 0, pend: vec![], whole: false }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        self.pend.extend_from_slice(bytes);
        let tail = &bytes[bytes.len().saturating_sub(18)..];
        self.whole = tail.windows(5).any(|w| w == b"[?25h" || w == b"[?25l");
        let buf = std::mem::take(&mut self.pend);
        let mut i = 0;
        while i < buf.len() {
            if buf[i] == 0x1b {
                if i + 1 >= buf.len() {
                    break;
                }
                if buf[i + 1] != b'[' {
                    i += 2;
                    continue;
                }
                match buf[i + 2..].iter().position(|b| (0x40..=0x7e).contains(b)) {
                    None => break,
                    Some(n) => {
                        let args = String::from_utf8_lossy(&buf[i + 2..i + 2 + n]).into_owned();
                        self.csi(buf[i + 2 + n], &args);
                        i += n + 3;
                    }
                }
                continue;
            }
            let len = match buf[i] {
                b if b < 0x80 => 1,
                b if b >= 0xf0 => 4,
                b if b >= 0xe0 => 3,
                _ => 2,
            };
            if i + len > buf.len() {
                break;
            }
            if let Ok(s) = std::str::from_utf8(&buf[i..i + len]) {
                self.put(s.chars().next().unwrap());
            }
            i += len;
        }
        self.pend = buf[i..].to_vec();
    }
    fn csi(&mut self, c: u8, args: &str) {
        let nums: Vec<usize> = args.split(';').map(|a| a.parse().unwrap_or(0)).collect();
        match c {
            b'H' => {
                self.y = nums.first().copied().unwrap_or(1).max(1) - 1;
                self.x = nums.get(1).copied().unwrap_or(1).max(1) - 1;
            }
            b'J' => self.cells.iter_mut().for_each(|c| *c = " ".into()),
            _ => (),
        }
    }
    fn put(&mut self, c: char) {
        match c {
            '\r' => self.x = 0,
            '\n' => self.y += 1,
            c if c < ' ' => (),
            c => {
                let n = c.width().unwrap_or(0);
                if self.x < self.w && self.y < self.h {
                    let at = self.y * self.w + self.x;
                    if n == 0 {
                        if self.x > 0 {
                            self.cells[at - 1].push(c);
                        }
                    } else {
                        self.cells[at] = c.to_string();
                        if n == 2 && self.x + 1 < self.w {
                            self.cells[at + 1] = String::new();
                        }
                    }
                }
                self.x += n;
            }
        }
    }
    pub fn row(&self, y: usize) -> String {
        if y >= self.h {
            return String::new();
        }
        self.cells[y * self.w..(y + 1) * self.w].concat()
    }
    pub fn text(&self) -> String {
        (0..self.h).map(|y| self.row(y)).filter(|r| !r.trim_matches(['┃', ' ']).is_empty()).map(|r| r.trim_end_matches(['┃', '─', '━', ' ', '┛']).to_string() + "\n").collect::<String>().trim_end().to_string()
    }
}
