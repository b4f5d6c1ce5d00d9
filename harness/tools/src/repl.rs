//! C30: the REPL edits lines like a plain editor and hands over what was typed.
use kit::*;
use oak_highlight::{HighlightResult, OakHighlighter, Theme};
use oak_repl::{HandleResult, LineBuffer, OakRepl, ReplError, ReplHandler};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Setup {
    first: String,
    more: String,
    step: usize,
    color: bool,
    /// Nothing but blanks and new lines is incomplete.
    blank: bool,
}
fn depth(code: &str) -> usize {
    code.chars().fold(0i64, |d, c| if c == '(' { d + 1 } else if c == ')' { d - 1 } else { d }).max(0) as usize
}
/// Complete: no bracket open, no backslash at the end, and not blank if that is asked for
fn complete(code: &str, blank: bool) -> bool {
    depth(code) == 0 && !code.ends_with('\\') && !(blank && code.trim().is_empty())
}
struct Handler(Setup);
impl ReplHandler for Handler {
    fn highlight<'a>(&self, code: &'a str) -> Option<HighlightResult<'a>> {
        self.0.color.then(|| OakHighlighter::new().highlight(code, "x", Theme::OneDarkPro).unwrap())
    }
    fn prompt(&self, more: bool) -> &str {
        eprintln!("P{}", more as u8);
        if more { &self.0.more } else { &self.0.first }
    }
    fn is_complete(&self, code: &str) -> bool {
        complete(code, self.0.blank)
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        eprintln!("H{}", serde_json::json!([line, cooked(0)]));
        if line.contains('q') {
            return Ok(HandleResult::Exit);
        }
        if line.contains('z') {
            return Err("bad z".into());
        }
        Ok(HandleResult::Continue)
    }
    fn get_indent(&self, code: &str) -> usize {
        depth(code) * self.0.step
    }
}
fn cooked(fd: i32) -> bool {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t.c_lflag & (libc::ICANON | libc::ECHO) == libc::ICANON | libc::ECHO
    }
}
/// The program under a terminal: `tools` started with VERIF_REPL set.
pub fn child(setup: &str) {
    let s: Setup = serde_json::from_str(setup).unwrap();
    match OakRepl::new(Handler(s)).run() {
        Ok(()) => eprintln!("X"),
        Err(e) => eprintln!("E{e}"),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Key {
    Ch(char),
    Enter,
    Back,
    Left,
    Right,
    Other(&'static str),
    CtrlC,
    CtrlD,
}
impl Key {
    fn bytes(self, out: &mut Vec<u8>) {
        match self {
            Key::Ch(c) => out.extend(c.to_string().bytes()),
            Key::Enter => out.push(b'\r'),
            Key::Back => out.push(0x7f),
            Key::Left => out.extend(b"\x1b[D"),
            Key::Right => out.extend(b"\x1b[C"),
            Key::Other(s) => out.extend(s.bytes()),
            Key::CtrlC => out.push(3),
            Key::CtrlD => out.push(4),
        }
    }
    fn waits(self) -> bool {
        matches!(self, Key::Enter | Key::CtrlC | Key::CtrlD)
    }
}
fn key(g: &mut Gen) -> Key {
    let rare = g.chance(1, 4);
    match g.weighted(&[60, 10, 12, 12, 8, 2, 1, 1]) {
        0 => Key::Ch(*g.pick(&['a', 'b', '(', ')', ' ', 'é', 'ß', 'Ω', '\\', '1', 'z', 'я', if rare { 'q' } else { 'i' }, '"', 'x', 'ñ'])),
        1 => Key::Enter,
        2 => Key::Back,
        3 => Key::Left,
        4 => Key::Right,
        5 => Key::Other(*g.pick(&["\x1b[A", "\x1b[B", "\x1b[3~", "\t", "\x1b[H", "\x1b[5~"])),
        6 => Key::CtrlC,
        _ => Key::CtrlD,
    }
}
/// The editor as it should be.
struct Model {
    lines: Vec<Vec<char>>,
    at: usize,
    handled: Vec<String>,
    errors: usize,
    over: bool,
}
impl Model {
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    fn clear(&mut self) {
        self.lines = vec![vec![]];
        self.at = 0
    }
    fn press(&mut self, k: Key, s: &Setup) {
        let n = self.lines.len();
        match k {
            Key::Ch(c) => {
                self.lines[n - 1].insert(self.at, c);
                self.at += 1
            }
            Key::Back => {
                if self.at > 0 {
                    self.at -= 1;
                    self.lines[n - 1].remove(self.at);
                } else if n > 1 {
                    let l = self.lines.pop().unwrap();
                    self.at = self.lines[n - 2].len();
                    self.lines[n - 2].extend(l)
                }
            }
            Key::Left => self.at = self.at.saturating_sub(1),
            Key::Right => self.at = (self.at + 1).min(self.lines[n - 1].len()),
            Key::Other(_) => {}
            Key::CtrlC => self.clear(),
            Key::CtrlD => self.over = self.text().is_empty() && self.lines.len() == 1,
            Key::Enter => {
                let t = self.text();
                if complete(&t, s.blank) {
                    self.over = t.contains('q');
                    self.errors += (!self.over && t.contains('z')) as usize;
                    self.handled.push(t);
                    self.clear()
                } else {
                    self.lines.push(vec![' '; depth(&t) * s.step]);
                    self.at = depth(&t) * s.step
                }
            }
        }
    }
}
/// As much of a terminal as the REPL uses: the row the cursor is in.
#[derive(Default)]
struct Screen {
    row: Vec<char>,
    col: usize,
    pending: Vec<u8>,
    odd: Option<String>,
}
impl Screen {
    fn feed(&mut self, b: &[u8]) {
        self.pending.extend(b);
        let all = std::mem::take(&mut self.pending);
        let valid = match std::str::from_utf8(&all) {
            Ok(s) => s.len(),
            Err(e) => e.valid_up_to(),
        };
        let s = std::str::from_utf8(&all[..valid]).unwrap();
        let mut it = s.char_indices();
        while let Some((i, c)) = it.next() {
            match c {
                '\u{1b}' => {
                    // a control sequence, or the rest of one later
                    let rest = &s[i..];
                    let Some(e) = rest.char_indices().skip(2).find(|x| x.1.is_ascii_alphabetic()).map(|x| x.0) else {
                        self.pending = all[i..].to_vec();
                        return;
                    };
                    let args = &rest[2..e];
                    match rest.as_bytes()[e] {
                        b'G' => self.col = args.parse::<usize>().unwrap_or(1) - 1,
                        b'K' => match args {
                            "2" => self.row.clear(),
                            "" | "0" => self.row.truncate(self.col),
                            _ => self.odd = Some(rest[..=e].to_string()),
                        },
                        b'm' => {}
                        _ => self.odd = Some(rest[..=e].to_string()),
                    }
                    for _ in 0..e {
                        it.next();
                    }
                }
                '\r' => self.col = 0,
                '\n' => self.row.clear(),
                c => {
                    while self.row.len() <= self.col {
                        self.row.push(' ')
                    }
                    self.row[self.col] = c;
                    self.col += 1
                }
            }
        }
        self.pending = all[valid..].to_vec()
    }
    fn text(&self) -> String {
        self.row.iter().collect::<String>().trim_end().to_string()
    }
}
struct Running {
    child: Child,
    master: std::fs::File,
    slave: OwnedFd,
    events: BufReader<std::process::ChildStderr>,
    screen: Screen,
}
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start(s: &Setup) -> std::io::Result<Running> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let master = std::fs::File::from_raw_fd(m);
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let f = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if f < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let slave = OwnedFd::from_raw_fd(f);
        let size = libc::winsize { ws_row: 40, ws_col: 400, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(f, libc::TIOCSWINSZ, &size);
        libc::fcntl(m, libc::F_SETFL, libc::O_RDWR | libc::O_NONBLOCK);
        let mut child = Command::new(std::env::current_exe()?)
            .env("VERIF_REPL", serde_json::to_string(s).unwrap())
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::from(slave.try_clone()?))
            .stdout(Stdio::from(slave.try_clone()?))
            .stderr(Stdio::piped())
            .spawn()?;
        let events = child.stderr.take().unwrap();
        let e = events.as_raw_fd();
        libc::fcntl(e, libc::F_SETFL, libc::O_NONBLOCK);
        Ok(Running { child, master, slave, events: BufReader::new(events), screen: Screen::default() })
    }
}
impl Running {
    fn drain(&mut self) {
        let mut b = [0; 4096];
        while let Ok(n) = self.master.read(&mut b) {
            if n == 0 {
                break;
            }
            self.screen.feed(&b[..n])
        }
    }
    /// The next line of events, "" at the end of the program
    fn event(&mut self, part: &mut String) -> Result<Option<String>, Fail> {
        let end = Instant::now() + Duration::from_secs(60);
        loop {
            self.drain();
            match self.events.read_line(part) {
                Ok(0) => return Ok(None),
                Ok(_) if part.ends_with('\n') => {
                    let l = part.trim_end_matches('\n').to_string();
                    part.clear();
                    return Ok(Some(l));
                }
                Ok(_) => {}
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if Instant::now() > end {
                        return fail("stuck", "the REPL does not answer for 60 s");
                    }
                    let mut p = [libc::pollfd { fd: self.events.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 }, libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
                    unsafe { libc::poll(p.as_mut_ptr(), 2, 200) };
                }
                Err(e) => return fail("stuck", e.to_string()),
            }
        }
    }
}
fn session(g: &mut Gen, c: &mut Case) -> Res {
    let s = Setup { first: g.pick(&["> ", "", "é» ", "in [1]: "]).to_string(), more: g.pick(&["... ", "", "… "]).to_string(), step: g.usize(4), color: g.bool(), blank: g.chance(1, 3) };
    // single keys, and new lines that are taken back
    let mut keys: Vec<Key> = Vec::new();
    for _ in 0..if g.bool() { g.range(15, 50) } else { g.len(50) } {
        if s.blank && g.chance(1, 16) {
            // blank lines from the start, and a way out that is none
            keys.push(Key::CtrlC);
            keys.extend((0..g.range(1, 3)).map(|_| Key::Enter));
            keys.extend((0..g.usize(3)).map(|_| Key::Back));
            keys.push(Key::CtrlD)
        } else if g.chance(1, 12) {
            let (n, k) = (g.usize(3), g.usize(4));
            keys.push(Key::Ch(*g.pick(&['(', '\\'])));
            keys.extend((0..n).map(|_| Key::Ch(' ')));
            keys.push(Key::Enter);
            keys.extend((0..k).map(|_| Key::Back));
        } else {
            keys.push(key(g))
        }
    }
    c.desc(format!("{s:?} {keys:?}"));
    let mut keys = keys;
    // an end for every session
    keys.extend([Key::CtrlC, Key::Ch('q'), Key::Enter]);
    let mut r = match start(&s) {
        Ok(r) => r,
        Err(e) => {
            c.label(format!("no terminal: {e}"));
            return Ok(());
        }
    };
    let before = cooked(r.slave.as_raw_fd());
    let mut m = Model { lines: vec![vec![]], at: 0, handled: vec![], errors: 0, over: false };
    let mut part = String::new();
    let first = r.event(&mut part)?;
    ensure_eq!(first.as_deref(), Some("P0"), "prompt", "the first prompt");
    let mut handled: Vec<String> = Vec::new();
    let (mut errors, mut multi) = (0, false);
    let mut group = Vec::new();
    for k in keys {
        if m.over {
            break;
        }
        group.push(k);
        if !k.waits() {
            continue;
        }
        let mut bytes = Vec::new();
        group.iter().for_each(|k| k.bytes(&mut bytes));
        if r.master.write_all(&bytes).is_err() {
            c.label("the terminal takes no keys");
            return Ok(());
        }
        for (i, k) in group.iter().enumerate() {
            m.press(*k, &s);
            multi |= m.lines.len() > 2;
            loop {
                let e = r.event(&mut part)?;
                match e.as_deref() {
                    Some("X") | None if m.over => {
                        ensure!(e.is_some(), "end", "the REPL ended with an error");
                        break;
                    }
                    Some("P0") | Some("P1") if !m.over => {
                        ensure_eq!(e.as_deref() == Some("P1"), m.lines.len() > 1, "prompt", "continuation prompt after {:?}", &group[..=i]);
                        break;
                    }
                    Some(l) if l.starts_with('H') => {
                        let (t, cooked): (String, bool) = serde_json::from_str(&l[1..]).unwrap();
                        ensure!(cooked, "terminal", "the handler runs with the terminal in raw mode");
                        handled.push(t)
                    }
                    Some("Error: bad z") => errors += 1,
                    e => return fail("end", format!("after {:?}: {e:?}", &group[..=i])),
                }
            }
            ensure_eq!(&handled, &m.handled, "handled", "what was handed over after {:?}", &group[..=i]);
        }
        ensure_eq!(errors, m.errors, "errors", "errors shown");
        if !m.over {
            let want = format!("{}{}", if m.lines.len() > 1 { &s.more } else { &s.first }, m.lines.last().unwrap().iter().collect::<String>());
            let col = m.at + if m.lines.len() > 1 { s.more.chars().count() } else { s.first.chars().count() };
            let end = Instant::now() + Duration::from_secs(20);
            loop {
                r.drain();
                if r.screen.text() == want.trim_end() && r.screen.col == col {
                    break;
                }
                if Instant::now() > end {
                    return fail("screen", format!("after {group:?} the line is {:?} with the cursor at {}, not {want:?} at {col} {:?}", r.screen.text(), r.screen.col, r.screen.odd));
                }
                let mut p = [libc::pollfd { fd: r.master.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
                unsafe { libc::poll(p.as_mut_ptr(), 1, 100) };
            }
        }
        group.clear()
    }
    if multi {
        c.nontrivial()
    }
    let st = r.child.wait().unwrap();
    ensure!(st.success(), "end", "the REPL ends with {st:?}");
    ensure!(!before || cooked(r.slave.as_raw_fd()), "terminal", "the terminal is left in raw mode");
    Ok(())
}
fn buffer(g: &mut Gen, c: &mut Case) -> Res {
    let n = g.range(1, 60);
    let mut b = LineBuffer::new();
    let mut m = String::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        match g.weighted(&[12, 5, 1]) {
            0 => {
                let ch = if g.bool() { *g.pick(&[' ', '\n', 'a', '\t']) } else { text::any_char(g) };
                ops.push(format!("{ch:?}"));
                b.insert(ch);
                m.push(ch)
            }
            1 => {
                ops.push("back".into());
                ensure_eq!(b.backspace(), m.pop().is_some(), "buffer", "backspace after {}", ops.join(" "));
            }
            _ => {
                ops.push("clear".into());
                b.clear();
                m.clear()
            }
        }
        c.desc(ops.join(" "));
        ensure_eq!(b.full_text(), m.clone(), "buffer", "text");
        ensure_eq!(b.is_empty(), m.is_empty(), "buffer", "is_empty");
    }
    // what goes wrong is told in its own words
    let w = text::any(g, 8);
    let own = |e: ReplError| (matches!(e, ReplError::Io(_)), e.to_string());
    ensure_eq!((own(w.as_str().into()), own(w.clone().into())), ((false, w.clone()), (false, w.clone())), "error", "an error made of {w:?}");
    let io = own(std::io::Error::other(w.clone()).into());
    ensure!(io.0 && io.1.contains(&w), "error", "an I/O error made of {w:?} reads {:?}", io.1);
    if !ops.iter().all(|o| o.is_ascii()) {
        c.nontrivial()
    }
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C30",
        rule: "one case = a session of up to 60 keys with the REPL running under a pseudo terminal (session), or a history on the line buffer (buffer); non-trivial: over two lines in one input / a character of several bytes",
        assumptions: vec!["keys and characters that take one column; keys are sent up to the next enter, ctrl-c or ctrl-d at once", "the cursor column counts characters"],
        facets: vec![Facet::new("session", 10_000, 12_000, session), Facet::new("buffer", 160_000, 1_000_000, buffer)],
    }]
}
