//! C21 on a pseudo-terminal: the viewer as `planus view` runs it, in a process of its own, is sent keys
//! and resizes; after each one the screen (as a small terminal emulator sees it) must become the one that the
//! inspector draws for the same keys in this process. At the end the terminal must be as it was.
use crate::inspect::{with_buffer, Read};
use crate::session::gen_key;

use crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use planus_buffer_inspection::InspectableFlatbuffer;
use planus_inspector::{ui, Inspector};
use planus_types::intermediate::{AbsolutePath, DeclarationIndex};
use ratatui::{backend::TestBackend, Terminal};
use std::fs::File;
use std::io::{Read as _, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vmodel::engine::{fail, Fail, St};
use vmodel::src_::mix;
use vmodel::Src;

/// `front tty-child SCHEMA ROOT DATA`: what `planus view` does
pub fn child(args: &[String]) -> ! {
    let buffer = std::fs::read(&args[2]).unwrap();
    let r = planus_inspector::app::run_app(std::path::Path::new(&args[0]), &args[1], &buffer, planus_translation::ConverterOptions::default());
    std::process::exit(match r { Ok(c) if format!("{c:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) => 0, Ok(_) => 3, Err(e) => { eprintln!("{e:?}"); 4 } })
}

struct Pty { master: File, slave: OwnedFd }
fn openpty(w: u16, h: u16) -> Option<Pty> {
    let (mut m, mut s) = (-1, -1);
    let size = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
    // SAFETY: plain system calls on fresh descriptors
    unsafe {
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size) != 0 { return None; }
        for fd in [m, s] { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC); }
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        Some(Pty { master: File::from_raw_fd(m), slave: OwnedFd::from_raw_fd(s) })
    }
}
fn modes(fd: &OwnedFd) -> (u32, u32, u32, u32) {
    // SAFETY: termios is plain data
    unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(fd.as_raw_fd(), &mut t); (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag) }
}

/// as much of a terminal as the viewer uses
#[derive(Default)]
struct Emu { w: usize, h: usize, cells: Vec<char>, x: usize, y: usize, pending: Vec<u8>, alternate: bool, entered: bool, hidden: bool, odd: Option<String> }
impl Emu {
    fn new(w: u16, h: u16) -> Emu { Emu { w: w as usize, h: h as usize, cells: vec![' '; w as usize * h as usize], ..Default::default() } }
    fn resize(&mut self, w: u16, h: u16) { self.w = w as usize; self.h = h as usize; self.cells = vec![' '; self.w * self.h]; self.x = 0; self.y = 0; }
    fn feed(&mut self, b: &[u8]) {
        self.pending.extend_from_slice(b);
        let p = std::mem::take(&mut self.pending);
        let mut i = 0;
        while i < p.len() {
            if p[i] == 0x1b {
                if i + 1 == p.len() { break; }
                if p[i + 1] != b'[' { self.odd.get_or_insert(format!("escape {:02x?}", &p[i..(i + 4).min(p.len())])); i += 2; continue; }
                let Some(n) = p[i + 2..].iter().position(|c| (0x40..0x7f).contains(c)) else { break };
                let arg = String::from_utf8_lossy(&p[i + 2..i + 2 + n]).to_string();
                self.csi(&arg, p[i + 2 + n]);
                i += n + 3;
            } else {
                let n = match p[i] { 0..=0x7f => 1, 0xc0..=0xdf => 2, 0xe0..=0xef => 3, _ => 4 };
                if i + n > p.len() { break; }
                let c = std::str::from_utf8(&p[i..i + n]).ok().and_then(|s| s.chars().next()).unwrap_or('\u{fffd}');
                match c {
                    '\r' => self.x = 0,
                    '\n' => self.y = (self.y + 1).min(self.h.saturating_sub(1)),
                    c => {
                        if self.x < self.w && self.y < self.h { self.cells[self.y * self.w + self.x] = c; }
                        self.x += 1;
                    }
                }
                i += n;
            }
        }
        self.pending = p[i..].to_vec();
    }
    fn csi(&mut self, arg: &str, f: u8) {
        let n: Vec<usize> = arg.split(';').map(|x| x.parse().unwrap_or(0)).collect();
        match (arg, f) {
            (_, b'H') => { self.y = n[0].max(1) - 1; self.x = n.get(1).copied().unwrap_or(1).max(1) - 1; }
            (_, b'm') => {}
            ("2", b'J') => self.cells.fill(' '),
            ("" | "0", b'J') => { let at = (self.y * self.w + self.x).min(self.cells.len()); self.cells[at..].fill(' '); }
            ("?1049", b'h') => { self.alternate = true; self.entered = true; self.cells.fill(' '); }
            ("?1049", b'l') => self.alternate = false,
            ("?25", b'h') => self.hidden = false,
            ("?25", b'l') => self.hidden = true,
            (_, b'h' | b'l') if arg.starts_with('?') => {}
            _ => { self.odd.get_or_insert(format!("CSI {arg} {}", f as char)); }
        }
    }
}

struct Run { pty: Pty, child: Child, emu: Emu }
impl Drop for Run { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Run {
    fn pump(&mut self) -> bool {
        let mut p = libc::pollfd { fd: self.pty.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        // SAFETY: one valid descriptor
        unsafe { libc::poll(&mut p, 1, 20) };
        let mut b = [0u8; 65536];
        match self.pty.master.read(&mut b) { Ok(n) if n > 0 => { self.emu.feed(&b[..n]); true } _ => false }
    }
    fn wait(&mut self, secs: u64, mut ok: impl FnMut(&mut Run) -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs(secs);
        loop {
            if ok(self) { return true; }
            if !self.pump() && Instant::now() > end { return ok(self); }
            if Instant::now() > end + Duration::from_secs(secs) { return false; }
        }
    }
    fn resize(&mut self, w: u16, h: u16) {
        let size = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
        self.emu.resize(w, h);
        // SAFETY: a valid descriptor
        unsafe { libc::ioctl(self.pty.master.as_raw_fd(), libc::TIOCSWINSZ, &size) };
    }
}

/// a key as a terminal sends it, and what it is then
fn encoded(k: &KeyEvent) -> (Vec<u8>, KeyEvent) {
    let ctrl = k.modifiers == KeyModifiers::CONTROL;
    let csi = |c: char| (if ctrl { format!("\x1b[1;5{c}") } else { format!("\x1b[{c}") }.into_bytes(), *k);
    let tilde = |c: char| (if ctrl { format!("\x1b[{c};5~") } else { format!("\x1b[{c}~") }.into_bytes(), *k);
    let plain = |b: &[u8], m: KeyModifiers| (b.to_vec(), KeyEvent::new(k.code, m));
    match k.code {
        KeyCode::Up => csi('A'),
        KeyCode::Down => csi('B'),
        KeyCode::Right => csi('C'),
        KeyCode::Left => csi('D'),
        KeyCode::Home => csi('H'),
        KeyCode::End => csi('F'),
        KeyCode::PageUp => tilde('5'),
        KeyCode::PageDown => tilde('6'),
        KeyCode::Tab => plain(b"\t", KeyModifiers::NONE),
        KeyCode::Enter => plain(b"\r", KeyModifiers::NONE),
        KeyCode::Backspace => plain(b"\x7f", KeyModifiers::NONE),
        KeyCode::Esc => plain(b"\x1b", KeyModifiers::NONE),
        KeyCode::Char(c) => plain(c.to_string().as_bytes(), if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE }),
        _ => unreachable!(),
    }
}
fn simple(c: char) -> bool { (' '..'\x7f').contains(&c) || ('\u{2500}'..'\u{25ff}').contains(&c) }

fn session(st: &mut St, r: &Read, t: usize, bytes: &[u8], s: &mut Src, what: &dyn Fn() -> String) -> Result<(), Fail> {
    let root = r.sch.path(t);
    let path = AbsolutePath(root.split('.').map(|s| s.to_string()).collect());
    let Some((idx, _, _)) = r.d.declarations.get_full(&path) else { return fail("HARNESS no such table", what()) };
    let buf = InspectableFlatbuffer { declarations: &r.d, buffer: bytes };
    let mut ins = Inspector::new(buf, DeclarationIndex(idx));
    let (mut w, mut h) = (s.range(30, 130) as u16, s.range(12, 45) as u16);
    let dir = crate::run::scratch();
    let (schema, data) = (dir.join("tty.fbs"), dir.join("tty.bin"));
    for (n, t) in r.sch.files("tty") { std::fs::write(dir.join(n), t).unwrap(); }
    std::fs::write(&data, bytes).unwrap();
    let Some(pty) = openpty(w, h) else { st.exclude("no pseudo-terminal can be opened"); return Ok(()) };
    let before = modes(&pty.slave);
    let fd = || Stdio::from(pty.slave.try_clone().unwrap());
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("tty-child").arg(&schema).arg(&root).arg(&data).env("TERM", "xterm").stdin(fd()).stdout(fd()).stderr(fd());
    // SAFETY: async-signal-safe calls only
    unsafe { cmd.pre_exec(|| { if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 { return Err(std::io::Error::last_os_error()); } Ok(()) }); }
    let child = match cmd.spawn() { Ok(c) => c, Err(_) => { st.exclude("the pseudo-terminal cannot be a controlling terminal"); return Ok(()) } };
    let mut run = Run { pty, child, emu: Emu::new(w, h) };
    let mut log: Vec<String> = vec![format!("{w}x{h}")];
    let mut term = Terminal::new(TestBackend::new(w, h)).unwrap();
    let text = |t: &Terminal<TestBackend>| -> Vec<String> { let b = t.backend().buffer(); b.content.iter().map(|c| c.symbol().to_string()).collect() };
    term.draw(|f| ui::draw(f, &mut ins)).unwrap();
    let mut keys = 0;
    let n = s.range(4, 22);
    for k in 0..=n {
        // the screen becomes the expected one
        let want = text(&term);
        if want.iter().any(|c| c.chars().count() != 1 || !c.chars().all(simple)) { st.exclude("a character that is not one column wide"); return Ok(()); }
        // the terminal's own cursor is only shown where text is entered
        let input = matches!(ins.modal, Some(planus_inspector::ModalState::GoToByte { .. }));
        let at = term.get_cursor_position().unwrap();
        let same = |e: &Emu| e.hidden != input && (!input || (e.x, e.y) == (at.x as usize, at.y as usize)) && e.pending.is_empty() && e.cells.len() == want.len() && e.cells.iter().zip(&want).all(|(a, b)| b.starts_with(*a));
        if !run.wait(8, |r| same(&r.emu)) {
            if let Ok(Some(c)) = run.child.try_wait() { return fail("terminal: ended", format!("the viewer ended with {c}\nafter {}\n{}", log.join(" "), what())); }
            let row = (0..h as usize).find(|y| (0..w as usize).any(|x| !want[y * w as usize + x].starts_with(run.emu.cells[y * w as usize + x]))).unwrap_or(0);
            let cut = |v: Vec<String>| v.concat();
            return fail("terminal: screen", format!("row {row} of the terminal is {:?} instead of {:?} {:?}, its cursor is at {:?} and hidden {} instead of {at} and hidden {}\nafter {}\n{}",
                cut(run.emu.cells.iter().skip(row * w as usize).take(w as usize).map(|c| c.to_string()).collect()), cut(want.iter().skip(row * w as usize).take(w as usize).cloned().collect()), run.emu.odd, (run.emu.x, run.emu.y), run.emu.hidden, !input, log.join(" "), what()));
        }
        if !run.emu.alternate { return fail("terminal: modes", format!("not on the alternate screen\nafter {}\n{}", log.join(" "), what())); }
        st.class("terminal screen compared");
        if k == n { break; }
        if s.chance(1, 8) {
            (w, h) = (s.range(20, 140) as u16, s.range(8, 50) as u16);
            if (w, h) == (run.emu.w as u16, run.emu.h as u16) { w += 1; }
            log.push(format!("resize({w}x{h})"));
            run.resize(w, h);
            term = Terminal::new(TestBackend::new(w, h)).unwrap();
            term.draw(|f| ui::draw(f, &mut ins)).unwrap();
            continue;
        }
        let mut key = gen_key(s);
        // an escape that changes nothing cannot be told from the start of the next key
        if key.code == KeyCode::Esc && ins.modal.is_none() { key = KeyEvent::new(KeyCode::Char('?'), KeyModifiers::NONE); }
        let (sent, key) = encoded(&key);
        log.push(format!("{:?}", key.code));
        keys += 1;
        if ins.on_key(key) { term.draw(|f| ui::draw(f, &mut ins)).unwrap(); }
        run.pty.master.write_all(&sent).unwrap();
        if ins.should_quit { break; }
    }
    if !ins.should_quit {
        let esc = ins.modal.is_none() && ins.view_stack.is_empty() && s.bool();
        log.push(if esc { "quit with Esc" } else { "quit with ctrl+c" }.into());
        run.pty.master.write_all(if esc { b"\x1b" } else { b"\x03" }).unwrap();
    }
    let mut status = None;
    run.wait(8, |r| { if status.is_none() { status = r.child.try_wait().ok().flatten(); } status.is_some() });
    let Some(c) = status else { return fail("terminal: quit", format!("the viewer does not end\nafter {}\n{}", log.join(" "), what())) };
    while run.pump() {}
    if !c.success() { return fail("terminal: status", format!("the viewer ends with {c}\nafter {}\n{}", log.join(" "), what())); }
    let after = modes(&run.pty.slave);
    if run.emu.alternate || run.emu.hidden || after != before { return fail("terminal: left as it was", format!("alternate screen {}, cursor hidden {}, modes {before:x?} before and {after:x?} after\nafter {}\n{}", run.emu.alternate, run.emu.hidden, log.join(" "), what())); }
    st.class("terminal session ended in order");
    if keys >= 4 { st.class("terminal session of at least four keys"); }
    Ok(())
}

pub fn probe(st: &mut St) -> Result<(), Fail> {
    let n = if st.thorough { 400 } else { 40 };
    for k in 0..n {
        let go = |st: &mut St| {
            let mut s = Src::new(mix(0x7117 + k));
            with_buffer(&mut s, st, &mut session)
        };
        // a machine under load may be slow to answer: what fails must fail again
        if go(st).is_err() { std::thread::sleep(Duration::from_secs(1)); go(st)?; st.class("terminal session repeated"); }
    }
    Ok(())
}
