//! C21: interactive inspector sessions: random keys and screens against a model of the cursor.
use crate::inspect::{describe, with_buffer, Read};

use crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use planus_buffer_inspection::{InspectableFlatbuffer, Object};
use planus_inspector::{ui, ActiveWindow, Inspector, ModalState};
use planus_types::intermediate::{AbsolutePath, DeclarationIndex};
use ratatui::{backend::TestBackend, Terminal};
use vmodel::engine::{fail, guarded, Fail, Prop, St};
use vmodel::src_::{hash_bytes, hash_str};
use vmodel::Src;

#[derive(Clone, PartialEq, Debug)]
struct View { byte: usize, root: Option<(usize, usize)>, interpretation: usize }
fn view(v: &planus_inspector::ViewState) -> View { View { byte: v.byte_index, root: v.info_view_data.as_ref().map(|d| (d.root_object_index, d.lines.index())), interpretation: v.info_view_data.as_ref().map_or(0, |d| d.interpretations.index()) } }

pub fn gen_key(s: &mut Src) -> KeyEvent {
    let code = match s.weighted(&[10, 5, 4, 3, 3, 6, 2]) {
        0 => *s.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right]),
        1 => *s.pick(&[KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::End]),
        2 => KeyCode::Tab,
        3 => *s.pick(&[KeyCode::Esc, KeyCode::Backspace]),
        4 => KeyCode::Char(*s.pick(&['g', 'h', 'i', 'c', '?', 'x'])),
        5 => KeyCode::Enter,
        _ => KeyCode::Char(*s.pick(&['0', '1', '4', '9', 'a', 'f', 'A', 'z', '\u{e9}'])),
    };
    KeyEvent::new(code, if s.chance(1, 6) { KeyModifiers::CONTROL } else { KeyModifiers::NONE })
}

/// a byte of the hex view as drawn: its value, background and whether it is marked as the cursor
type Shown = (u8, ratatui::style::Color, bool);
struct Screen { w: usize, cells: Vec<ratatui::buffer::Cell>, text: Vec<Vec<String>> }
impl Screen {
    fn of(t: &Terminal<TestBackend>) -> Screen {
        let b = t.backend().buffer();
        let w = (b.area.width as usize).max(1);
        Screen { w, cells: b.content.to_vec(), text: b.content.chunks(w).map(|r| r.iter().map(|c| c.symbol().to_string()).collect()).collect() }
    }
    fn titled(&self, t: &str) -> Option<usize> { self.text.iter().rposition(|r| r.concat().contains(t)) }
    /// the hex dump on the screen: (address, bytes) rows
    fn hex(&self) -> Option<Vec<(usize, Vec<Shown>)>> {
        let top = self.titled(" Hex view ")?;
        let mut rows = vec![];
        'row: for y in top + 1..self.text.len() {
            let r = &self.text[y];
            let mut x = r.iter().position(|c| c.as_bytes()[0].is_ascii_alphanumeric()).unwrap_or(r.len());
            let mut toks = vec![];
            while x < r.len() {
                let a = x;
                while x < r.len() && r[x].as_bytes()[0].is_ascii_alphanumeric() { x += 1; }
                if x == a { if r[x] != " " { break; } x += 1; continue; }
                toks.push((a, r[a..x].concat()));
            }
            let Some(addr) = toks.first().and_then(|(_, a)| usize::from_str_radix(a, 16).ok()) else { continue };
            let mut bytes = vec![];
            for (x, t) in &toks[1..] {
                let (2, Ok(b)) = (t.len(), u8::from_str_radix(t, 16)) else { continue 'row };
                let (c, d) = (&self.cells[y * self.w + x], &self.cells[y * self.w + x + 1]);
                let u = |c: &ratatui::buffer::Cell| c.modifier.contains(ratatui::style::Modifier::UNDERLINED);
                if c.bg != d.bg || u(c) != u(d) { return None; }
                bytes.push((b, c.bg, u(c)));
            }
            rows.push((addr, bytes));
        }
        Some(rows)
    }
    /// the rows inside the object view and the info view
    fn upper(&self) -> Option<(Vec<String>, Vec<String>)> {
        let bottom = self.titled(" Hex view ")?;
        if self.titled(" Object view ")? != 0 || bottom < 3 { return None; }
        let split = self.text[0].iter().rposition(|c| c == "\u{256d}")?;
        if split < 3 { return None; }
        Some(((1..bottom - 1).map(|y| self.text[y][1..split - 1].concat()).collect(), (1..bottom - 1).map(|y| self.text[y][split + 1..self.w - 1].concat()).collect()))
    }
}
/// compares what is drawn without a dialogue with the state that it shows
fn look(ins: &Inspector, bytes: &[u8], scr: &Screen, big: bool) -> Result<bool, (&'static str, String)> {
    let Some(rows) = scr.hex() else { return Ok(false) };
    let hex = matches!(ins.active_window, ActiveWindow::HexView);
    let (c, d) = (ins.view_state.byte_index, ins.view_state.info_view_data.as_ref());
    let ranges = d.map(|d| { let (a, b) = (d.lines.cur(), &d.lines[0]); (a.start as usize..a.end as usize, b.start as usize..b.end as usize) });
    let mut colours: [Option<ratatui::style::Color>; 3] = [None; 3];
    for (a, b) in &rows {
        for (i, (v, bg, cursor)) in b.iter().enumerate() {
            let p = a + i;
            if bytes.get(p) != Some(v) { return Err(("hex view", format!("the hex view shows {v:#x} at {p:#x}"))); }
            if *cursor != (hex && p == c) { return Err(("cursor mark", format!("byte {p:#x} is {} as the cursor, the cursor is at {c:#x}", if *cursor { "marked" } else { "not marked" }))); }
            let k = match &ranges { Some((i, _)) if i.contains(&p) => 0, Some((_, o)) if o.contains(&p) => 1, _ => 2 };
            if *colours[k].get_or_insert(*bg) != *bg { return Err(("colours", format!("byte {p:#x} is not coloured like the others of its {}", ["line", "object", "surroundings"][k]))); }
        }
    }
    for (i, j) in [(0, 1), (0, 2), (1, 2)] { if colours[i].is_some() && colours[i] == colours[j] { return Err(("colours", "the marked line, its object and the other bytes look the same".into())); } }
    if !rows.iter().any(|(a, b)| (*a..*a + b.len()).contains(&c)) { return Err(("cursor not shown", format!("byte {c:#x} is not among the rows {:x?} of the screen", rows.iter().map(|r| r.0).collect::<Vec<_>>()))); }
    let Some((obj, info)) = scr.upper().filter(|_| big) else { return Ok(true) };
    let num = |t: &str| usize::from_str_radix(t.trim(), 16).ok();
    let row = |k: &str| info.iter().find_map(|r| r.trim_start().strip_prefix(k)).map(|r| r.trim().to_string());
    if row("Cursor").and_then(|r| num(&r)) != Some(c) { return Err(("info view", format!("the cursor is shown as {:?}, it is at {c:#x}", row("Cursor")))); }
    if let (Some(d), Some((i, o))) = (d, &ranges) {
        for (k, x) in [("Inner", i), ("Outer", o)] {
            let Some(t) = row(k) else { if info.len() > 12 { return Err(("info view", format!("{k} is not shown"))); } continue };
            let ok = t.split_once('-').is_some_and(|(a, b)| num(a) == Some(x.start) && num(b) == Some(x.end - 1));
            if !ok { return Err(("info view", format!("{k} is shown as {t:?}, it is {x:x?}"))); }
        }
        if let Some(t) = row("Interpretation:") {
            if t != format!("{}/{}", d.interpretations.index() + 1, d.interpretations.len()) { return Err(("info view", format!("the interpretation is shown as {t}, it is {} of {}", d.interpretations.index(), d.interpretations.len()))); }
        }
        // the lines of the object, from the first one shown on
        let first = d.first_line_shown;
        let cur = d.lines.index();
        if !(first..first + obj.len()).contains(&cur) { return Err(("object view", format!("line {cur} is not among the {} shown from {first} on", obj.len()))); }
        for (y, r) in obj.iter().enumerate() {
            let Some(l) = d.lines.iter().nth(first + y) else { if r.trim().is_empty() { continue } else { return Err(("object view", format!("row {y} shows {r:?} after the last line"))) } };
            if !l.line.bytes().all(|b| (b' '..0x7f).contains(&b)) || !r.is_ascii() { continue; }
            let t: String = format!("{}{}", " ".repeat(l.indentation), l.line).chars().take(r.len()).collect();
            let star = matches!(l.object, Object::Offset(_));
            let same = if star && !r.is_empty() { r.starts_with('*') && r.get(1..).map(|r| r.trim_end()) == Some(t.get(1..).unwrap_or("").trim_end()) } else { r.trim_end() == t.trim_end() };
            if !same { return Err(("object view", format!("row {y} shows {r:?}, line {} is {t:?}", first + y))); }
        }
    }
    Ok(true)
}

fn session(st: &mut St, r: &Read, t: usize, bytes: &[u8], s: &mut Src, what: &dyn Fn() -> String) -> Result<(), Fail> {
    let path = AbsolutePath(r.sch.path(t).split('.').map(|s| s.to_string()).collect());
    let Some((idx, _, _)) = r.d.declarations.get_full(&path) else { return fail("HARNESS no such table", what()) };
    let buf = InspectableFlatbuffer { declarations: &r.d, buffer: bytes };
    let mut log: Vec<String> = vec![];
    macro_rules! bad { ($sig:expr, $($f:tt)*) => { return fail($sig, format!("{}\nafter {}\n{}", format!($($f)*), log.join(" "), what())) } }
    let step = |sig: &str, f: Fail, log: &[String]| Fail { sig: format!("{sig}: {}", f.sig), msg: format!("{}\nafter {}\n{}", f.msg, log.join(" "), what()) };
    let mut ins = guarded(|| Inspector::new(buf, DeclarationIndex(idx))).map_err(|f| step("start", f, &log))?;
    let (mut w, mut h) = (s.range(20, 160) as u16, s.range(8, 60) as u16);
    let mut term = Terminal::new(TestBackend::new(w, h)).unwrap();
    let mut moved = 0;
    // bytes that belong to several objects
    let several: Vec<usize> = (0..bytes.len()).filter(|b| ins.object_mapping.get_interpretations(*b as u32, &buf).len() > 1).collect();
    if !several.is_empty() { st.class("bytes with several interpretations"); }
    let mut drawn = false;
    // the screen as last drawn, while no key since then asked for a new one
    let mut current: Option<(u16, u16, Screen)> = None;
    let n = s.range(1, 40);
    for _ in 0..n {
        if !drawn || s.chance(1, 3) {
            if s.chance(1, 6) {
                (w, h) = if s.chance(1, 4) { (s.range(1, 30) as u16, s.range(1, 12) as u16) } else { (s.range(20, 200) as u16, s.range(5, 70) as u16) };
                log.push(format!("resize({w}x{h})"));
                term = Terminal::new(TestBackend::new(w, h)).unwrap();
            }
            log.push("draw".into());
            guarded(|| { term.draw(|f| ui::draw(f, &mut ins)).unwrap(); }).map_err(|f| step("draw", f, &log))?;
            drawn = true;
            let shown = Screen::of(&term);
            if let Some(old) = current.take().filter(|c| (c.0, c.1) == (w, h)) {
                if let Some(y) = (0..shown.text.len()).find(|&y| shown.text[y] != old.2.text[y]) { bad!("stale screen", "no key asked for the screen to be drawn again, but row {y} of {:?} is now {:?}", old.2.text[y].concat(), shown.text[y].concat()); }
                if shown.cells != old.2.cells { bad!("stale screen", "no key asked for the screen to be drawn again, but it has other colours"); }
                st.class("screen unchanged by a key that is not drawn");
            }
            current = Some((w, h, shown));
            st.class(&format!("screen: {}", if w < 30 || h < 12 { "small" } else { "normal" }));
            if ins.modal.is_none() && w >= 45 && h >= 14 {
                match look(&ins, bytes, &Screen::of(&term), w >= 80 && h >= 24) {
                    Ok(true) => st.class("drawn screen compared"),
                    Ok(false) => {}
                    Err((sig, m)) => bad!(sig, "{m} ({w}x{h} screen)"),
                }
            }
        }
        // one key, or the three-step dialogue that goes to a byte
        let before = view(&ins.view_state);
        let stack: Vec<View> = ins.view_stack.iter().map(view).collect();
        if ins.modal.is_none() && s.chance(1, 8) {
            let x = match s.below(6) { 4 | 5 if !several.is_empty() => *s.pick(&several), 0 => s.usize(bytes.len()), 1 => bytes.len() + s.usize(3), 2 => s.u64() as usize, _ => s.usize(bytes.len()) & !3 };
            log.push(format!("goto({x:#x})"));
            let up = s.bool();
            let text = if up { format!("{x:X}") } else { format!("{x:x}") };
            let keys: Vec<KeyCode> = std::iter::once(KeyCode::Char('g')).chain(text.chars().map(KeyCode::Char)).chain([KeyCode::Enter]).collect();
            current = None;
            for k in keys { guarded(|| { ins.on_key(KeyEvent::new(k, KeyModifiers::NONE)); }).map_err(|f| step("key", f, &log))?; }
            let want = x.min(bytes.len() - 1);
            if ins.view_state.byte_index != want || ins.modal.is_some() { bad!("go to byte", "the cursor is at {:#x}", ins.view_state.byte_index); }
            if ins.view_stack.len() != stack.len() + 1 || ins.view_stack.last().map(view) != Some(before.clone()) { bad!("go to byte", "the way back is lost"); }
            if !matches!(ins.active_window, ActiveWindow::HexView) { bad!("go to byte", "the keys do not move the byte that was gone to"); }
            st.class("went to a byte");
            moved += 1;
        } else {
            let mut key = gen_key(s);
            if ins.modal.is_none() && ins.view_state.info_view_data.as_ref().is_some_and(|d| d.interpretations.len() > 1) && s.chance(1, 4) { key = KeyEvent::new(KeyCode::Char(*s.pick(&['c', 'c', 'i'])), KeyModifiers::NONE); }
            let ctrl = key.modifiers == KeyModifiers::CONTROL;
            log.push(format!("{}{:?}", if ctrl { "ctrl+" } else { "" }, key.code));
            let modal = ins.modal.is_some();
            let hex = matches!(ins.active_window, ActiveWindow::HexView);
            let line = ins.view_state.info_view_data.as_ref().map(|d| (d.lines.index(), d.lines.iter().map(|l| (l.start as usize, l.parent_line_index, l.start_line_index, l.end_line_index)).collect::<Vec<_>>(), d.lines.cur().object));
            let history = match &ins.modal { Some(ModalState::ViewHistory { index }) => Some(*index), _ => None };
            let width = ins.hex_view_state.line_size;
            let info = ins.view_state.info_view_data.as_ref();
            let offered: Vec<(usize, usize)> = info.map_or(vec![], |d| d.interpretations.iter().map(|i| (i.root_object_index, *i.lines.last().unwrap())).collect());
            let marked = info.map(|d| { let l = d.lines.cur(); (l.start as usize, l.end as usize) });
            let input = match &ins.modal { Some(ModalState::GoToByte { input }) => Some(input.clone()), _ => None };
            let picked = match &ins.modal { Some(ModalState::TreeView { state, .. }) => Some((state.lines.index(), state.lines.len())), _ => None };
            if guarded(|| ins.on_key(key)).map_err(|f| step("key", f, &log))? { current = None; }
            if ins.should_quit {
                let ok = (key.code == KeyCode::Char('c') && ctrl) || (key.code == KeyCode::Esc && !modal && stack.is_empty());
                if !ok { bad!("quit", "the session ends"); }
                break;
            }
            let after = view(&ins.view_state);
            let now = ins.view_stack.len();
            let entered = input.as_ref().filter(|_| key.code == KeyCode::Enter).and_then(|t| usize::from_str_radix(t, 16).ok());
            let focus = match key.code { KeyCode::Tab => !hex || line.is_none(), _ => hex || entered.is_some() };
            if focus != matches!(ins.active_window, ActiveWindow::HexView) { bad!("focus", "{:?} leads to the wrong view", key.code); }
            if !modal {
                match key.code {
                    KeyCode::Esc | KeyCode::Backspace => if let Some(v) = stack.last() {
                        if after != *v || now + 1 != stack.len() { bad!("back", "back leads to {after:?} instead of {v:?}"); }
                        st.class("went back");
                        moved += 1;
                    },
                    KeyCode::Enter => {
                        let target = match &line { Some((_, _, o @ Object::Offset(x))) => Some((describe(&r.d, o), x.get_byte_index(&buf).ok())), _ => None };
                        match target {
                            Some((name, Some(to))) => {
                                if after.byte != to as usize || now != stack.len() + 1 { bad!("follow", "{name} leads to {:#x} instead of {to:#x}", after.byte); }
                                let (root, _) = ins.object_mapping.root_objects.get_index(after.root.map_or(usize::MAX, |r| r.0)).map(|x| (describe(&r.d, x.0), 0)).unwrap_or_default();
                                let expect = format!("{} @{to}", name.trim_start_matches("offset to ").split(" @").next().unwrap());
                                if root != expect { bad!("follow", "{name} leads to {root} instead of {expect}"); }
                                st.class("followed an offset");
                                moved += 1;
                            }
                            _ => if after != before || now != stack.len() { bad!("follow", "enter moved to {after:?}"); },
                        }
                    }
                    KeyCode::Up | KeyCode::Down | KeyCode::Left | KeyCode::Right | KeyCode::Home | KeyCode::End | KeyCode::PageUp | KeyCode::PageDown => {
                        if now != stack.len() { bad!("history", "moving changed the history"); }
                        if hex {
                            let (b, len) = (before.byte, bytes.len());
                            let want = match key.code {
                                KeyCode::Home => Some(0),
                                KeyCode::End => Some(len - 1),
                                KeyCode::Left if !ctrl => Some(b.saturating_sub(1)),
                                KeyCode::Right if !ctrl => Some((b + 1).min(len - 1)),
                                KeyCode::Up => Some(if b >= width { b - width } else { b }),
                                KeyCode::Down => Some(if b + width < len { b + width } else { b }),
                                // by whole rows
                                KeyCode::PageUp => if after.byte == 0 || after.byte < b && (b - after.byte) % width == 0 || width == 0 && after.byte == b { None } else { Some(b) },
                                KeyCode::PageDown => if after.byte == len - 1 || after.byte > b && (after.byte - b) % width == 0 || width == 0 && after.byte == b { None } else { Some(b) },
                                // to the byte before, or after, the marked object
                                KeyCode::Left => Some(marked.map_or(b, |m| m.0).saturating_sub(1)),
                                _ => Some(marked.map_or(b + 1, |m| m.1).min(len - 1)),
                            };
                            if want.is_some_and(|w| w != after.byte) { bad!("move", "{:?} moves from byte {b} to {}", key.code, after.byte); }
                        } else if let Some((cur, lines, _)) = &line {
                            let last = lines.len() - 1;
                            let want = match key.code {
                                KeyCode::Home => Some(0),
                                KeyCode::End => Some(last),
                                KeyCode::Up if !ctrl => Some(cur.saturating_sub(1)),
                                KeyCode::Down if !ctrl => Some((cur + 1).min(last)),
                                KeyCode::Left => Some(lines[*cur].1),
                                // to the first, or last, line of the object
                                KeyCode::Up => Some(if lines[*cur].2 != *cur { lines[*cur].2 } else { cur.saturating_sub(1) }),
                                KeyCode::Down => Some(if lines[*cur].3 != *cur { lines[*cur].3 } else { (cur + 1).min(last) }),
                                KeyCode::PageUp => { let g = after.root.map_or(0, |r| r.1); if g < *cur || g == 0 { None } else { Some(0) } }
                                KeyCode::PageDown => { let g = after.root.map_or(0, |r| r.1); if g > *cur || g == last { None } else { Some(last) } }
                                KeyCode::Right => Some(if lines[*cur].2 != lines[*cur].3 { lines[*cur].2 + 1 } else { *cur }),
                                _ => None,
                            };
                            let got = after.root.map_or(usize::MAX, |r| r.1);
                            if after.root.map(|r| r.0) != before.root.map(|r| r.0) { bad!("move", "moving between lines changed the object"); }
                            if want.is_some_and(|w| w != got) || got > last { bad!("move", "{:?} moves from line {cur} to {got} of {}", key.code, lines.len()); }
                            if got != *cur && after.byte != lines[got].0 { bad!("move", "line {got} starts at {}, the cursor is at {}", lines[got].0, after.byte); }
                        }
                        moved += (after != before) as usize;
                    }
                    KeyCode::Tab | KeyCode::Char('g' | 'h' | 'i' | '?' | 'x') => if after != before { bad!("move", "{:?} moved the cursor to {after:?}", key.code); },
                    KeyCode::Char('c') => {
                        if after.byte != before.byte || now != stack.len() { bad!("move", "c moved the cursor"); }
                        if offered.len() > 1 {
                            let i = (before.interpretation + 1) % offered.len();
                            if after.interpretation != i || after.root != Some(offered[i]) { bad!("cycle", "c leads to {after:?}, the next interpretation is {i}: {:?}", offered[i]); }
                            st.class("cycled between interpretations");
                            moved += 1;
                        } else if after != before { bad!("cycle", "c leads to {after:?}"); }
                    }
                    _ => (),
                }
            } else if let (Some(i), KeyCode::Enter) = (history, key.code) {
                let want = stack.get(i).unwrap_or(&before);
                if after != *want || now != i.min(stack.len()) { bad!("history", "entry {i} leads to {after:?} instead of {want:?}"); }
                st.class("picked from the history");
            } else if let (Some(to), Some(t)) = (entered, &input) {
                if after.byte != to.min(bytes.len() - 1) || now != stack.len() + 1 || ins.view_stack.last().map(view) != Some(before.clone()) { bad!("go to byte", "{t:?} leads to {:#x}", after.byte); }
            } else if let (Some((i, n)), KeyCode::Enter) = (picked, key.code) {
                if n != offered.len() { bad!("interpretations", "{n} are listed, {} are offered", offered.len()); }
                let root = after.root.unwrap_or_default();
                if after.byte != before.byte || after.interpretation != i || root.0 != offered[i].0 || (i != before.interpretation && root.1 != offered[i].1) || now != stack.len() + 1 || ins.view_stack.last().map(view) != Some(before.clone()) { bad!("interpretations", "interpretation {i}, {:?}, leads to {after:?}", offered[i]); }
                st.class("picked an interpretation");
            } else if key.code != KeyCode::Tab || after != before {
                // a key for the dialogue changes nothing else
                if after != before || now != stack.len() { bad!("dialogue", "{:?} in a dialogue leads to {after:?}", key.code); }
                let at = |i: usize, last: usize| match key.code { KeyCode::Up => i.saturating_sub(1), KeyCode::Down => (i + 1).min(last), _ => i };
                match &ins.modal {
                    Some(ModalState::ViewHistory { index }) => if let Some(i) = history { if *index != at(i, stack.len()) { bad!("dialogue", "{:?} leads from entry {i} to {index} of {}", key.code, stack.len()); } },
                    Some(ModalState::TreeView { state, .. }) => if let Some((i, n)) = picked { if state.lines.index() != at(i, n - 1) || state.lines.len() != n { bad!("dialogue", "{:?} leads from entry {i} to {} of {n}", key.code, state.lines.index()); } },
                    Some(ModalState::GoToByte { input: now }) => if let Some(t) = &input {
                        let mut t = t.clone();
                        match key.code { KeyCode::Backspace => { t.pop(); } KeyCode::Char(c) if c.is_ascii_hexdigit() && t.len() < 16 => t.push(c.to_ascii_lowercase()), _ => {} }
                        if *now != t { bad!("dialogue", "{:?} gives the offset {now:?} instead of {t:?}", key.code); }
                    },
                    _ => (),
                }
            }
            if now > stack.len() + 1 || ins.view_stack.iter().zip(&stack).any(|(a, b)| view(a) != *b) { bad!("history", "the history changed"); }
        }
        // what must hold at any time
        for v in ins.view_stack.iter().chain([&ins.view_state]) {
            let b = v.byte_index;
            if b >= bytes.len() { bad!("cursor outside the buffer", "byte {b} of {}", bytes.len()); }
            let all = ins.object_mapping.get_interpretations(b as u32, &buf);
            match &v.info_view_data {
                None => if !all.is_empty() { bad!("nothing shown", "byte {b} belongs to {} objects", all.len()); },
                Some(d) => {
                    let cur = d.lines.cur();
                    if !(cur.start as usize..cur.end as usize).contains(&b) { bad!("line without the cursor", "byte {b} is not in {}..{} of line {:?}", cur.start, cur.end, cur.line); }
                    let want = ins.object_mapping.line_tree(d.root_object_index, &buf).flatten(&buf);
                    if want.len() != d.lines.len() || want.iter().zip(d.lines.iter()).any(|(a, b)| (a.start, a.end, &a.line) != (b.start, b.end, &b.line)) { bad!("lines of another object", "byte {b}"); }
                    if let Err(m) = crate::inspect::outline(d.lines.iter()) { bad!("outline", "byte {b}: {m}"); }
                    let shown: Vec<_> = d.interpretations.iter().map(|i| (i.root_object_index, i.lines.clone())).collect();
                    let expect: Vec<_> = all.iter().map(|i| (i.root_object_index, i.lines.clone())).collect();
                    if shown != expect { bad!("interpretations", "byte {b}: {shown:?} instead of {expect:?}"); }
                    if d.interpretations.cur().root_object_index != d.root_object_index { bad!("interpretation of another object", "byte {b}"); }
                }
            }
        }
    }
    st.class(&format!("keys: {}", match n { 1..=9 => "up to 9", 10..=24 => "10 to 24", _ => "25 to 40" }));
    if moved >= 4 { st.nontrivial(hash_bytes(bytes) ^ hash_str(&log.join(" "))); st.sample(|| format!("{} bytes: {}", bytes.len(), log.join(" "))); }
    Ok(())
}

pub fn c21() -> Prop {
    Prop::new("C21", 25_000, 600_000, "at least four moves of the cursor or the view", |s, st| with_buffer(s, st, &mut session))
        .probe("terminal", crate::tty::probe)
        .assume("The random sessions draw on ratatui's test backend; a fixed number of sessions runs on a pseudo-terminal, where only the text of the screen is compared.")
}
