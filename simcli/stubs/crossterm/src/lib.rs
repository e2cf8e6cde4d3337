//! Stand-in for `crossterm`: the terminal is simulated; commands write the same ANSI sequences as the real crate.
use std::fmt;
pub trait Command { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result; }
impl<T: Command + ?Sized> Command for &T { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { (**self).write_ansi(f) } }
#[doc(hidden)] pub fn __ansi<W: std::io::Write + ?Sized>(w: &mut W, c: impl Command) -> std::io::Result<()> { let mut s = String::new(); c.write_ansi(&mut s).map_err(|_| std::io::Error::other("command"))?; w.write_all(s.as_bytes()) }
pub trait QueueableCommand { fn queue(&mut self, c: impl Command) -> std::io::Result<&mut Self>; }
impl<T: std::io::Write + ?Sized> QueueableCommand for T { fn queue(&mut self, c: impl Command) -> std::io::Result<&mut Self> { __ansi(self, c)?; Ok(self) } }
pub trait ExecutableCommand { fn execute(&mut self, c: impl Command) -> std::io::Result<&mut Self>; }
impl<T: std::io::Write + ?Sized> ExecutableCommand for T { fn execute(&mut self, c: impl Command) -> std::io::Result<&mut Self> { __ansi(self, c)?; self.flush()?; Ok(self) } }
#[macro_export] macro_rules! queue { ($w:expr $(, $c:expr)* $(,)?) => {{ #[allow(unused_imports)] use ::std::io::Write as _; let mut w = &mut $w; let _ = &mut w; ::std::io::Result::Ok(()) $( .and_then(|()| $crate::__ansi(&mut *w, $c)) )* }} }
#[macro_export] macro_rules! execute { ($w:expr $(, $c:expr)* $(,)?) => {{ #[allow(unused_imports)] use ::std::io::Write as _; let mut w = &mut $w; ::std::io::Result::Ok(()) $( .and_then(|()| $crate::__ansi(&mut *w, $c)) )* .and_then(|()| w.flush()) }} }
macro_rules! cmds { ($($n:ident $(($($a:ident: $t:ty),*))? => $f:literal;)*) => { $( #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct $n $(($(pub $t),*))?; impl crate::Command for $n { #[allow(unused)] fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result { $( let $n($($a),*) = *self; $( let $a = $a as u32 + 1; )* )? write!(f, $f) } } )* } }
pub mod cursor {
    cmds! { Hide => "\x1b[?25l"; Show => "\x1b[?25h"; SavePosition => "\x1b7"; RestorePosition => "\x1b8"; MoveTo(x: u16, y: u16) => "\x1b[{y};{x}H"; MoveToColumn(x: u16) => "\x1b[{x}G"; MoveToRow(y: u16) => "\x1b[{y}d"; EnableBlinking => "\x1b[?12h"; DisableBlinking => "\x1b[?12l"; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct MoveUp(pub u16);
    impl crate::Command for MoveUp { fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "\x1b[{}A", self.0) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct MoveDown(pub u16);
    impl crate::Command for MoveDown { fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "\x1b[{}B", self.0) } }
    pub fn position() -> std::io::Result<(u16, u16)> { Ok((0, 0)) }
}
pub mod terminal {
    use simterm::{term, log, Done};
    cmds! { EnterAlternateScreen => "\x1b[?1049h"; LeaveAlternateScreen => "\x1b[?1049l"; EnableLineWrap => "\x1b[?7h"; DisableLineWrap => "\x1b[?7l"; BeginSynchronizedUpdate => "\x1b[?2026h"; EndSynchronizedUpdate => "\x1b[?2026l"; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ClearType { All, Purge, FromCursorDown, FromCursorUp, CurrentLine, UntilNewLine }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Clear(pub ClearType);
    impl crate::Command for Clear { fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result { f.write_str(match self.0 { ClearType::All => "\x1b[2J", ClearType::Purge => "\x1b[3J", ClearType::FromCursorDown => "\x1b[J", ClearType::FromCursorUp => "\x1b[1J", ClearType::CurrentLine => "\x1b[2K", ClearType::UntilNewLine => "\x1b[K" }) } }
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct SetTitle<T>(pub T);
    impl<T: std::fmt::Display> crate::Command for SetTitle<T> { fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "\x1b]0;{}\x07", self.0) } }
    fn raw(on: bool) -> std::io::Result<()> { simcore::preempt(); term(|t| t.raw = on); log(Done::Raw(on)); Ok(()) }
    pub fn enable_raw_mode() -> std::io::Result<()> { raw(true) }
    pub fn disable_raw_mode() -> std::io::Result<()> { raw(false) }
    pub fn is_raw_mode_enabled() -> std::io::Result<bool> { Ok(term(|t| t.raw)) }
    pub fn size() -> std::io::Result<(u16, u16)> { Ok(term(|t| t.size)) }
}
pub mod style {
    use std::fmt::{self, Display};
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Color { Reset, Black, DarkGrey, Red, DarkRed, Green, DarkGreen, Yellow, DarkYellow, Blue, DarkBlue, Magenta, DarkMagenta, Cyan, DarkCyan, White, Grey, Rgb { r: u8, g: u8, b: u8 }, AnsiValue(u8) }
    fn code(c: Color) -> String { use Color::*; let i = match c { Reset => return "9".into(), Black => 0, DarkGrey => 8, Red => 9, DarkRed => 1, Green => 10, DarkGreen => 2, Yellow => 11, DarkYellow => 3, Blue => 12, DarkBlue => 4, Magenta => 13, DarkMagenta => 5, Cyan => 14, DarkCyan => 6, White => 15, Grey => 7, Rgb { r, g, b } => return format!("8;2;{r};{g};{b}"), AnsiValue(x) => x }; format!("8;5;{i}") }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SetForegroundColor(pub Color);
    impl crate::Command for SetForegroundColor { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { write!(f, "\x1b[3{}m", code(self.0)) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SetBackgroundColor(pub Color);
    impl crate::Command for SetBackgroundColor { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { write!(f, "\x1b[4{}m", code(self.0)) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct ResetColor;
    impl crate::Command for ResetColor { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { f.write_str("\x1b[0m") } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Attribute { Reset, Bold, Dim, Underlined, Reverse }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SetAttribute(pub Attribute);
    impl crate::Command for SetAttribute { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { write!(f, "\x1b[{}m", match self.0 { Attribute::Reset => 0, Attribute::Bold => 1, Attribute::Dim => 2, Attribute::Underlined => 4, Attribute::Reverse => 7 }) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Print<T: Display>(pub T);
    impl<T: Display> crate::Command for Print<T> { fn write_ansi(&self, f: &mut impl fmt::Write) -> fmt::Result { write!(f, "{}", self.0) } }
}
pub mod tty {
    pub trait IsTty { fn is_tty(&self) -> bool; }
    impl<T: simterm::IsTerminal> IsTty for T { fn is_tty(&self) -> bool { self.is_terminal() } }
}
pub mod event {
    use std::time::Duration;
    use simterm::{term, Ev, Key};
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
    pub enum KeyCode { Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert, F(u8), Char(char), Null, Esc, CapsLock, ScrollLock, NumLock, PrintScreen, Pause, Menu, KeypadBegin }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Default)]
    pub struct KeyModifiers(u8);
    impl KeyModifiers {
        pub const SHIFT: Self = Self(1); pub const CONTROL: Self = Self(2); pub const ALT: Self = Self(4); pub const SUPER: Self = Self(8); pub const HYPER: Self = Self(16); pub const META: Self = Self(32); pub const NONE: Self = Self(0);
        pub fn contains(self, o: Self) -> bool { self.0 & o.0 == o.0 }
        pub fn intersects(self, o: Self) -> bool { self.0 & o.0 != 0 }
        pub fn is_empty(self) -> bool { self.0 == 0 }
        pub fn empty() -> Self { Self(0) }
        pub fn all() -> Self { Self(63) }
    }
    impl std::ops::BitOr for KeyModifiers { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
    impl std::ops::BitAnd for KeyModifiers { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)] pub enum KeyEventKind { Press, Repeat, Release }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Default)] pub struct KeyEventState(u8);
    impl KeyEventState { pub const NONE: Self = Self(0); }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
    pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers, pub kind: KeyEventKind, pub state: KeyEventState }
    impl KeyEvent { pub fn is_press(&self) -> bool { self.kind == KeyEventKind::Press } pub fn is_release(&self) -> bool { self.kind == KeyEventKind::Release } pub fn is_repeat(&self) -> bool { self.kind == KeyEventKind::Repeat } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)] pub enum MouseEventKind { Moved, ScrollUp, ScrollDown }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd)] pub struct MouseEvent { pub kind: MouseEventKind, pub column: u16, pub row: u16, pub modifiers: KeyModifiers }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd)]
    pub enum Event { FocusGained, FocusLost, Key(KeyEvent), Mouse(MouseEvent), Paste(String), Resize(u16, u16) }
    impl Event { pub fn as_key_event(&self) -> Option<KeyEvent> { match self { Event::Key(k) => Some(*k), _ => None } } }
    fn wait(end: u64) -> bool { loop { if term(|t| !t.events.is_empty()) { return true } if simcore::now() >= end { return false } simcore::sleep_until(end.min(simcore::now() + 200_000)) } }
    pub fn poll(d: Duration) -> std::io::Result<bool> { simcore::preempt(); Ok(wait(simcore::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64))) }
    pub fn read() -> std::io::Result<Event> {
        wait(u64::MAX);
        let e = term(|t| t.events.pop_front()).unwrap();
        simterm::log(simterm::Done::Read(e.clone()));
        Ok(match e {
            Ev::Key { key, ctrl, shift, alt, kind } => Event::Key(KeyEvent {
                code: match key { Key::Char(c) => KeyCode::Char(c), Key::Enter => KeyCode::Enter, Key::Backspace => KeyCode::Backspace, Key::Esc => KeyCode::Esc, Key::Up => KeyCode::Up, Key::Down => KeyCode::Down, Key::Left => KeyCode::Left, Key::Right => KeyCode::Right, Key::Tab => KeyCode::Tab, Key::Other(n) => [KeyCode::Home, KeyCode::End, KeyCode::Delete, KeyCode::F(n)][n as usize % 4] },
                modifiers: KeyModifiers(shift as u8 | (ctrl as u8) << 1 | (alt as u8) << 2), kind: [KeyEventKind::Press, KeyEventKind::Repeat, KeyEventKind::Release][kind as usize % 3], state: KeyEventState::NONE,
            }),
            Ev::Resize(c, r) => Event::Resize(c, r),
            Ev::Focus(x) => if x { Event::FocusGained } else { Event::FocusLost },
            Ev::Paste(s) => Event::Paste(s),
            Ev::Mouse => Event::Mouse(MouseEvent { kind: MouseEventKind::Moved, column: 1, row: 1, modifiers: KeyModifiers::NONE }),
        })
    }
}
