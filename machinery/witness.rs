//! Added to a copy of the crate by the analysis build: instantiates the generic
//! public functions and the macros so that their code is analysed.
#![allow(dead_code, missing_docs, unused_imports)]

use std::io;
use std::time::Duration;

use crate::{
    Color, Cursor, CursorMode, Event, Key, PrepareConfig, PrepareState, Screen, ScreenReadGuard,
    ScreenWriteGuard, SequenceMap, FindResult, Signal, SignalSet, Size, Style, Terminal,
    TerminalReadGuard, TerminalWriteGuard, Theme,
};

pub mod term {
    use super::*;
    pub fn t_set_fg(t: &Terminal, fg: Option<Color>) -> io::Result<()> { t.set_fg(fg) }
    pub fn t_set_bg(t: &Terminal, bg: Option<Color>) -> io::Result<()> { t.set_bg(bg) }
    pub fn t_set_style(t: &Terminal, style: Style) -> io::Result<()> { t.set_style(style) }
    pub fn t_set_style_opt(t: &Terminal, style: Option<Style>) -> io::Result<()> { t.set_style(style) }
    pub fn t_write_styled(t: &Terminal, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) -> io::Result<()> {
        t.write_styled(fg, bg, style, s)
    }
    pub fn g_set_fg(t: &mut TerminalWriteGuard, fg: Option<Color>) -> io::Result<()> { t.set_fg(fg) }
    pub fn g_set_bg(t: &mut TerminalWriteGuard, bg: Option<Color>) -> io::Result<()> { t.set_bg(bg) }
    pub fn g_set_style(t: &mut TerminalWriteGuard, style: Style) -> io::Result<()> { t.set_style(style) }
    pub fn g_set_style_opt(t: &mut TerminalWriteGuard, style: Option<Style>) -> io::Result<()> { t.set_style(style) }
    pub fn g_write_styled(t: &mut TerminalWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) -> io::Result<()> {
        t.write_styled(fg, bg, style, s)
    }
    pub fn drop_terminal(_t: Terminal) {}
    pub fn drop_read(_t: TerminalReadGuard) {}
    pub fn drop_write(_t: TerminalWriteGuard) {}
    pub fn m_shift() -> crate::terminal::ModifierState { crate::terminal::ModifierState::SHIFT }
    pub fn m_alt() -> crate::terminal::ModifierState { crate::terminal::ModifierState::ALT }
    pub fn m_ctrl() -> crate::terminal::ModifierState { crate::terminal::ModifierState::CTRL }
    pub fn st_bold() -> Style { Style::BOLD }
    pub fn st_italic() -> Style { Style::ITALIC }
    pub fn st_reverse() -> Style { Style::REVERSE }
    pub fn st_underline() -> Style { Style::UNDERLINE }
    #[cfg(unix)]
    pub fn from_path(p: &std::path::Path) -> io::Result<Terminal> {
        use crate::unix::OpenTerminalExt;
        Terminal::from_path(p)
    }
}

pub mod scr {
    use super::*;
    pub fn drop_screen(_s: Screen) {}
    pub fn drop_read(_t: ScreenReadGuard) {}
    pub fn drop_write(_t: ScreenWriteGuard) {}
    pub fn s_set_fg(t: &Screen, fg: Option<Color>) { t.set_fg(fg) }
    pub fn s_set_bg(t: &Screen, bg: Option<Color>) { t.set_bg(bg) }
    pub fn s_set_style(t: &Screen, style: Style) { t.set_style(style) }
    pub fn s_set_style_opt(t: &Screen, style: Option<Style>) { t.set_style(style) }
    pub fn s_set_cursor(t: &Screen, pos: Cursor) { t.set_cursor(pos) }
    pub fn s_write_at(t: &Screen, pos: Cursor, s: &str) { t.write_at(pos, s) }
    pub fn s_write_styled(t: &Screen, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        t.write_styled(fg, bg, style, s)
    }
    pub fn s_write_styled_at(t: &Screen, pos: Cursor, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        t.write_styled_at(pos, fg, bg, style, s)
    }
    pub fn g_set_fg(t: &mut ScreenWriteGuard, fg: Option<Color>) { t.set_fg(fg) }
    pub fn g_set_bg(t: &mut ScreenWriteGuard, bg: Option<Color>) { t.set_bg(bg) }
    pub fn g_set_style(t: &mut ScreenWriteGuard, style: Style) { t.set_style(style) }
    pub fn g_set_style_opt(t: &mut ScreenWriteGuard, style: Option<Style>) { t.set_style(style) }
    pub fn g_set_cursor(t: &mut ScreenWriteGuard, pos: Cursor) { t.set_cursor(pos) }
    pub fn g_write_at(t: &mut ScreenWriteGuard, pos: Cursor, s: &str) { t.write_at(pos, s) }
    pub fn g_write_styled(t: &mut ScreenWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        t.write_styled(fg, bg, style, s)
    }
    pub fn g_write_styled_at(t: &mut ScreenWriteGuard, pos: Cursor, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        t.write_styled_at(pos, fg, bg, style, s)
    }
}

pub mod theme {
    use super::*;
    pub fn new(fg: Option<Color>, bg: Option<Color>, style: Style) -> Theme { Theme::new(fg, bg, style) }
    pub fn new_opt(fg: Color, bg: Color, style: Option<Style>) -> Theme { Theme::new(fg, bg, style) }
    pub fn fg(t: Theme, fg: Option<Color>) -> Theme { t.fg(fg) }
    pub fn bg(t: Theme, bg: Option<Color>) -> Theme { t.bg(bg) }
    pub fn style(t: Theme, style: Style) -> Theme { t.style(style) }
    pub fn c_bold() -> Style { Style::BOLD }
    pub fn c_italic() -> Style { Style::ITALIC }
    pub fn c_underline() -> Style { Style::UNDERLINE }
    pub fn c_reverse() -> Style { Style::REVERSE }
    pub fn c_none() -> Style { Style::empty() }
}

pub mod sigs {
    use super::*;

    pub fn extend(s: &mut SignalSet, v: Vec<Signal>) { s.extend(v) }
    pub fn from_iter(v: Vec<Signal>) -> SignalSet { v.into_iter().collect() }
}

pub mod seqs {
    use super::*;
    use crate::sequence::{Entry, OccupiedEntry, VacantEntry};

    pub type M = SequenceMap<String, u32>;

    pub fn new() -> M { M::new() }
    pub fn with_capacity(n: usize) -> M { M::with_capacity(n) }
    pub fn sequences(m: &M) -> &[(String, u32)] { m.sequences() }
    pub fn find<'a>(m: &'a M, k: &str) -> FindResult<&'a u32> { m.find(k) }
    pub fn find_cloned(m: &M, k: &str) -> FindResult<u32> { m.find(k).cloned() }
    pub fn cloned(r: FindResult<&u32>) -> FindResult<u32> { r.cloned() }
    pub fn get<'a>(m: &'a M, k: &str) -> Option<&'a u32> { m.get(k) }
    pub fn get_mut<'a>(m: &'a mut M, k: &str) -> Option<&'a mut u32> { m.get_mut(k) }
    pub fn insert(m: &mut M, k: String, v: u32) -> Option<u32> { m.insert(k, v) }
    pub fn remove(m: &mut M, k: &str) -> Option<(String, u32)> { m.remove(k) }
    pub fn entry(m: &mut M, k: String) -> Entry<String, u32> { m.entry(k) }
    pub fn from_vec(v: Vec<(String, u32)>) -> M { M::from(v) }
    pub fn from_iter(v: Vec<(String, u32)>) -> M { v.into_iter().collect() }
    pub fn e_or_insert<'a>(m: &'a mut M, k: String, v: u32) -> &'a mut u32 { m.entry(k).or_insert(v) }
    pub fn e_or_insert_with<'a>(m: &'a mut M, k: String, v: u32) -> &'a mut u32 { m.entry(k).or_insert_with(|| v) }
    pub fn e_key(m: &mut M, k: String) -> usize { m.entry(k).key().len() }
    pub fn e_occ_get(m: &mut M, k: String) -> u32 {
        match m.entry(k) { Entry::Occupied(e) => *e.get(), Entry::Vacant(_) => 0 }
    }
    pub fn e_occ_insert(m: &mut M, k: String, v: u32) -> u32 {
        match m.entry(k) { Entry::Occupied(mut e) => e.insert(v), Entry::Vacant(_) => 0 }
    }
    pub fn e_occ_remove(m: &mut M, k: String) -> u32 {
        match m.entry(k) { Entry::Occupied(e) => e.remove(), Entry::Vacant(_) => 0 }
    }
    pub fn e_vac_insert(m: &mut M, k: String, v: u32) {
        match m.entry(k) { Entry::Occupied(_) => (), Entry::Vacant(e) => { e.insert(v); } }
    }
    pub fn e_occ_remove_entry(m: &mut M, k: String) -> (String, u32) {
        match m.entry(k) { Entry::Occupied(e) => e.remove_entry(), Entry::Vacant(_) => loop {} }
    }
    pub fn e_occ_get_mut(m: &mut M, k: String, v: u32) {
        match m.entry(k) { Entry::Occupied(mut e) => *e.get_mut() = v, Entry::Vacant(_) => () }
    }
    pub fn e_occ_into_mut<'a>(m: &'a mut M, k: String) -> &'a mut u32 {
        match m.entry(k) { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(_) => loop {} }
    }
    pub fn e_occ_key(m: &mut M, k: String, f: fn(&String)) {
        match m.entry(k) { Entry::Occupied(e) => f(e.key()), Entry::Vacant(_) => () }
    }
    pub fn e_vac_key(m: &mut M, k: String, f: fn(&String)) {
        match m.entry(k) { Entry::Occupied(_) => (), Entry::Vacant(e) => f(e.key()) }
    }
    pub fn e_vac_into_key(m: &mut M, k: String) -> String {
        match m.entry(k) { Entry::Occupied(_) => loop {}, Entry::Vacant(e) => e.into_key() }
    }
    pub fn e_vac_insert_ref<'a>(m: &'a mut M, k: String, v: u32) -> &'a mut u32 {
        match m.entry(k) { Entry::Occupied(_) => loop {}, Entry::Vacant(e) => e.insert(v) }
    }
    pub fn e_and_modify(m: &mut M, k: String, v: u32) { m.entry(k).and_modify(|x| *x = v); }
    pub fn sequences_mut(m: &mut M) -> &mut [(String, u32)] { m.sequences_mut() }
    pub fn clone(m: &M) -> M { m.clone() }
    pub fn default() -> M { M::default() }
}

/// One function per element of the printing macros.
pub mod mac {
    use super::*;
    pub fn t_fg_black(t: &Terminal) -> io::Result<()> { term_write!(t, [black]) }
    pub fn s_fg_black(t: &Screen) { term_write!(t, [black]) }
    pub fn t_bg_black(t: &Terminal) -> io::Result<()> { term_write!(t, [#black]) }
    pub fn s_bg_black(t: &Screen) { term_write!(t, [#black]) }
    pub fn t_fg_blue(t: &Terminal) -> io::Result<()> { term_write!(t, [blue]) }
    pub fn s_fg_blue(t: &Screen) { term_write!(t, [blue]) }
    pub fn t_bg_blue(t: &Terminal) -> io::Result<()> { term_write!(t, [#blue]) }
    pub fn s_bg_blue(t: &Screen) { term_write!(t, [#blue]) }
    pub fn t_fg_cyan(t: &Terminal) -> io::Result<()> { term_write!(t, [cyan]) }
    pub fn s_fg_cyan(t: &Screen) { term_write!(t, [cyan]) }
    pub fn t_bg_cyan(t: &Terminal) -> io::Result<()> { term_write!(t, [#cyan]) }
    pub fn s_bg_cyan(t: &Screen) { term_write!(t, [#cyan]) }
    pub fn t_fg_green(t: &Terminal) -> io::Result<()> { term_write!(t, [green]) }
    pub fn s_fg_green(t: &Screen) { term_write!(t, [green]) }
    pub fn t_bg_green(t: &Terminal) -> io::Result<()> { term_write!(t, [#green]) }
    pub fn s_bg_green(t: &Screen) { term_write!(t, [#green]) }
    pub fn t_fg_magenta(t: &Terminal) -> io::Result<()> { term_write!(t, [magenta]) }
    pub fn s_fg_magenta(t: &Screen) { term_write!(t, [magenta]) }
    pub fn t_bg_magenta(t: &Terminal) -> io::Result<()> { term_write!(t, [#magenta]) }
    pub fn s_bg_magenta(t: &Screen) { term_write!(t, [#magenta]) }
    pub fn t_fg_red(t: &Terminal) -> io::Result<()> { term_write!(t, [red]) }
    pub fn s_fg_red(t: &Screen) { term_write!(t, [red]) }
    pub fn t_bg_red(t: &Terminal) -> io::Result<()> { term_write!(t, [#red]) }
    pub fn s_bg_red(t: &Screen) { term_write!(t, [#red]) }
    pub fn t_fg_white(t: &Terminal) -> io::Result<()> { term_write!(t, [white]) }
    pub fn s_fg_white(t: &Screen) { term_write!(t, [white]) }
    pub fn t_bg_white(t: &Terminal) -> io::Result<()> { term_write!(t, [#white]) }
    pub fn s_bg_white(t: &Screen) { term_write!(t, [#white]) }
    pub fn t_fg_yellow(t: &Terminal) -> io::Result<()> { term_write!(t, [yellow]) }
    pub fn s_fg_yellow(t: &Screen) { term_write!(t, [yellow]) }
    pub fn t_bg_yellow(t: &Terminal) -> io::Result<()> { term_write!(t, [#yellow]) }
    pub fn s_bg_yellow(t: &Screen) { term_write!(t, [#yellow]) }
    pub fn t_add_bold(t: &Terminal) -> io::Result<()> { term_write!(t, [bold]) }
    pub fn s_add_bold(t: &Screen) { term_write!(t, [bold]) }
    pub fn t_del_bold(t: &Terminal) -> io::Result<()> { term_write!(t, [!bold]) }
    pub fn s_del_bold(t: &Screen) { term_write!(t, [!bold]) }
    pub fn t_add_italic(t: &Terminal) -> io::Result<()> { term_write!(t, [italic]) }
    pub fn s_add_italic(t: &Screen) { term_write!(t, [italic]) }
    pub fn t_del_italic(t: &Terminal) -> io::Result<()> { term_write!(t, [!italic]) }
    pub fn s_del_italic(t: &Screen) { term_write!(t, [!italic]) }
    pub fn t_add_reverse(t: &Terminal) -> io::Result<()> { term_write!(t, [reverse]) }
    pub fn s_add_reverse(t: &Screen) { term_write!(t, [reverse]) }
    pub fn t_del_reverse(t: &Terminal) -> io::Result<()> { term_write!(t, [!reverse]) }
    pub fn s_del_reverse(t: &Screen) { term_write!(t, [!reverse]) }
    pub fn t_add_underline(t: &Terminal) -> io::Result<()> { term_write!(t, [underline]) }
    pub fn s_add_underline(t: &Screen) { term_write!(t, [underline]) }
    pub fn t_del_underline(t: &Terminal) -> io::Result<()> { term_write!(t, [!underline]) }
    pub fn s_del_underline(t: &Screen) { term_write!(t, [!underline]) }
    pub fn t_reset(t: &Terminal) -> io::Result<()> { term_write!(t, [reset]) }
    pub fn s_reset(t: &Screen) { term_write!(t, [reset]) }
    pub fn t_no_fg(t: &Terminal) -> io::Result<()> { term_write!(t, [!fg]) }
    pub fn s_no_fg(t: &Screen) { term_write!(t, [!fg]) }
    pub fn t_no_bg(t: &Terminal) -> io::Result<()> { term_write!(t, [!bg]) }
    pub fn s_no_bg(t: &Screen) { term_write!(t, [!bg]) }
    pub fn t_no_style(t: &Terminal) -> io::Result<()> { term_write!(t, [!style]) }
    pub fn s_no_style(t: &Screen) { term_write!(t, [!style]) }
    pub fn t_fg_expr(t: &Terminal, a: Option<Color>) -> io::Result<()> { term_write!(t, [fg=a]) }
    pub fn s_fg_expr(t: &Screen, a: Option<Color>) { term_write!(t, [fg=a]) }
    pub fn t_bg_expr(t: &Terminal, a: Option<Color>) -> io::Result<()> { term_write!(t, [bg=a]) }
    pub fn s_bg_expr(t: &Screen, a: Option<Color>) { term_write!(t, [bg=a]) }
    pub fn t_style_expr(t: &Terminal, a: Style) -> io::Result<()> { term_write!(t, [style=a]) }
    pub fn s_style_expr(t: &Screen, a: Style) { term_write!(t, [style=a]) }
    pub fn t_style_add(t: &Terminal, a: Style) -> io::Result<()> { term_write!(t, [style+=a]) }
    pub fn s_style_add(t: &Screen, a: Style) { term_write!(t, [style+=a]) }
    pub fn t_style_sub(t: &Terminal, a: Style) -> io::Result<()> { term_write!(t, [style-=a]) }
    pub fn s_style_sub(t: &Screen, a: Style) { term_write!(t, [style-=a]) }
    pub fn t_theme_expr(t: &Terminal, a: Theme) -> io::Result<()> { term_write!(t, [theme=a]) }
    pub fn s_theme_expr(t: &Screen, a: Theme) { term_write!(t, [theme=a]) }
    pub fn t_lit(t: &Terminal) -> io::Result<()> { term_write!(t, "literal") }
    pub fn s_lit(t: &Screen) { term_write!(t, "literal") }
    pub fn t_display(t: &Terminal, a: u32) -> io::Result<()> { term_write!(t, (: a)) }
    pub fn s_display(t: &Screen, a: u32) { term_write!(t, (: a)) }
    pub fn t_debug(t: &Terminal, a: u32) -> io::Result<()> { term_write!(t, (? a)) }
    pub fn s_debug(t: &Screen, a: u32) { term_write!(t, (? a)) }
    pub fn t_fmt(t: &Terminal, a: u32) -> io::Result<()> { term_write!(t, ("{}-{}", a, 7)) }
    pub fn s_fmt(t: &Screen, a: u32) { term_write!(t, ("{}-{}", a, 7)) }
    pub fn t_seq1(t: &Terminal) -> io::Result<()> { term_write!(t, [red] "one" [#blue] [bold] "two" [reset]) }
    pub fn s_seq1(t: &Screen) { term_write!(t, [red] "one" [#blue] [bold] "two" [reset]) }
    pub fn t_seq2(t: &Terminal) -> io::Result<()> { term_write!(t, "one" "two" "three") }
    pub fn s_seq2(t: &Screen) { term_write!(t, "one" "two" "three") }
    pub fn t_seq3(t: &Terminal, a: Option<Color>) -> io::Result<()> { term_write!(t, [fg=a] "x" [bg=a] "y" [!fg]) }
    pub fn s_seq3(t: &Screen, a: Option<Color>) { term_write!(t, [fg=a] "x" [bg=a] "y" [!fg]) }
    pub fn t_ln(t: &Terminal) -> io::Result<()> { term_writeln!(t) }
    pub fn s_ln(t: &Screen) { term_writeln!(t) }
    pub fn t_ln_seq(t: &Terminal) -> io::Result<()> { term_writeln!(t, [red] "one" [bold]) }
    pub fn s_ln_seq(t: &Screen) { term_writeln!(t, [red] "one" [bold]) }
    pub fn tg_seq(t: &mut TerminalWriteGuard) -> io::Result<()> { term_write!(t, [red] "one" [bold] "two") }
    pub fn sg_seq(t: &mut ScreenWriteGuard) { term_write!(t, [red] "one" [bold] "two") }
}
