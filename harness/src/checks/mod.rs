use crate::fw::Check;

pub mod app;
pub mod comp;
pub mod hist;
pub mod histfile;
pub mod keys;
pub mod ops;
pub mod proto;
pub mod pty;
pub mod screen;
pub mod undo;
pub mod viks;

pub fn all() -> Vec<&'static dyn Check> {
    vec![
        &keys::C01,
        &keys::C02,
        &keys::C03,
        &viks::C04,
        &viks::C05,
        &viks::C06,
        &undo::C07,
        &screen::C08,
        &screen::C09,
        &screen::C10,
        &hist::C11,
        &hist::C12,
        &hist::C13,
        &histfile::C14,
        &histfile::C15,
        &histfile::C16,
        &histfile::C17,
        &comp::C18,
        &comp::C19,
        &comp::C20,
        &pty::C21,
        &proto::C22,
        &undo::C23,
        &proto::C24,
        &ops::C25,
        &ops::C26,
        &screen::C27,
        &app::C28,
    ]
}
