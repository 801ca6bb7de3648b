use crate::explore::Scenario;
mod arm;
pub use arm::small;
mod color;
mod errors;
mod geometry;
mod large;
mod memory;
mod resize;
mod threads;

pub fn scenarios(id: &str) -> Vec<Scenario> {
    match id {
        "C01" => geometry::c01(),
        "C02" => geometry::c02(),
        "C03" => memory::c03(),
        "C04" => memory::c04(),
        "C05" => memory::c05(),
        "C06" => color::c06(),
        "C07" => color::c07(),
        "C08" => color::c08(),
        "C09" => threads::c09(),
        "C10" => memory::c10(),
        "C11" => color::c11(),
        "C12" => color::c12(),
        "C13" => color::c13(),
        "C14" => color::c14(),
        "C15" => color::c15(),
        "C16" => resize::c16(),
        "C17" => resize::c17(),
        "C19" => errors::c19(),
        "C20" => color::c20(),
        "C21" => color::c21(),
        _ => vec![],
    }
}
pub fn sc(name: &'static str, run: fn(&mut crate::explore::Ctx)) -> Scenario {
    Scenario { name, run, slow: false }
}
pub fn slow(name: &'static str, run: fn(&mut crate::explore::Ctx)) -> Scenario {
    Scenario { name, run, slow: true }
}
