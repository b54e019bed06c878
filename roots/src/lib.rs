pub mod sa;
pub mod bus;
pub mod spec;
pub mod stub;
mod r_driver;
mod r_calc;
mod r_cam;
mod r_eep0;
mod r_eep1;
mod r_ham;
mod r_image;
mod r_regs;
mod t_smoke;
mod r_load;
mod r_misc;
mod r_past;
