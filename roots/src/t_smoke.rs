use crate::sa::*;
use core::convert::TryFrom;
use mlx9064x::register::*;
pub fn t_add() {
    let a = sa_bits("a", 0, 8) as u16;
    let b = sa_int("b", 0, 0, 100) as u16;
    sa_check(a + b <= 355, "sum", 0);
    let x = sa_f32("x", 0);
    let y = sa_f32("y", 0);
    sa_feq((x + y) * (x - y), x * x - y * y, "diff of squares", 0);
    sa_feq((x + y).powf(0.25), (y + x).sqrt().sqrt(), "root", 0);
    let mut n = 0;
    for i in 0..10u16 {
        if a > i * 20 {
            n += 1;
        }
    }
    sa_check(n <= 10, "n", 0);
    sa_done();
}
