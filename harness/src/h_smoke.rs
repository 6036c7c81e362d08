use crate::session::*;
use crate::world::w;
/// One concrete session, end to end.
pub fn smoke(_: &[&'static str]) {
    base_world(b"y");
    let p = Plugin::pair();
    let r = p.open(&Sess::base());
    check!(r == 1, "open");
    check!(w().sent.is(b"u@h:/$ sudo c\ny/n? [n]: y\n"), "transcript");
    check!(p.log(TTYOUT, b"hello") == 1, "log");
    p.close(0, 0);
    check!(w().shutdowns >= 1, "shutdown");
    cover!("end");
}
