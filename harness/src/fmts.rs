//! Every combination of format flags.  `flags` is `<combination>|<width>|<precision>`.
use std::fmt::{Debug, Display, Result, Write};

pub const FLAGS: &[&str] = &[
    "", "p", "w", "wp", "0", "0p", "0w", "0wp", "#", "#p", "#w", "#wp",
    "#0", "#0p", "#0w", "#0wp", "+", "+p", "+w", "+wp", "+0", "+0p", "+0w", "+0wp",
    "+#", "+#p", "+#w", "+#wp", "+#0", "+#0p", "+#0w", "+#0wp", "-", "-p", "-w", "-wp",
    "-0", "-0p", "-0w", "-0wp", "-#", "-#p", "-#w", "-#wp", "-#0", "-#0p", "-#0w", "-#0wp",
    "*>", "*>p", "*>w", "*>wp", "*>0", "*>0p", "*>0w", "*>0wp", "*>#", "*>#p", "*>#w", "*>#wp",
    "*>#0", "*>#0p", "*>#0w", "*>#0wp", "*>+", "*>+p", "*>+w", "*>+wp", "*>+0", "*>+0p", "*>+0w", "*>+0wp",
    "*>+#", "*>+#p", "*>+#w", "*>+#wp", "*>+#0", "*>+#0p", "*>+#0w", "*>+#0wp", "*>-", "*>-p", "*>-w", "*>-wp",
    "*>-0", "*>-0p", "*>-0w", "*>-0wp", "*>-#", "*>-#p", "*>-#w", "*>-#wp", "*>-#0", "*>-#0p", "*>-#0w", "*>-#0wp",
    "é^", "é^p", "é^w", "é^wp", "é^0", "é^0p", "é^0w", "é^0wp", "é^#", "é^#p", "é^#w", "é^#wp",
    "é^#0", "é^#0p", "é^#0w", "é^#0wp", "é^+", "é^+p", "é^+w", "é^+wp", "é^+0", "é^+0p", "é^+0w", "é^+0wp",
    "é^+#", "é^+#p", "é^+#w", "é^+#wp", "é^+#0", "é^+#0p", "é^+#0w", "é^+#0wp", "é^-", "é^-p", "é^-w", "é^-wp",
    "é^-0", "é^-0p", "é^-0w", "é^-0wp", "é^-#", "é^-#p", "é^-#w", "é^-#wp", "é^-#0", "é^-#0p", "é^-#0w", "é^-#0wp",
];

#[rustfmt::skip]
pub fn write_flags(o: &mut dyn Write, d: &dyn Debug, x: &dyn Display, kind: &str, flags: &str) -> Result {
    let mut it = flags.split('|');
    let key = it.next().unwrap();
    let w: usize = it.next().map_or(0, |n| n.parse().unwrap_or(0));
    let p: usize = it.next().map_or(0, |n| n.parse().unwrap_or(0));
    let key = if kind == "display" { key.trim_end_matches(['x', 'X']) } else { key };
    match (kind, key) {
        ("debug", "") => write!(o, "{:?}", d),
        ("debug", "x") => write!(o, "{:x?}", d),
        ("debug", "X") => write!(o, "{:X?}", d),
        ("display", "") => write!(o, "{:}", x),
        ("debug", "p") => write!(o, "{:.p$?}", d, p = p),
        ("debug", "px") => write!(o, "{:.p$x?}", d, p = p),
        ("debug", "pX") => write!(o, "{:.p$X?}", d, p = p),
        ("display", "p") => write!(o, "{:.p$}", x, p = p),
        ("debug", "w") => write!(o, "{:w$?}", d, w = w),
        ("debug", "wx") => write!(o, "{:w$x?}", d, w = w),
        ("debug", "wX") => write!(o, "{:w$X?}", d, w = w),
        ("display", "w") => write!(o, "{:w$}", x, w = w),
        ("debug", "wp") => write!(o, "{:w$.p$?}", d, w = w, p = p),
        ("debug", "wpx") => write!(o, "{:w$.p$x?}", d, w = w, p = p),
        ("debug", "wpX") => write!(o, "{:w$.p$X?}", d, w = w, p = p),
        ("display", "wp") => write!(o, "{:w$.p$}", x, w = w, p = p),
        ("debug", "0") => write!(o, "{:0?}", d),
        ("debug", "0x") => write!(o, "{:0x?}", d),
        ("debug", "0X") => write!(o, "{:0X?}", d),
        ("display", "0") => write!(o, "{:0}", x),
        ("debug", "0p") => write!(o, "{:0.p$?}", d, p = p),
        ("debug", "0px") => write!(o, "{:0.p$x?}", d, p = p),
        ("debug", "0pX") => write!(o, "{:0.p$X?}", d, p = p),
        ("display", "0p") => write!(o, "{:0.p$}", x, p = p),
        ("debug", "0w") => write!(o, "{:0w$?}", d, w = w),
        ("debug", "0wx") => write!(o, "{:0w$x?}", d, w = w),
        ("debug", "0wX") => write!(o, "{:0w$X?}", d, w = w),
        ("display", "0w") => write!(o, "{:0w$}", x, w = w),
        ("debug", "0wp") => write!(o, "{:0w$.p$?}", d, w = w, p = p),
        ("debug", "0wpx") => write!(o, "{:0w$.p$x?}", d, w = w, p = p),
        ("debug", "0wpX") => write!(o, "{:0w$.p$X?}", d, w = w, p = p),
        ("display", "0wp") => write!(o, "{:0w$.p$}", x, w = w, p = p),
        ("debug", "#") => write!(o, "{:#?}", d),
        ("debug", "#x") => write!(o, "{:#x?}", d),
        ("debug", "#X") => write!(o, "{:#X?}", d),
        ("display", "#") => write!(o, "{:#}", x),
        ("debug", "#p") => write!(o, "{:#.p$?}", d, p = p),
        ("debug", "#px") => write!(o, "{:#.p$x?}", d, p = p),
        ("debug", "#pX") => write!(o, "{:#.p$X?}", d, p = p),
        ("display", "#p") => write!(o, "{:#.p$}", x, p = p),
        ("debug", "#w") => write!(o, "{:#w$?}", d, w = w),
        ("debug", "#wx") => write!(o, "{:#w$x?}", d, w = w),
        ("debug", "#wX") => write!(o, "{:#w$X?}", d, w = w),
        ("display", "#w") => write!(o, "{:#w$}", x, w = w),
        ("debug", "#wp") => write!(o, "{:#w$.p$?}", d, w = w, p = p),
        ("debug", "#wpx") => write!(o, "{:#w$.p$x?}", d, w = w, p = p),
        ("debug", "#wpX") => write!(o, "{:#w$.p$X?}", d, w = w, p = p),
        ("display", "#wp") => write!(o, "{:#w$.p$}", x, w = w, p = p),
        ("debug", "#0") => write!(o, "{:#0?}", d),
        ("debug", "#0x") => write!(o, "{:#0x?}", d),
        ("debug", "#0X") => write!(o, "{:#0X?}", d),
        ("display", "#0") => write!(o, "{:#0}", x),
        ("debug", "#0p") => write!(o, "{:#0.p$?}", d, p = p),
        ("debug", "#0px") => write!(o, "{:#0.p$x?}", d, p = p),
        ("debug", "#0pX") => write!(o, "{:#0.p$X?}", d, p = p),
        ("display", "#0p") => write!(o, "{:#0.p$}", x, p = p),
        ("debug", "#0w") => write!(o, "{:#0w$?}", d, w = w),
        ("debug", "#0wx") => write!(o, "{:#0w$x?}", d, w = w),
        ("debug", "#0wX") => write!(o, "{:#0w$X?}", d, w = w),
        ("display", "#0w") => write!(o, "{:#0w$}", x, w = w),
        ("debug", "#0wp") => write!(o, "{:#0w$.p$?}", d, w = w, p = p),
        ("debug", "#0wpx") => write!(o, "{:#0w$.p$x?}", d, w = w, p = p),
        ("debug", "#0wpX") => write!(o, "{:#0w$.p$X?}", d, w = w, p = p),
        ("display", "#0wp") => write!(o, "{:#0w$.p$}", x, w = w, p = p),
        ("debug", "+") => write!(o, "{:+?}", d),
        ("debug", "+x") => write!(o, "{:+x?}", d),
        ("debug", "+X") => write!(o, "{:+X?}", d),
        ("display", "+") => write!(o, "{:+}", x),
        ("debug", "+p") => write!(o, "{:+.p$?}", d, p = p),
        ("debug", "+px") => write!(o, "{:+.p$x?}", d, p = p),
        ("debug", "+pX") => write!(o, "{:+.p$X?}", d, p = p),
        ("display", "+p") => write!(o, "{:+.p$}", x, p = p),
        ("debug", "+w") => write!(o, "{:+w$?}", d, w = w),
        ("debug", "+wx") => write!(o, "{:+w$x?}", d, w = w),
        ("debug", "+wX") => write!(o, "{:+w$X?}", d, w = w),
        ("display", "+w") => write!(o, "{:+w$}", x, w = w),
        ("debug", "+wp") => write!(o, "{:+w$.p$?}", d, w = w, p = p),
        ("debug", "+wpx") => write!(o, "{:+w$.p$x?}", d, w = w, p = p),
        ("debug", "+wpX") => write!(o, "{:+w$.p$X?}", d, w = w, p = p),
        ("display", "+wp") => write!(o, "{:+w$.p$}", x, w = w, p = p),
        ("debug", "+0") => write!(o, "{:+0?}", d),
        ("debug", "+0x") => write!(o, "{:+0x?}", d),
        ("debug", "+0X") => write!(o, "{:+0X?}", d),
        ("display", "+0") => write!(o, "{:+0}", x),
        ("debug", "+0p") => write!(o, "{:+0.p$?}", d, p = p),
        ("debug", "+0px") => write!(o, "{:+0.p$x?}", d, p = p),
        ("debug", "+0pX") => write!(o, "{:+0.p$X?}", d, p = p),
        ("display", "+0p") => write!(o, "{:+0.p$}", x, p = p),
        ("debug", "+0w") => write!(o, "{:+0w$?}", d, w = w),
        ("debug", "+0wx") => write!(o, "{:+0w$x?}", d, w = w),
        ("debug", "+0wX") => write!(o, "{:+0w$X?}", d, w = w),
        ("display", "+0w") => write!(o, "{:+0w$}", x, w = w),
        ("debug", "+0wp") => write!(o, "{:+0w$.p$?}", d, w = w, p = p),
        ("debug", "+0wpx") => write!(o, "{:+0w$.p$x?}", d, w = w, p = p),
        ("debug", "+0wpX") => write!(o, "{:+0w$.p$X?}", d, w = w, p = p),
        ("display", "+0wp") => write!(o, "{:+0w$.p$}", x, w = w, p = p),
        ("debug", "+#") => write!(o, "{:+#?}", d),
        ("debug", "+#x") => write!(o, "{:+#x?}", d),
        ("debug", "+#X") => write!(o, "{:+#X?}", d),
        ("display", "+#") => write!(o, "{:+#}", x),
        ("debug", "+#p") => write!(o, "{:+#.p$?}", d, p = p),
        ("debug", "+#px") => write!(o, "{:+#.p$x?}", d, p = p),
        ("debug", "+#pX") => write!(o, "{:+#.p$X?}", d, p = p),
        ("display", "+#p") => write!(o, "{:+#.p$}", x, p = p),
        ("debug", "+#w") => write!(o, "{:+#w$?}", d, w = w),
        ("debug", "+#wx") => write!(o, "{:+#w$x?}", d, w = w),
        ("debug", "+#wX") => write!(o, "{:+#w$X?}", d, w = w),
        ("display", "+#w") => write!(o, "{:+#w$}", x, w = w),
        ("debug", "+#wp") => write!(o, "{:+#w$.p$?}", d, w = w, p = p),
        ("debug", "+#wpx") => write!(o, "{:+#w$.p$x?}", d, w = w, p = p),
        ("debug", "+#wpX") => write!(o, "{:+#w$.p$X?}", d, w = w, p = p),
        ("display", "+#wp") => write!(o, "{:+#w$.p$}", x, w = w, p = p),
        ("debug", "+#0") => write!(o, "{:+#0?}", d),
        ("debug", "+#0x") => write!(o, "{:+#0x?}", d),
        ("debug", "+#0X") => write!(o, "{:+#0X?}", d),
        ("display", "+#0") => write!(o, "{:+#0}", x),
        ("debug", "+#0p") => write!(o, "{:+#0.p$?}", d, p = p),
        ("debug", "+#0px") => write!(o, "{:+#0.p$x?}", d, p = p),
        ("debug", "+#0pX") => write!(o, "{:+#0.p$X?}", d, p = p),
        ("display", "+#0p") => write!(o, "{:+#0.p$}", x, p = p),
        ("debug", "+#0w") => write!(o, "{:+#0w$?}", d, w = w),
        ("debug", "+#0wx") => write!(o, "{:+#0w$x?}", d, w = w),
        ("debug", "+#0wX") => write!(o, "{:+#0w$X?}", d, w = w),
        ("display", "+#0w") => write!(o, "{:+#0w$}", x, w = w),
        ("debug", "+#0wp") => write!(o, "{:+#0w$.p$?}", d, w = w, p = p),
        ("debug", "+#0wpx") => write!(o, "{:+#0w$.p$x?}", d, w = w, p = p),
        ("debug", "+#0wpX") => write!(o, "{:+#0w$.p$X?}", d, w = w, p = p),
        ("display", "+#0wp") => write!(o, "{:+#0w$.p$}", x, w = w, p = p),
        ("debug", "-") => write!(o, "{:-?}", d),
        ("debug", "-x") => write!(o, "{:-x?}", d),
        ("debug", "-X") => write!(o, "{:-X?}", d),
        ("display", "-") => write!(o, "{:-}", x),
        ("debug", "-p") => write!(o, "{:-.p$?}", d, p = p),
        ("debug", "-px") => write!(o, "{:-.p$x?}", d, p = p),
        ("debug", "-pX") => write!(o, "{:-.p$X?}", d, p = p),
        ("display", "-p") => write!(o, "{:-.p$}", x, p = p),
        ("debug", "-w") => write!(o, "{:-w$?}", d, w = w),
        ("debug", "-wx") => write!(o, "{:-w$x?}", d, w = w),
        ("debug", "-wX") => write!(o, "{:-w$X?}", d, w = w),
        ("display", "-w") => write!(o, "{:-w$}", x, w = w),
        ("debug", "-wp") => write!(o, "{:-w$.p$?}", d, w = w, p = p),
        ("debug", "-wpx") => write!(o, "{:-w$.p$x?}", d, w = w, p = p),
        ("debug", "-wpX") => write!(o, "{:-w$.p$X?}", d, w = w, p = p),
        ("display", "-wp") => write!(o, "{:-w$.p$}", x, w = w, p = p),
        ("debug", "-0") => write!(o, "{:-0?}", d),
        ("debug", "-0x") => write!(o, "{:-0x?}", d),
        ("debug", "-0X") => write!(o, "{:-0X?}", d),
        ("display", "-0") => write!(o, "{:-0}", x),
        ("debug", "-0p") => write!(o, "{:-0.p$?}", d, p = p),
        ("debug", "-0px") => write!(o, "{:-0.p$x?}", d, p = p),
        ("debug", "-0pX") => write!(o, "{:-0.p$X?}", d, p = p),
        ("display", "-0p") => write!(o, "{:-0.p$}", x, p = p),
        ("debug", "-0w") => write!(o, "{:-0w$?}", d, w = w),
        ("debug", "-0wx") => write!(o, "{:-0w$x?}", d, w = w),
        ("debug", "-0wX") => write!(o, "{:-0w$X?}", d, w = w),
        ("display", "-0w") => write!(o, "{:-0w$}", x, w = w),
        ("debug", "-0wp") => write!(o, "{:-0w$.p$?}", d, w = w, p = p),
        ("debug", "-0wpx") => write!(o, "{:-0w$.p$x?}", d, w = w, p = p),
        ("debug", "-0wpX") => write!(o, "{:-0w$.p$X?}", d, w = w, p = p),
        ("display", "-0wp") => write!(o, "{:-0w$.p$}", x, w = w, p = p),
        ("debug", "-#") => write!(o, "{:-#?}", d),
        ("debug", "-#x") => write!(o, "{:-#x?}", d),
        ("debug", "-#X") => write!(o, "{:-#X?}", d),
        ("display", "-#") => write!(o, "{:-#}", x),
        ("debug", "-#p") => write!(o, "{:-#.p$?}", d, p = p),
        ("debug", "-#px") => write!(o, "{:-#.p$x?}", d, p = p),
        ("debug", "-#pX") => write!(o, "{:-#.p$X?}", d, p = p),
        ("display", "-#p") => write!(o, "{:-#.p$}", x, p = p),
        ("debug", "-#w") => write!(o, "{:-#w$?}", d, w = w),
        ("debug", "-#wx") => write!(o, "{:-#w$x?}", d, w = w),
        ("debug", "-#wX") => write!(o, "{:-#w$X?}", d, w = w),
        ("display", "-#w") => write!(o, "{:-#w$}", x, w = w),
        ("debug", "-#wp") => write!(o, "{:-#w$.p$?}", d, w = w, p = p),
        ("debug", "-#wpx") => write!(o, "{:-#w$.p$x?}", d, w = w, p = p),
        ("debug", "-#wpX") => write!(o, "{:-#w$.p$X?}", d, w = w, p = p),
        ("display", "-#wp") => write!(o, "{:-#w$.p$}", x, w = w, p = p),
        ("debug", "-#0") => write!(o, "{:-#0?}", d),
        ("debug", "-#0x") => write!(o, "{:-#0x?}", d),
        ("debug", "-#0X") => write!(o, "{:-#0X?}", d),
        ("display", "-#0") => write!(o, "{:-#0}", x),
        ("debug", "-#0p") => write!(o, "{:-#0.p$?}", d, p = p),
        ("debug", "-#0px") => write!(o, "{:-#0.p$x?}", d, p = p),
        ("debug", "-#0pX") => write!(o, "{:-#0.p$X?}", d, p = p),
        ("display", "-#0p") => write!(o, "{:-#0.p$}", x, p = p),
        ("debug", "-#0w") => write!(o, "{:-#0w$?}", d, w = w),
        ("debug", "-#0wx") => write!(o, "{:-#0w$x?}", d, w = w),
        ("debug", "-#0wX") => write!(o, "{:-#0w$X?}", d, w = w),
        ("display", "-#0w") => write!(o, "{:-#0w$}", x, w = w),
        ("debug", "-#0wp") => write!(o, "{:-#0w$.p$?}", d, w = w, p = p),
        ("debug", "-#0wpx") => write!(o, "{:-#0w$.p$x?}", d, w = w, p = p),
        ("debug", "-#0wpX") => write!(o, "{:-#0w$.p$X?}", d, w = w, p = p),
        ("display", "-#0wp") => write!(o, "{:-#0w$.p$}", x, w = w, p = p),
        ("debug", "*>") => write!(o, "{:*>?}", d),
        ("debug", "*>x") => write!(o, "{:*>x?}", d),
        ("debug", "*>X") => write!(o, "{:*>X?}", d),
        ("display", "*>") => write!(o, "{:*>}", x),
        ("debug", "*>p") => write!(o, "{:*>.p$?}", d, p = p),
        ("debug", "*>px") => write!(o, "{:*>.p$x?}", d, p = p),
        ("debug", "*>pX") => write!(o, "{:*>.p$X?}", d, p = p),
        ("display", "*>p") => write!(o, "{:*>.p$}", x, p = p),
        ("debug", "*>w") => write!(o, "{:*>w$?}", d, w = w),
        ("debug", "*>wx") => write!(o, "{:*>w$x?}", d, w = w),
        ("debug", "*>wX") => write!(o, "{:*>w$X?}", d, w = w),
        ("display", "*>w") => write!(o, "{:*>w$}", x, w = w),
        ("debug", "*>wp") => write!(o, "{:*>w$.p$?}", d, w = w, p = p),
        ("debug", "*>wpx") => write!(o, "{:*>w$.p$x?}", d, w = w, p = p),
        ("debug", "*>wpX") => write!(o, "{:*>w$.p$X?}", d, w = w, p = p),
        ("display", "*>wp") => write!(o, "{:*>w$.p$}", x, w = w, p = p),
        ("debug", "*>0") => write!(o, "{:*>0?}", d),
        ("debug", "*>0x") => write!(o, "{:*>0x?}", d),
        ("debug", "*>0X") => write!(o, "{:*>0X?}", d),
        ("display", "*>0") => write!(o, "{:*>0}", x),
        ("debug", "*>0p") => write!(o, "{:*>0.p$?}", d, p = p),
        ("debug", "*>0px") => write!(o, "{:*>0.p$x?}", d, p = p),
        ("debug", "*>0pX") => write!(o, "{:*>0.p$X?}", d, p = p),
        ("display", "*>0p") => write!(o, "{:*>0.p$}", x, p = p),
        ("debug", "*>0w") => write!(o, "{:*>0w$?}", d, w = w),
        ("debug", "*>0wx") => write!(o, "{:*>0w$x?}", d, w = w),
        ("debug", "*>0wX") => write!(o, "{:*>0w$X?}", d, w = w),
        ("display", "*>0w") => write!(o, "{:*>0w$}", x, w = w),
        ("debug", "*>0wp") => write!(o, "{:*>0w$.p$?}", d, w = w, p = p),
        ("debug", "*>0wpx") => write!(o, "{:*>0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>0wpX") => write!(o, "{:*>0w$.p$X?}", d, w = w, p = p),
        ("display", "*>0wp") => write!(o, "{:*>0w$.p$}", x, w = w, p = p),
        ("debug", "*>#") => write!(o, "{:*>#?}", d),
        ("debug", "*>#x") => write!(o, "{:*>#x?}", d),
        ("debug", "*>#X") => write!(o, "{:*>#X?}", d),
        ("display", "*>#") => write!(o, "{:*>#}", x),
        ("debug", "*>#p") => write!(o, "{:*>#.p$?}", d, p = p),
        ("debug", "*>#px") => write!(o, "{:*>#.p$x?}", d, p = p),
        ("debug", "*>#pX") => write!(o, "{:*>#.p$X?}", d, p = p),
        ("display", "*>#p") => write!(o, "{:*>#.p$}", x, p = p),
        ("debug", "*>#w") => write!(o, "{:*>#w$?}", d, w = w),
        ("debug", "*>#wx") => write!(o, "{:*>#w$x?}", d, w = w),
        ("debug", "*>#wX") => write!(o, "{:*>#w$X?}", d, w = w),
        ("display", "*>#w") => write!(o, "{:*>#w$}", x, w = w),
        ("debug", "*>#wp") => write!(o, "{:*>#w$.p$?}", d, w = w, p = p),
        ("debug", "*>#wpx") => write!(o, "{:*>#w$.p$x?}", d, w = w, p = p),
        ("debug", "*>#wpX") => write!(o, "{:*>#w$.p$X?}", d, w = w, p = p),
        ("display", "*>#wp") => write!(o, "{:*>#w$.p$}", x, w = w, p = p),
        ("debug", "*>#0") => write!(o, "{:*>#0?}", d),
        ("debug", "*>#0x") => write!(o, "{:*>#0x?}", d),
        ("debug", "*>#0X") => write!(o, "{:*>#0X?}", d),
        ("display", "*>#0") => write!(o, "{:*>#0}", x),
        ("debug", "*>#0p") => write!(o, "{:*>#0.p$?}", d, p = p),
        ("debug", "*>#0px") => write!(o, "{:*>#0.p$x?}", d, p = p),
        ("debug", "*>#0pX") => write!(o, "{:*>#0.p$X?}", d, p = p),
        ("display", "*>#0p") => write!(o, "{:*>#0.p$}", x, p = p),
        ("debug", "*>#0w") => write!(o, "{:*>#0w$?}", d, w = w),
        ("debug", "*>#0wx") => write!(o, "{:*>#0w$x?}", d, w = w),
        ("debug", "*>#0wX") => write!(o, "{:*>#0w$X?}", d, w = w),
        ("display", "*>#0w") => write!(o, "{:*>#0w$}", x, w = w),
        ("debug", "*>#0wp") => write!(o, "{:*>#0w$.p$?}", d, w = w, p = p),
        ("debug", "*>#0wpx") => write!(o, "{:*>#0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>#0wpX") => write!(o, "{:*>#0w$.p$X?}", d, w = w, p = p),
        ("display", "*>#0wp") => write!(o, "{:*>#0w$.p$}", x, w = w, p = p),
        ("debug", "*>+") => write!(o, "{:*>+?}", d),
        ("debug", "*>+x") => write!(o, "{:*>+x?}", d),
        ("debug", "*>+X") => write!(o, "{:*>+X?}", d),
        ("display", "*>+") => write!(o, "{:*>+}", x),
        ("debug", "*>+p") => write!(o, "{:*>+.p$?}", d, p = p),
        ("debug", "*>+px") => write!(o, "{:*>+.p$x?}", d, p = p),
        ("debug", "*>+pX") => write!(o, "{:*>+.p$X?}", d, p = p),
        ("display", "*>+p") => write!(o, "{:*>+.p$}", x, p = p),
        ("debug", "*>+w") => write!(o, "{:*>+w$?}", d, w = w),
        ("debug", "*>+wx") => write!(o, "{:*>+w$x?}", d, w = w),
        ("debug", "*>+wX") => write!(o, "{:*>+w$X?}", d, w = w),
        ("display", "*>+w") => write!(o, "{:*>+w$}", x, w = w),
        ("debug", "*>+wp") => write!(o, "{:*>+w$.p$?}", d, w = w, p = p),
        ("debug", "*>+wpx") => write!(o, "{:*>+w$.p$x?}", d, w = w, p = p),
        ("debug", "*>+wpX") => write!(o, "{:*>+w$.p$X?}", d, w = w, p = p),
        ("display", "*>+wp") => write!(o, "{:*>+w$.p$}", x, w = w, p = p),
        ("debug", "*>+0") => write!(o, "{:*>+0?}", d),
        ("debug", "*>+0x") => write!(o, "{:*>+0x?}", d),
        ("debug", "*>+0X") => write!(o, "{:*>+0X?}", d),
        ("display", "*>+0") => write!(o, "{:*>+0}", x),
        ("debug", "*>+0p") => write!(o, "{:*>+0.p$?}", d, p = p),
        ("debug", "*>+0px") => write!(o, "{:*>+0.p$x?}", d, p = p),
        ("debug", "*>+0pX") => write!(o, "{:*>+0.p$X?}", d, p = p),
        ("display", "*>+0p") => write!(o, "{:*>+0.p$}", x, p = p),
        ("debug", "*>+0w") => write!(o, "{:*>+0w$?}", d, w = w),
        ("debug", "*>+0wx") => write!(o, "{:*>+0w$x?}", d, w = w),
        ("debug", "*>+0wX") => write!(o, "{:*>+0w$X?}", d, w = w),
        ("display", "*>+0w") => write!(o, "{:*>+0w$}", x, w = w),
        ("debug", "*>+0wp") => write!(o, "{:*>+0w$.p$?}", d, w = w, p = p),
        ("debug", "*>+0wpx") => write!(o, "{:*>+0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>+0wpX") => write!(o, "{:*>+0w$.p$X?}", d, w = w, p = p),
        ("display", "*>+0wp") => write!(o, "{:*>+0w$.p$}", x, w = w, p = p),
        ("debug", "*>+#") => write!(o, "{:*>+#?}", d),
        ("debug", "*>+#x") => write!(o, "{:*>+#x?}", d),
        ("debug", "*>+#X") => write!(o, "{:*>+#X?}", d),
        ("display", "*>+#") => write!(o, "{:*>+#}", x),
        ("debug", "*>+#p") => write!(o, "{:*>+#.p$?}", d, p = p),
        ("debug", "*>+#px") => write!(o, "{:*>+#.p$x?}", d, p = p),
        ("debug", "*>+#pX") => write!(o, "{:*>+#.p$X?}", d, p = p),
        ("display", "*>+#p") => write!(o, "{:*>+#.p$}", x, p = p),
        ("debug", "*>+#w") => write!(o, "{:*>+#w$?}", d, w = w),
        ("debug", "*>+#wx") => write!(o, "{:*>+#w$x?}", d, w = w),
        ("debug", "*>+#wX") => write!(o, "{:*>+#w$X?}", d, w = w),
        ("display", "*>+#w") => write!(o, "{:*>+#w$}", x, w = w),
        ("debug", "*>+#wp") => write!(o, "{:*>+#w$.p$?}", d, w = w, p = p),
        ("debug", "*>+#wpx") => write!(o, "{:*>+#w$.p$x?}", d, w = w, p = p),
        ("debug", "*>+#wpX") => write!(o, "{:*>+#w$.p$X?}", d, w = w, p = p),
        ("display", "*>+#wp") => write!(o, "{:*>+#w$.p$}", x, w = w, p = p),
        ("debug", "*>+#0") => write!(o, "{:*>+#0?}", d),
        ("debug", "*>+#0x") => write!(o, "{:*>+#0x?}", d),
        ("debug", "*>+#0X") => write!(o, "{:*>+#0X?}", d),
        ("display", "*>+#0") => write!(o, "{:*>+#0}", x),
        ("debug", "*>+#0p") => write!(o, "{:*>+#0.p$?}", d, p = p),
        ("debug", "*>+#0px") => write!(o, "{:*>+#0.p$x?}", d, p = p),
        ("debug", "*>+#0pX") => write!(o, "{:*>+#0.p$X?}", d, p = p),
        ("display", "*>+#0p") => write!(o, "{:*>+#0.p$}", x, p = p),
        ("debug", "*>+#0w") => write!(o, "{:*>+#0w$?}", d, w = w),
        ("debug", "*>+#0wx") => write!(o, "{:*>+#0w$x?}", d, w = w),
        ("debug", "*>+#0wX") => write!(o, "{:*>+#0w$X?}", d, w = w),
        ("display", "*>+#0w") => write!(o, "{:*>+#0w$}", x, w = w),
        ("debug", "*>+#0wp") => write!(o, "{:*>+#0w$.p$?}", d, w = w, p = p),
        ("debug", "*>+#0wpx") => write!(o, "{:*>+#0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>+#0wpX") => write!(o, "{:*>+#0w$.p$X?}", d, w = w, p = p),
        ("display", "*>+#0wp") => write!(o, "{:*>+#0w$.p$}", x, w = w, p = p),
        ("debug", "*>-") => write!(o, "{:*>-?}", d),
        ("debug", "*>-x") => write!(o, "{:*>-x?}", d),
        ("debug", "*>-X") => write!(o, "{:*>-X?}", d),
        ("display", "*>-") => write!(o, "{:*>-}", x),
        ("debug", "*>-p") => write!(o, "{:*>-.p$?}", d, p = p),
        ("debug", "*>-px") => write!(o, "{:*>-.p$x?}", d, p = p),
        ("debug", "*>-pX") => write!(o, "{:*>-.p$X?}", d, p = p),
        ("display", "*>-p") => write!(o, "{:*>-.p$}", x, p = p),
        ("debug", "*>-w") => write!(o, "{:*>-w$?}", d, w = w),
        ("debug", "*>-wx") => write!(o, "{:*>-w$x?}", d, w = w),
        ("debug", "*>-wX") => write!(o, "{:*>-w$X?}", d, w = w),
        ("display", "*>-w") => write!(o, "{:*>-w$}", x, w = w),
        ("debug", "*>-wp") => write!(o, "{:*>-w$.p$?}", d, w = w, p = p),
        ("debug", "*>-wpx") => write!(o, "{:*>-w$.p$x?}", d, w = w, p = p),
        ("debug", "*>-wpX") => write!(o, "{:*>-w$.p$X?}", d, w = w, p = p),
        ("display", "*>-wp") => write!(o, "{:*>-w$.p$}", x, w = w, p = p),
        ("debug", "*>-0") => write!(o, "{:*>-0?}", d),
        ("debug", "*>-0x") => write!(o, "{:*>-0x?}", d),
        ("debug", "*>-0X") => write!(o, "{:*>-0X?}", d),
        ("display", "*>-0") => write!(o, "{:*>-0}", x),
        ("debug", "*>-0p") => write!(o, "{:*>-0.p$?}", d, p = p),
        ("debug", "*>-0px") => write!(o, "{:*>-0.p$x?}", d, p = p),
        ("debug", "*>-0pX") => write!(o, "{:*>-0.p$X?}", d, p = p),
        ("display", "*>-0p") => write!(o, "{:*>-0.p$}", x, p = p),
        ("debug", "*>-0w") => write!(o, "{:*>-0w$?}", d, w = w),
        ("debug", "*>-0wx") => write!(o, "{:*>-0w$x?}", d, w = w),
        ("debug", "*>-0wX") => write!(o, "{:*>-0w$X?}", d, w = w),
        ("display", "*>-0w") => write!(o, "{:*>-0w$}", x, w = w),
        ("debug", "*>-0wp") => write!(o, "{:*>-0w$.p$?}", d, w = w, p = p),
        ("debug", "*>-0wpx") => write!(o, "{:*>-0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>-0wpX") => write!(o, "{:*>-0w$.p$X?}", d, w = w, p = p),
        ("display", "*>-0wp") => write!(o, "{:*>-0w$.p$}", x, w = w, p = p),
        ("debug", "*>-#") => write!(o, "{:*>-#?}", d),
        ("debug", "*>-#x") => write!(o, "{:*>-#x?}", d),
        ("debug", "*>-#X") => write!(o, "{:*>-#X?}", d),
        ("display", "*>-#") => write!(o, "{:*>-#}", x),
        ("debug", "*>-#p") => write!(o, "{:*>-#.p$?}", d, p = p),
        ("debug", "*>-#px") => write!(o, "{:*>-#.p$x?}", d, p = p),
        ("debug", "*>-#pX") => write!(o, "{:*>-#.p$X?}", d, p = p),
        ("display", "*>-#p") => write!(o, "{:*>-#.p$}", x, p = p),
        ("debug", "*>-#w") => write!(o, "{:*>-#w$?}", d, w = w),
        ("debug", "*>-#wx") => write!(o, "{:*>-#w$x?}", d, w = w),
        ("debug", "*>-#wX") => write!(o, "{:*>-#w$X?}", d, w = w),
        ("display", "*>-#w") => write!(o, "{:*>-#w$}", x, w = w),
        ("debug", "*>-#wp") => write!(o, "{:*>-#w$.p$?}", d, w = w, p = p),
        ("debug", "*>-#wpx") => write!(o, "{:*>-#w$.p$x?}", d, w = w, p = p),
        ("debug", "*>-#wpX") => write!(o, "{:*>-#w$.p$X?}", d, w = w, p = p),
        ("display", "*>-#wp") => write!(o, "{:*>-#w$.p$}", x, w = w, p = p),
        ("debug", "*>-#0") => write!(o, "{:*>-#0?}", d),
        ("debug", "*>-#0x") => write!(o, "{:*>-#0x?}", d),
        ("debug", "*>-#0X") => write!(o, "{:*>-#0X?}", d),
        ("display", "*>-#0") => write!(o, "{:*>-#0}", x),
        ("debug", "*>-#0p") => write!(o, "{:*>-#0.p$?}", d, p = p),
        ("debug", "*>-#0px") => write!(o, "{:*>-#0.p$x?}", d, p = p),
        ("debug", "*>-#0pX") => write!(o, "{:*>-#0.p$X?}", d, p = p),
        ("display", "*>-#0p") => write!(o, "{:*>-#0.p$}", x, p = p),
        ("debug", "*>-#0w") => write!(o, "{:*>-#0w$?}", d, w = w),
        ("debug", "*>-#0wx") => write!(o, "{:*>-#0w$x?}", d, w = w),
        ("debug", "*>-#0wX") => write!(o, "{:*>-#0w$X?}", d, w = w),
        ("display", "*>-#0w") => write!(o, "{:*>-#0w$}", x, w = w),
        ("debug", "*>-#0wp") => write!(o, "{:*>-#0w$.p$?}", d, w = w, p = p),
        ("debug", "*>-#0wpx") => write!(o, "{:*>-#0w$.p$x?}", d, w = w, p = p),
        ("debug", "*>-#0wpX") => write!(o, "{:*>-#0w$.p$X?}", d, w = w, p = p),
        ("display", "*>-#0wp") => write!(o, "{:*>-#0w$.p$}", x, w = w, p = p),
        ("debug", "é^") => write!(o, "{:é^?}", d),
        ("debug", "é^x") => write!(o, "{:é^x?}", d),
        ("debug", "é^X") => write!(o, "{:é^X?}", d),
        ("display", "é^") => write!(o, "{:é^}", x),
        ("debug", "é^p") => write!(o, "{:é^.p$?}", d, p = p),
        ("debug", "é^px") => write!(o, "{:é^.p$x?}", d, p = p),
        ("debug", "é^pX") => write!(o, "{:é^.p$X?}", d, p = p),
        ("display", "é^p") => write!(o, "{:é^.p$}", x, p = p),
        ("debug", "é^w") => write!(o, "{:é^w$?}", d, w = w),
        ("debug", "é^wx") => write!(o, "{:é^w$x?}", d, w = w),
        ("debug", "é^wX") => write!(o, "{:é^w$X?}", d, w = w),
        ("display", "é^w") => write!(o, "{:é^w$}", x, w = w),
        ("debug", "é^wp") => write!(o, "{:é^w$.p$?}", d, w = w, p = p),
        ("debug", "é^wpx") => write!(o, "{:é^w$.p$x?}", d, w = w, p = p),
        ("debug", "é^wpX") => write!(o, "{:é^w$.p$X?}", d, w = w, p = p),
        ("display", "é^wp") => write!(o, "{:é^w$.p$}", x, w = w, p = p),
        ("debug", "é^0") => write!(o, "{:é^0?}", d),
        ("debug", "é^0x") => write!(o, "{:é^0x?}", d),
        ("debug", "é^0X") => write!(o, "{:é^0X?}", d),
        ("display", "é^0") => write!(o, "{:é^0}", x),
        ("debug", "é^0p") => write!(o, "{:é^0.p$?}", d, p = p),
        ("debug", "é^0px") => write!(o, "{:é^0.p$x?}", d, p = p),
        ("debug", "é^0pX") => write!(o, "{:é^0.p$X?}", d, p = p),
        ("display", "é^0p") => write!(o, "{:é^0.p$}", x, p = p),
        ("debug", "é^0w") => write!(o, "{:é^0w$?}", d, w = w),
        ("debug", "é^0wx") => write!(o, "{:é^0w$x?}", d, w = w),
        ("debug", "é^0wX") => write!(o, "{:é^0w$X?}", d, w = w),
        ("display", "é^0w") => write!(o, "{:é^0w$}", x, w = w),
        ("debug", "é^0wp") => write!(o, "{:é^0w$.p$?}", d, w = w, p = p),
        ("debug", "é^0wpx") => write!(o, "{:é^0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^0wpX") => write!(o, "{:é^0w$.p$X?}", d, w = w, p = p),
        ("display", "é^0wp") => write!(o, "{:é^0w$.p$}", x, w = w, p = p),
        ("debug", "é^#") => write!(o, "{:é^#?}", d),
        ("debug", "é^#x") => write!(o, "{:é^#x?}", d),
        ("debug", "é^#X") => write!(o, "{:é^#X?}", d),
        ("display", "é^#") => write!(o, "{:é^#}", x),
        ("debug", "é^#p") => write!(o, "{:é^#.p$?}", d, p = p),
        ("debug", "é^#px") => write!(o, "{:é^#.p$x?}", d, p = p),
        ("debug", "é^#pX") => write!(o, "{:é^#.p$X?}", d, p = p),
        ("display", "é^#p") => write!(o, "{:é^#.p$}", x, p = p),
        ("debug", "é^#w") => write!(o, "{:é^#w$?}", d, w = w),
        ("debug", "é^#wx") => write!(o, "{:é^#w$x?}", d, w = w),
        ("debug", "é^#wX") => write!(o, "{:é^#w$X?}", d, w = w),
        ("display", "é^#w") => write!(o, "{:é^#w$}", x, w = w),
        ("debug", "é^#wp") => write!(o, "{:é^#w$.p$?}", d, w = w, p = p),
        ("debug", "é^#wpx") => write!(o, "{:é^#w$.p$x?}", d, w = w, p = p),
        ("debug", "é^#wpX") => write!(o, "{:é^#w$.p$X?}", d, w = w, p = p),
        ("display", "é^#wp") => write!(o, "{:é^#w$.p$}", x, w = w, p = p),
        ("debug", "é^#0") => write!(o, "{:é^#0?}", d),
        ("debug", "é^#0x") => write!(o, "{:é^#0x?}", d),
        ("debug", "é^#0X") => write!(o, "{:é^#0X?}", d),
        ("display", "é^#0") => write!(o, "{:é^#0}", x),
        ("debug", "é^#0p") => write!(o, "{:é^#0.p$?}", d, p = p),
        ("debug", "é^#0px") => write!(o, "{:é^#0.p$x?}", d, p = p),
        ("debug", "é^#0pX") => write!(o, "{:é^#0.p$X?}", d, p = p),
        ("display", "é^#0p") => write!(o, "{:é^#0.p$}", x, p = p),
        ("debug", "é^#0w") => write!(o, "{:é^#0w$?}", d, w = w),
        ("debug", "é^#0wx") => write!(o, "{:é^#0w$x?}", d, w = w),
        ("debug", "é^#0wX") => write!(o, "{:é^#0w$X?}", d, w = w),
        ("display", "é^#0w") => write!(o, "{:é^#0w$}", x, w = w),
        ("debug", "é^#0wp") => write!(o, "{:é^#0w$.p$?}", d, w = w, p = p),
        ("debug", "é^#0wpx") => write!(o, "{:é^#0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^#0wpX") => write!(o, "{:é^#0w$.p$X?}", d, w = w, p = p),
        ("display", "é^#0wp") => write!(o, "{:é^#0w$.p$}", x, w = w, p = p),
        ("debug", "é^+") => write!(o, "{:é^+?}", d),
        ("debug", "é^+x") => write!(o, "{:é^+x?}", d),
        ("debug", "é^+X") => write!(o, "{:é^+X?}", d),
        ("display", "é^+") => write!(o, "{:é^+}", x),
        ("debug", "é^+p") => write!(o, "{:é^+.p$?}", d, p = p),
        ("debug", "é^+px") => write!(o, "{:é^+.p$x?}", d, p = p),
        ("debug", "é^+pX") => write!(o, "{:é^+.p$X?}", d, p = p),
        ("display", "é^+p") => write!(o, "{:é^+.p$}", x, p = p),
        ("debug", "é^+w") => write!(o, "{:é^+w$?}", d, w = w),
        ("debug", "é^+wx") => write!(o, "{:é^+w$x?}", d, w = w),
        ("debug", "é^+wX") => write!(o, "{:é^+w$X?}", d, w = w),
        ("display", "é^+w") => write!(o, "{:é^+w$}", x, w = w),
        ("debug", "é^+wp") => write!(o, "{:é^+w$.p$?}", d, w = w, p = p),
        ("debug", "é^+wpx") => write!(o, "{:é^+w$.p$x?}", d, w = w, p = p),
        ("debug", "é^+wpX") => write!(o, "{:é^+w$.p$X?}", d, w = w, p = p),
        ("display", "é^+wp") => write!(o, "{:é^+w$.p$}", x, w = w, p = p),
        ("debug", "é^+0") => write!(o, "{:é^+0?}", d),
        ("debug", "é^+0x") => write!(o, "{:é^+0x?}", d),
        ("debug", "é^+0X") => write!(o, "{:é^+0X?}", d),
        ("display", "é^+0") => write!(o, "{:é^+0}", x),
        ("debug", "é^+0p") => write!(o, "{:é^+0.p$?}", d, p = p),
        ("debug", "é^+0px") => write!(o, "{:é^+0.p$x?}", d, p = p),
        ("debug", "é^+0pX") => write!(o, "{:é^+0.p$X?}", d, p = p),
        ("display", "é^+0p") => write!(o, "{:é^+0.p$}", x, p = p),
        ("debug", "é^+0w") => write!(o, "{:é^+0w$?}", d, w = w),
        ("debug", "é^+0wx") => write!(o, "{:é^+0w$x?}", d, w = w),
        ("debug", "é^+0wX") => write!(o, "{:é^+0w$X?}", d, w = w),
        ("display", "é^+0w") => write!(o, "{:é^+0w$}", x, w = w),
        ("debug", "é^+0wp") => write!(o, "{:é^+0w$.p$?}", d, w = w, p = p),
        ("debug", "é^+0wpx") => write!(o, "{:é^+0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^+0wpX") => write!(o, "{:é^+0w$.p$X?}", d, w = w, p = p),
        ("display", "é^+0wp") => write!(o, "{:é^+0w$.p$}", x, w = w, p = p),
        ("debug", "é^+#") => write!(o, "{:é^+#?}", d),
        ("debug", "é^+#x") => write!(o, "{:é^+#x?}", d),
        ("debug", "é^+#X") => write!(o, "{:é^+#X?}", d),
        ("display", "é^+#") => write!(o, "{:é^+#}", x),
        ("debug", "é^+#p") => write!(o, "{:é^+#.p$?}", d, p = p),
        ("debug", "é^+#px") => write!(o, "{:é^+#.p$x?}", d, p = p),
        ("debug", "é^+#pX") => write!(o, "{:é^+#.p$X?}", d, p = p),
        ("display", "é^+#p") => write!(o, "{:é^+#.p$}", x, p = p),
        ("debug", "é^+#w") => write!(o, "{:é^+#w$?}", d, w = w),
        ("debug", "é^+#wx") => write!(o, "{:é^+#w$x?}", d, w = w),
        ("debug", "é^+#wX") => write!(o, "{:é^+#w$X?}", d, w = w),
        ("display", "é^+#w") => write!(o, "{:é^+#w$}", x, w = w),
        ("debug", "é^+#wp") => write!(o, "{:é^+#w$.p$?}", d, w = w, p = p),
        ("debug", "é^+#wpx") => write!(o, "{:é^+#w$.p$x?}", d, w = w, p = p),
        ("debug", "é^+#wpX") => write!(o, "{:é^+#w$.p$X?}", d, w = w, p = p),
        ("display", "é^+#wp") => write!(o, "{:é^+#w$.p$}", x, w = w, p = p),
        ("debug", "é^+#0") => write!(o, "{:é^+#0?}", d),
        ("debug", "é^+#0x") => write!(o, "{:é^+#0x?}", d),
        ("debug", "é^+#0X") => write!(o, "{:é^+#0X?}", d),
        ("display", "é^+#0") => write!(o, "{:é^+#0}", x),
        ("debug", "é^+#0p") => write!(o, "{:é^+#0.p$?}", d, p = p),
        ("debug", "é^+#0px") => write!(o, "{:é^+#0.p$x?}", d, p = p),
        ("debug", "é^+#0pX") => write!(o, "{:é^+#0.p$X?}", d, p = p),
        ("display", "é^+#0p") => write!(o, "{:é^+#0.p$}", x, p = p),
        ("debug", "é^+#0w") => write!(o, "{:é^+#0w$?}", d, w = w),
        ("debug", "é^+#0wx") => write!(o, "{:é^+#0w$x?}", d, w = w),
        ("debug", "é^+#0wX") => write!(o, "{:é^+#0w$X?}", d, w = w),
        ("display", "é^+#0w") => write!(o, "{:é^+#0w$}", x, w = w),
        ("debug", "é^+#0wp") => write!(o, "{:é^+#0w$.p$?}", d, w = w, p = p),
        ("debug", "é^+#0wpx") => write!(o, "{:é^+#0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^+#0wpX") => write!(o, "{:é^+#0w$.p$X?}", d, w = w, p = p),
        ("display", "é^+#0wp") => write!(o, "{:é^+#0w$.p$}", x, w = w, p = p),
        ("debug", "é^-") => write!(o, "{:é^-?}", d),
        ("debug", "é^-x") => write!(o, "{:é^-x?}", d),
        ("debug", "é^-X") => write!(o, "{:é^-X?}", d),
        ("display", "é^-") => write!(o, "{:é^-}", x),
        ("debug", "é^-p") => write!(o, "{:é^-.p$?}", d, p = p),
        ("debug", "é^-px") => write!(o, "{:é^-.p$x?}", d, p = p),
        ("debug", "é^-pX") => write!(o, "{:é^-.p$X?}", d, p = p),
        ("display", "é^-p") => write!(o, "{:é^-.p$}", x, p = p),
        ("debug", "é^-w") => write!(o, "{:é^-w$?}", d, w = w),
        ("debug", "é^-wx") => write!(o, "{:é^-w$x?}", d, w = w),
        ("debug", "é^-wX") => write!(o, "{:é^-w$X?}", d, w = w),
        ("display", "é^-w") => write!(o, "{:é^-w$}", x, w = w),
        ("debug", "é^-wp") => write!(o, "{:é^-w$.p$?}", d, w = w, p = p),
        ("debug", "é^-wpx") => write!(o, "{:é^-w$.p$x?}", d, w = w, p = p),
        ("debug", "é^-wpX") => write!(o, "{:é^-w$.p$X?}", d, w = w, p = p),
        ("display", "é^-wp") => write!(o, "{:é^-w$.p$}", x, w = w, p = p),
        ("debug", "é^-0") => write!(o, "{:é^-0?}", d),
        ("debug", "é^-0x") => write!(o, "{:é^-0x?}", d),
        ("debug", "é^-0X") => write!(o, "{:é^-0X?}", d),
        ("display", "é^-0") => write!(o, "{:é^-0}", x),
        ("debug", "é^-0p") => write!(o, "{:é^-0.p$?}", d, p = p),
        ("debug", "é^-0px") => write!(o, "{:é^-0.p$x?}", d, p = p),
        ("debug", "é^-0pX") => write!(o, "{:é^-0.p$X?}", d, p = p),
        ("display", "é^-0p") => write!(o, "{:é^-0.p$}", x, p = p),
        ("debug", "é^-0w") => write!(o, "{:é^-0w$?}", d, w = w),
        ("debug", "é^-0wx") => write!(o, "{:é^-0w$x?}", d, w = w),
        ("debug", "é^-0wX") => write!(o, "{:é^-0w$X?}", d, w = w),
        ("display", "é^-0w") => write!(o, "{:é^-0w$}", x, w = w),
        ("debug", "é^-0wp") => write!(o, "{:é^-0w$.p$?}", d, w = w, p = p),
        ("debug", "é^-0wpx") => write!(o, "{:é^-0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^-0wpX") => write!(o, "{:é^-0w$.p$X?}", d, w = w, p = p),
        ("display", "é^-0wp") => write!(o, "{:é^-0w$.p$}", x, w = w, p = p),
        ("debug", "é^-#") => write!(o, "{:é^-#?}", d),
        ("debug", "é^-#x") => write!(o, "{:é^-#x?}", d),
        ("debug", "é^-#X") => write!(o, "{:é^-#X?}", d),
        ("display", "é^-#") => write!(o, "{:é^-#}", x),
        ("debug", "é^-#p") => write!(o, "{:é^-#.p$?}", d, p = p),
        ("debug", "é^-#px") => write!(o, "{:é^-#.p$x?}", d, p = p),
        ("debug", "é^-#pX") => write!(o, "{:é^-#.p$X?}", d, p = p),
        ("display", "é^-#p") => write!(o, "{:é^-#.p$}", x, p = p),
        ("debug", "é^-#w") => write!(o, "{:é^-#w$?}", d, w = w),
        ("debug", "é^-#wx") => write!(o, "{:é^-#w$x?}", d, w = w),
        ("debug", "é^-#wX") => write!(o, "{:é^-#w$X?}", d, w = w),
        ("display", "é^-#w") => write!(o, "{:é^-#w$}", x, w = w),
        ("debug", "é^-#wp") => write!(o, "{:é^-#w$.p$?}", d, w = w, p = p),
        ("debug", "é^-#wpx") => write!(o, "{:é^-#w$.p$x?}", d, w = w, p = p),
        ("debug", "é^-#wpX") => write!(o, "{:é^-#w$.p$X?}", d, w = w, p = p),
        ("display", "é^-#wp") => write!(o, "{:é^-#w$.p$}", x, w = w, p = p),
        ("debug", "é^-#0") => write!(o, "{:é^-#0?}", d),
        ("debug", "é^-#0x") => write!(o, "{:é^-#0x?}", d),
        ("debug", "é^-#0X") => write!(o, "{:é^-#0X?}", d),
        ("display", "é^-#0") => write!(o, "{:é^-#0}", x),
        ("debug", "é^-#0p") => write!(o, "{:é^-#0.p$?}", d, p = p),
        ("debug", "é^-#0px") => write!(o, "{:é^-#0.p$x?}", d, p = p),
        ("debug", "é^-#0pX") => write!(o, "{:é^-#0.p$X?}", d, p = p),
        ("display", "é^-#0p") => write!(o, "{:é^-#0.p$}", x, p = p),
        ("debug", "é^-#0w") => write!(o, "{:é^-#0w$?}", d, w = w),
        ("debug", "é^-#0wx") => write!(o, "{:é^-#0w$x?}", d, w = w),
        ("debug", "é^-#0wX") => write!(o, "{:é^-#0w$X?}", d, w = w),
        ("display", "é^-#0w") => write!(o, "{:é^-#0w$}", x, w = w),
        ("debug", "é^-#0wp") => write!(o, "{:é^-#0w$.p$?}", d, w = w, p = p),
        ("debug", "é^-#0wpx") => write!(o, "{:é^-#0w$.p$x?}", d, w = w, p = p),
        ("debug", "é^-#0wpX") => write!(o, "{:é^-#0w$.p$X?}", d, w = w, p = p),
        ("display", "é^-#0wp") => write!(o, "{:é^-#0w$.p$}", x, w = w, p = p),
        _ => unreachable!("{flags}"),
    }
}
