//! Stand-in for the `morton` git dependency (not fetchable here): Z-order interleaving.
fn spread(v: u16) -> u32 {
    let mut x = v as u32;
    x = (x | (x << 8)) & 0x00ff00ff;
    x = (x | (x << 4)) & 0x0f0f0f0f;
    x = (x | (x << 2)) & 0x33333333;
    x = (x | (x << 1)) & 0x55555555;
    x
}
fn squash(v: u32) -> u16 {
    let mut x = v & 0x55555555;
    x = (x | (x >> 1)) & 0x33333333;
    x = (x | (x >> 2)) & 0x0f0f0f0f;
    x = (x | (x >> 4)) & 0x00ff00ff;
    x = (x | (x >> 8)) & 0x0000ffff;
    x as u16
}
pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}
pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}
