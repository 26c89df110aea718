//! Stand-in for apendleton/morton (git dependency, not fetchable offline).
//! Contract: x occupies the even bits (bit 0 first), y the odd bits.

#[inline]
fn spread(v: u16) -> u32 {
    let mut w = v as u32;
    w = (w | (w << 8)) & 0x00ff_00ff;
    w = (w | (w << 4)) & 0x0f0f_0f0f;
    w = (w | (w << 2)) & 0x3333_3333;
    w = (w | (w << 1)) & 0x5555_5555;
    w
}

#[inline]
fn squash(v: u32) -> u16 {
    let mut w = v & 0x5555_5555;
    w = (w ^ (w >> 1)) & 0x3333_3333;
    w = (w ^ (w >> 2)) & 0x0f0f_0f0f;
    w = (w ^ (w >> 4)) & 0x00ff_00ff;
    w = (w ^ (w >> 8)) & 0x0000_ffff;
    w as u16
}

#[inline]
pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}

#[inline]
pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}
