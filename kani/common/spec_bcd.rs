/// EN 13757-3 type A: little-endian packed BCD, `F` as top nibble = minus sign.
pub fn spec_bcd(b: &[u8]) -> Option<i64> {
    let n = b.len();
    let mut value: i64 = 0;
    let mut neg = false;
    let mut i = n;
    while i > 0 {
        i -= 1;
        let mut hi = b[i] >> 4;
        let lo = b[i] & 15;
        if i == n - 1 && hi == 15 {
            neg = true;
            hi = 0;
        }
        if hi > 9 || lo > 9 {
            return None;
        }
        value = value * 100 + (hi as i64) * 10 + lo as i64;
    }
    Some(if neg { -value } else { value })
}
