pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn int(v: i64) -> String {
    if v > -(1 << 31) && v < (1 << 31) {
        format!("{{\"k\":\"int\",\"i\":{}}}", v)
    } else {
        format!("{{\"k\":\"big\",\"s\":\"{}\"}}", v)
    }
}

/// Small dyadic rationals are printed exactly as numerator and denominator, anything else by its bits.
pub fn float(v: f64) -> String {
    for k in 0..20u32 {
        let d = (1u64 << k) as f64;
        let n = v * d;
        if n.fract() == 0.0 && n.abs() < (1u64 << 30) as f64 {
            return format!("{{\"k\":\"flt\",\"n\":{},\"d\":{}}}", n as i64, 1u64 << k);
        }
    }
    format!("{{\"k\":\"fbig\",\"s\":\"{:?}\"}}", v)
}
