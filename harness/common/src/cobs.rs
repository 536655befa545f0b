//! Reference COBS codec, independent of the `cobs` crate.

/// Encode without the delimiter
pub fn encode(data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut run: Vec<u8> = vec![];
    let mut open = true;
    for &b in data {
        if !open {
            open = true;
        }
        if b == 0 {
            out.push(run.len() as u8 + 1);
            out.append(&mut run);
        } else {
            run.push(b);
            if run.len() == 254 {
                out.push(255);
                out.append(&mut run);
                open = false;
            }
        }
    }
    if open {
        out.push(run.len() as u8 + 1);
        out.append(&mut run);
    }
    out
}

/// Decode one packet (no delimiter in it). None: malformed
pub fn decode(enc: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < enc.len() {
        let code = enc[i] as usize;
        if code == 0 || i + code > enc.len() {
            return None;
        }
        out.extend_from_slice(&enc[i + 1..i + code]);
        i += code;
        if code != 255 && i < enc.len() {
            out.push(0);
        }
    }
    Some(out)
}

#[cfg(test)]
mod test {
    #[test]
    fn trip() {
        for n in 0..1200usize {
            for z in [0usize, 1, 3, 254, 255, 256, 1000] {
                let d: Vec<u8> = (0..n).map(|i| if z > 0 && i % z == z - 1 { 0 } else { (i % 255 + 1) as u8 }).collect();
                let e = super::encode(&d);
                assert!(!e.contains(&0));
                assert_eq!(super::decode(&e), Some(d));
            }
        }
    }
}
