//! Answers, one per request line on standard input, what the library or the JPEG decoder does:
//!   c FORMAT ALGORITHM W0 W1 W2 BY_ALPHA WIDTH HEIGHT LENGTH  then LENGTH bytes of pixels
//!   d FORMAT WIDTH HEIGHT LENGTH                               then LENGTH bytes of data
//!   j LENGTH                                                   then a JPEG file
//! Weights are the bits of the floats, or "default". An answer is "ok LENGTH" and bytes, or "error".

use std::io::{BufRead, Read, Write};
use texpresso::{Algorithm, Format, Params, COLOUR_WEIGHTS_PERCEPTUAL};

fn format(s: &str) -> Format {
    match s {
        "bc1" => Format::Bc1,
        "bc2" => Format::Bc2,
        "bc3" => Format::Bc3,
        "bc4" => Format::Bc4,
        _ => Format::Bc5,
    }
}

fn answer(f: &[&str], data: &[u8]) -> Option<Vec<u8>> {
    let n = |i: usize| f[i].parse::<usize>().unwrap();
    match f[0] {
        "c" => {
            let weights = if f[3] == "default" {
                COLOUR_WEIGHTS_PERCEPTUAL
            } else {
                let w = |i: usize| f32::from_bits(f[i].parse().unwrap());
                [w(3), w(4), w(5)]
            };
            let algorithm = match f[2] {
                "speed" => Algorithm::RangeFit,
                "balanced" => Algorithm::ClusterFit,
                _ => Algorithm::IterativeClusterFit,
            };
            let p = Params { algorithm, weights, weigh_colour_by_alpha: f[6] == "1" };
            let mut out = vec![0; format(f[1]).compressed_size(n(7), n(8))];
            format(f[1]).compress(data, n(7), n(8), p, &mut out);
            Some(out)
        }
        "d" => {
            let mut out = vec![0; n(2) * n(3) * 4];
            format(f[1]).decompress(data, n(2), n(3), &mut out);
            Some(out)
        }
        _ => {
            let mut d = jpeg_decoder::Decoder::new(data);
            let px = d.decode().ok()?;
            let i = d.info()?;
            let kind = format!("{} {} {:?}\n", i.width, i.height, i.pixel_format);
            Some([kind.as_bytes(), &px].concat())
        }
    }
}

fn main() {
    let stdin = std::io::stdin();
    let mut input = stdin.lock();
    let mut line = String::new();
    while input.read_line(&mut line).unwrap() > 0 {
        let f: Vec<&str> = line.split_whitespace().collect();
        let mut data = vec![0; f.last().unwrap().parse().unwrap()];
        input.read_exact(&mut data).unwrap();
        let got = std::panic::catch_unwind(|| answer(&f, &data)).unwrap_or(None);
        let mut out = std::io::stdout().lock();
        match got {
            Some(b) => {
                writeln!(out, "ok {}", b.len()).unwrap();
                out.write_all(&b).unwrap();
            }
            None => writeln!(out, "error").unwrap(),
        }
        out.flush().unwrap();
        line.clear();
    }
}
