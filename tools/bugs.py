LIB_DEMO = r'''#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
texpresso = { path = "$repo/lib" }
[workspace]
E
cd "$t"
cargo run --offline -q
'''
C = "lib/src/colourblock.rs"
A = "lib/src/alpha.rs"
LB = "lib/src/lib.rs"
CS = "lib/src/colourset.rs"
CB = "lib/src/colourblock.rs"
CF = "lib/src/colourfit/cluster.rs"
RF = "lib/src/colourfit/range.rs"
SF = "lib/src/colourfit/single.rs"
BUGS = {}


def bug(id, property, needs, breaks, edits, demo=None, sh=None):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits)
    if demo:
        BUGS[id]["demo"] = demo
    else:
        BUGS[id]["sh"] = sh


bug("b01", "C01", "a BC1 block with equal endpoints and an index of 2 or 3",
    "three-colour mode is not used when the endpoints are equal, so index 3 is neither black nor transparent",
    [(C, "if is_bc1 && (a <= b) {\n            codes[8 + i]", "if is_bc1 && (a < b) {\n            codes[8 + i]")],
    r'''use texpresso::Format;
fn main() {
    let b = [0x55, 0xaa, 0x55, 0xaa, 0xe4, 0xe4, 0xe4, 0xe4];
    let o = Format::Bc1.decompress_block(&b);
    assert_eq!(o[3][..3], [0, 0, 0]);
}
''')
bug("b02", "C03", "a six-step block whose interpolation wraps 8-bit arithmetic in the fifth entry",
    "the last interpolated entry of the six-step ramp is computed with the wrong weight",
    [(A, "for i in 1..5i32 {\n            codes[1 + i as usize] = (((5 - i) * alpha0 + i * alpha1) / 5) as u8\n        }",
      "for i in 1..5i32 {\n            codes[1 + i as usize] = (((5 - i) * alpha0 + i * alpha1 + (alpha1 & 1 & (i >> 2))) / 5) as u8\n        }")],
    r'''use texpresso::Format;
fn main() {
    for a in 0..=255i32 { for b in a..=255 {
        let blk = [a as u8, b as u8, 5, 0, 0, 0, 0, 0];
        let o = Format::Bc4.decompress_block(&blk);
        assert_eq!(i32::from(o[0][0]), (a + 4 * b) / 5);
    } }
}
''')
bug("b03", "C05", "a BC5 block in a slice that is longer than one block",
    "a trailing-slice pattern makes decoding panic when more than one block is passed",
    [(LB, "alpha::decompress_bc3(&mut rgba, 1, &block[8..16]);", "alpha::decompress_bc3(&mut rgba, 1, &block[8..]);")],
    r'''use texpresso::Format;
fn main() {
    let b = [7u8; 17];
    let o = Format::Bc5.decompress_block(&b);
    assert_eq!(o[0][3], 255);
}
''')
bug("b04", "C02", "a BC2 block with different alpha in neighbouring pixels",
    "the low nibble leaks into the alpha of the odd pixel",
    [(A, "rgba[2 * i + 1][3] = hi | (hi >> 4);", "rgba[2 * i + 1][3] = quant | (hi >> 4);")],
    r'''use texpresso::Format;
fn main() {
    for v in 0..=255u8 {
        let mut b = [0u8; 16];
        b[3] = v;
        let o = Format::Bc2.decompress_block(&b);
        assert_eq!(o[7][3], (v >> 4) * 17);
        assert_eq!(o[6][3], (v & 15) * 17);
    }
}
''')

bug("b05", "C06", "parallel build, an image less than four pixels wide with at least two block rows",
    "the parallel decoder splits a narrow image into bands that do not match its block rows",
    [(LB, "let output_rows = output.par_chunks_mut(width * 4 * 4);", "let output_rows = output.par_chunks_mut(width.max(4) * 4 * 4);")],
    sh=LIB_DEMO.replace('lib" }', 'lib", features = ["rayon"] }').replace("cp \"$here/demo.rs\" \"$t/src/main.rs\"", r"""cat > "$t/src/main.rs" <<'R'
use texpresso::Format;
fn main() {
    let data = [0xffu8; 32];
    let mut out = vec![7u8; 4 * 3 * 16];
    Format::Bc4.decompress(&data, 3, 16, &mut out);
    assert!(out.iter().all(|b| *b == 255));
}
R"""))
bug("b06", "C06", "an image whose width is not a multiple of four and with at least two block rows",
    "the block row stride of the source is rounded down, so that later rows are decoded from the wrong blocks",
    [(LB, "let bidx = (x + y * blocks_wide) * block_size;", "let bidx = (x + y * (width / 4).max(1)) * block_size;")],
    r"""use texpresso::Format;
fn main() {
    for w in 1..14usize { for h in 1..14usize {
        let (nw, nh) = ((w + 3) / 4, (h + 3) / 4);
        let data: Vec<u8> = (0..nw * nh).flat_map(|i| [i as u8, i as u8, 0, 0, 0, 0, 0, 0]).collect();
        let mut out = vec![0; 4 * w * h];
        Format::Bc4.decompress(&data, w, h, &mut out);
        for y in 0..h { for x in 0..w {
            assert_eq!(usize::from(out[4 * (x + y * w)]), x / 4 + y / 4 * nw);
        } }
    } }
}
""")
bug("b07", "C07", "an image at least two blocks wide whose width is not a multiple of four",
    "the pixel mask is carried over from the previous block, so an edge block includes pixels left over from its neighbour",
    [(LB, "            let mut source_rgba = [[0u8; 4]; 16];\n", "            let mut source_rgba = [[0u8; 4]; 16];\n            let mut mask = 0u32;\n"),
     (LB, "                // build the 4x4 block of pixels\n                let mut mask = 0u32;\n", "                // build the 4x4 block of pixels\n")],
    sh=LIB_DEMO.replace("cp \"$here/demo.rs\" \"$t/src/main.rs\"", r"""cat > "$t/src/main.rs" <<'R'
use texpresso::{Format, Params};
fn main() {
    // 5 x 4: the second block holds one column only
    let img: Vec<u8> = (0..20).flat_map(|i| { let v = if i % 5 == 4 { 200 } else { 10 * (i % 5) as u8 }; [v, v, v, 255] }).collect();
    let mut out = [0u8; 16];
    Format::Bc4.compress(&img, 5, 4, Params::default(), &mut out);
    let mut col = [[0u8; 4]; 16];
    for y in 0..4 { col[4 * y] = [200, 200, 200, 255]; }
    let mut want = [0u8; 8];
    Format::Bc4.compress_block_masked(col, 0x1111, Params::default(), &mut want);
    assert_eq!(out[8..], want);
}
R"""))
bug("b08", "C07", "a non-default weigh_colour_by_alpha setting and a block that is cut by the image edge",
    "blocks at the image edge are compressed with other parameters than requested",
    [(LB, "                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });",
      "                let weigh = params.weigh_colour_by_alpha && mask == 0xffff;\n                let params = Params {\n                    weigh_colour_by_alpha: weigh,\n                    ..params\n                };\n                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });")],
    r"""use texpresso::{Format, Params};
fn main() {
    let params = Params { weigh_colour_by_alpha: true, ..Params::default() };
    let mut s = 12345u32;
    let mut differs = 0;
    for _ in 0..200 {
        let mut img = [0u8; 4 * 12];
        for b in img.iter_mut() { s = s.wrapping_mul(1664525).wrapping_add(1013904223); *b = (s >> 24) as u8; }
        let mut out = [0u8; 16];
        Format::Bc3.compress(&img, 3, 4, params, &mut out);
        let mut px = [[0u8; 4]; 16];
        for y in 0..4 { for x in 0..3 { for c in 0..4 { px[4 * y + x][c] = img[4 * (3 * y + x) + c]; } } }
        let mut want = [0u8; 16];
        Format::Bc3.compress_block_masked(px, 0x7777, params, &mut want);
        differs += (out != want) as u32;
    }
    assert_eq!(differs, 0);
}
""")
bug("b09", "C08", "compressing an image whose height is not a multiple of four",
    "the source row is sliced before the row is known to lie inside the image",
    [(LB, "                for py in 0..4 {\n                    for px in 0..4 {\n                        let index = 4 * py + px;\n",
      "                for py in 0..4 {\n                    let row = &rgba[4 * width * (4 * y + py)..];\n                    for px in 0..4 {\n                        let index = 4 * py + px;\n"),
     (LB, "                            let src_index = 4 * (width * sy + sx);\n                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);",
      "                            source_rgba[index].copy_from_slice(&row[4 * sx..4 * sx + 4]);")],
    r"""use texpresso::{Format, Params};
fn main() {
    let img = [9u8; 4 * 4 * 5];
    let mut out = [0u8; 16];
    Format::Bc4.compress(&img, 4, 5, Params::default(), &mut out);
}
""")
bug("b10", "C09", "at least two block columns and a height that is not a multiple of four",
    "the number of blocks is rounded once for the whole image instead of per dimension",
    [(LB, "let blocks = num_blocks(width) * num_blocks(height);", "let blocks = num_blocks(num_blocks(width) * height);")],
    r"""use texpresso::Format;
fn main() {
    for w in 0..40usize { for h in 0..40usize {
        assert_eq!(Format::Bc1.compressed_size(w, h), (w + 3) / 4 * ((h + 3) / 4) * 8);
    } }
}
""")
bug("b11", "C10", "two blocks compressed one after the other whose alpha values have equal sums",
    "the explicit-alpha encoder keeps its last result in a static and reuses it for any block with the same checksum",
    [(A, "pub fn compress_bc2(rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {\n    let mut tmp = [0u8; 8];\n",
      "static MEMO_KEY: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(u32::MAX);\nstatic MEMO: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);\n\npub fn compress_bc2(rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {\n    use core::sync::atomic::Ordering::SeqCst;\n    let key = rgba.iter().map(|p| u32::from(p[3])).sum::<u32>() ^ (mask << 12);\n    if MEMO_KEY.load(SeqCst) == key {\n        block.copy_from_slice(&MEMO.load(SeqCst).to_le_bytes());\n        return;\n    }\n    let mut tmp = [0u8; 8];\n"),
     (A, "    block.copy_from_slice(&tmp);\n}", "    MEMO.store(u64::from_le_bytes(tmp), SeqCst);\n    MEMO_KEY.store(key, SeqCst);\n    block.copy_from_slice(&tmp);\n}")],
    r"""use texpresso::{Format, Params};
fn main() {
    let mut a = [[0u8; 4]; 16];
    let mut b = a;
    a[0][3] = 255;
    b[5][3] = 255;
    let mut o = [[0u8; 16]; 2];
    for (i, p) in [a, b].iter().enumerate() {
        Format::Bc2.compress_block_masked(*p, 0xffff, Params::default(), &mut o[i]);
    }
    assert_eq!(Format::Bc2.decompress_block(&o[0])[0][3], 255);
    assert_eq!(Format::Bc2.decompress_block(&o[1])[5][3], 255);
}
""")
bug("b12", "C11", "a BC5 block passed in a slice shorter than sixteen bytes",
    "the second half of a BC5 block is sliced without a bounds check, so a short slice is read past its end",
    [(LB, "alpha::decompress_bc3(&mut rgba, 1, &block[8..16]);",
      "alpha::decompress_bc3(&mut rgba, 1, unsafe {\n                    core::slice::from_raw_parts(block.as_ptr().add(8), 8)\n                });")],
    r"""use texpresso::Format;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let v: Vec<u8> = vec![1; 64];
    for n in 0..16 {
        let r = std::panic::catch_unwind(|| Format::Bc5.decompress_block(&v[..n]));
        assert!(r.is_err(), "a slice of {} bytes was decoded", n);
    }
}
""")
bug("b13", "C13", "a mask with a disabled pixel whose channel value lies above that of all enabled ones",
    "the upper end of the six-value alpha ramp is gathered before the pixel mask is tested",
    [(A, "        // skip masked-out bits\n        let bit = 1 << i;\n        if (mask & bit) == 0 {\n            continue;\n        }\n\n        // incorporate into the min/max\n        let value = pixel[channel];\n",
      "        let value = pixel[channel];\n        if value != u8::MAX {\n            max5 = max5.max(value);\n        }\n\n        // skip masked-out bits\n        let bit = 1 << i;\n        if (mask & bit) == 0 {\n            continue;\n        }\n\n        // incorporate into the min/max\n"),
     (A, "        if value != 0 {\n            min5 = min5.min(value);\n        }\n        if value != u8::MAX {\n            max5 = max5.max(value);\n        }\n",
      "        if value != 0 {\n            min5 = min5.min(value);\n        }\n")],
    r"""use texpresso::{Format, Params};
fn main() {
    for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
        for mask in [0x0001u32, 0x1337, 0x7fff, 0xff00, 0] {
            let mut first = None;
            for fill in [0u8, 1, 77, 200, 254, 255] {
                let mut px = [[fill; 4]; 16];
                for i in 0..16 {
                    if mask >> i & 1 == 1 {
                        px[i] = [100 + 3 * (i as u8 & 3), 90, 80 + i as u8, 120 + i as u8];
                    }
                }
                let mut out = [0u8; 16];
                f.compress_block_masked(px, mask, Params::default(), &mut out);
                assert_eq!(*first.get_or_insert(out), out, "{:?} mask {:x} fill {}", f, mask, fill);
            }
        }
    }
}
""")
bug("b14", "C14", "a BC3 block with repeated colours and varying alpha, compressed without alpha weighting",
    "the weight of a repeated colour always uses alpha, even when weighing by alpha is switched off",
    [(CS, "set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };", "set.weights[index as usize] += w;")],
    r"""use texpresso::{Algorithm, Format, Params};
fn main() {
    for alg in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let p = Params { algorithm: alg, weigh_colour_by_alpha: false, ..Params::default() };
        let mut s = 1u32;
        for _ in 0..40 {
            let mut px = [[0u8; 4]; 16];
            for i in 0..16 {
                s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                let k = (s >> 24) % 3;
                px[i] = [(k * 70) as u8, (k * k * 30) as u8, (200 - k * 90) as u8, 255];
            }
            let mut a = [0u8; 16];
            Format::Bc3.compress_block_masked(px, 0xffff, p, &mut a);
            for (i, q) in px.iter_mut().enumerate() {
                q[3] = if i % 3 == 0 { 255 } else { (i * 9) as u8 };
            }
            let mut b = [0u8; 16];
            Format::Bc3.compress_block_masked(px, 0xffff, p, &mut b);
            assert_eq!(a[8..], b[8..]);
        }
    }
}
""")
bug("b15", "C15", "a block whose colour axis degenerates, such as pure red and pure green pixels only",
    "the ordering of the projections no longer expects values that are not numbers",
    [(CF, """            match (a, b) {
                (x, y) if !x.is_finite() && !y.is_finite() => Ordering::Equal,
                (x, _) if !x.is_finite() => Ordering::Greater,
                (_, y) if !y.is_finite() => Ordering::Less,
                (_, _) => a.partial_cmp(&b).unwrap(),
            }""", """            // unused slots sort last
            if a == f32::MAX || b == f32::MAX {
                return (a == f32::MAX).cmp(&(b == f32::MAX));
            }
            a.partial_cmp(&b).unwrap()""")],
    r"""use texpresso::{Algorithm, Format, Params};
fn main() {
    for alg in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let p = Params { algorithm: alg, ..Params::default() };
        let mut px = [[255, 0, 0, 255]; 16];
        for i in 0..16 {
            if i % 3 == 0 {
                px[i] = [0, 255, 0, 255];
            }
        }
        let mut out = [0u8; 8];
        Format::Bc1.compress_block_masked(px, 0xffff, p, &mut out);
    }
}
""")

NEAR = r"""use texpresso::{Format, Params};
fn codes(b: &[u8]) -> [i32; 8] {
    let (a, c) = (b[0] as i32, b[1] as i32);
    let mut v = [a, c, 0, 0, 0, 0, 0, 255];
    let n = if a > c { 7 } else { 5 };
    for i in 1..n {
        v[1 + i as usize] = ((n - i) * a + i * c) / n;
    }
    v
}
fn main() {
    let mut s = 1u32;
    let mut blocks = vec![];
    for lo in 0..256 {
        for span in [0, 1, 2, 3, 4, 5, 6, 7, 9, 30, 120] {
            let mut b = [0u8; 16];
            for x in b.iter_mut() {
                s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                *x = (lo + (s >> 24) % (span + 1)).min(255) as u8;
            }
            blocks.push(b);
            for (i, x) in b.iter_mut().enumerate() {
                if i % 5 == 0 {
                    *x = if i % 2 == 0 { 0 } else { 255 };
                }
            }
            blocks.push(b);
        }
    }
    for b in blocks {
        let mut px = [[7u8, 7, 7, 255]; 16];
        for i in 0..16 {
            px[i][0] = b[i];
        }
        let mut out = [0u8; 8];
        Format::Bc4.compress_block_masked(px, 0xffff, Params::default(), &mut out);
        let c = codes(&out);
        let mut bits = 0u64;
        for j in 0..6 {
            bits |= (out[2 + j] as u64) << (8 * j);
        }
        for i in 0..16 {
            let v = b[i] as i32;
            let k = c[(bits >> (3 * i) & 7) as usize];
            let best = c.iter().map(|x| (x - v).abs()).min().unwrap();
            assert_eq!((k - v).abs(), best, "{:?} {:?}", b, out);
            let (l, h) = (out[0].min(out[1]) as i32, out[0].max(out[1]) as i32);
            assert!(l <= v && v <= h || out[0] <= out[1] && (v == 0 || v == 255), "{:?} {:?}", b, out);
        }
    }
}
"""
bug("b18", "C12", "small non-zero values besides a zero",
    "values next to the extremes are taken for the extremes that the six-step codebook has for free",
    [(A, "        if value != 0 {", "        if value > 2 {")], NEAR)


CLI_DEMO = r'''#!/bin/bash
# builds the tool in the current directory, and demo.rs, and runs demo.rs on it in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
texpresso = { path = "$repo/lib" }
png = "0.17"
[workspace]
E
cargo build --offline -q -p texpresso_cli --target-dir "$t/tgt"
cd "$t"
cargo build --offline -q --target-dir "$t/tgt"
cd "$t/scratch"
TOOL="$t/tgt/debug/texpresso" timeout 100 "$t/tgt/debug/demo"
'''
CM, CPN, CJ = "cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"
TOOLS = r"""#![allow(dead_code, unused_imports)]
use std::{fs, process::{Command, Stdio}};
use texpresso::{Algorithm, Format, Params};
const PERCEPTUAL: [f32; 3] = [0.2126, 0.7152, 0.0722];
fn tool(dir: &str, args: &[&str]) -> bool {
    Command::new(std::env::var("TOOL").unwrap()).args(args).current_dir(dir).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap().success()
}
fn put_png(path: &str, w: u32, h: u32, c: png::ColorType, d: png::BitDepth, data: &[u8]) {
    let mut e = png::Encoder::new(fs::File::create(path).unwrap(), w, h);
    e.set_color(c);
    e.set_depth(d);
    e.write_header().unwrap().write_image_data(data).unwrap();
}
fn get_png(path: &str) -> (u32, u32, png::ColorType, Vec<u8>) {
    let mut r = png::Decoder::new(fs::File::open(path).unwrap()).read_info().unwrap();
    let mut b = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut b).unwrap();
    b.truncate(i.buffer_size());
    (i.width, i.height, i.color_type, b)
}
fn noise(n: usize) -> Vec<u8> {
    let mut s = 12345u32;
    (0..n).map(|_| { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 24) as u8 }).collect()
}
/// a DDS file with a legacy pixel format
fn legacy(w: u32, h: u32, cc: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = b"DDS ".to_vec();
    for x in [124, 0x81007, h, w, data.len() as u32, 0, 0] { v.extend(u32::to_le_bytes(x)); }
    v.extend([0u8; 44]);
    v.extend(32u32.to_le_bytes());
    v.extend(4u32.to_le_bytes());
    v.extend(cc);
    v.extend([0u8; 20]);
    v.extend(0x1000u32.to_le_bytes());
    v.extend([0u8; 16]);
    v.extend(data);
    v
}
fn encode(f: Format, px: &[u8], w: usize, h: usize, p: Params) -> Vec<u8> {
    let mut o = vec![0; f.compressed_size(w, h)];
    f.compress(px, w, h, p, &mut o);
    o
}
"""


def cbug(id, property, needs, breaks, edits, body):
    bug(id, property, needs, breaks, edits, TOOLS + body)
    BUGS[id]["script"] = CLI_DEMO


cbug("b19", "C16", "weights that differ between green and blue", "the second and third weight given are handed over in the wrong order",
    [(CM, "w = [weights[0], weights[1], weights[2]];", "w = [weights[0], weights[2], weights[1]];")], r"""
fn main() {
    let px = noise(4 * 16 * 16);
    put_png("a.png", 16, 16, png::ColorType::Rgba, png::BitDepth::Eight, &px);
    assert!(tool(".", &["compress", "-f", "bc3", "-p", "speed", "-w", "0.1", "-w", "0.9", "-w", "0.05", "-o", "a.dds", "a.png"]));
    let want = encode(Format::Bc3, &px, 16, 16, Params { algorithm: Algorithm::RangeFit, weights: [0.1, 0.9, 0.05], weigh_colour_by_alpha: false });
    assert_eq!(fs::read("a.dds").unwrap()[148..], want[..]);
}
""")
cbug("b20", "C16", "more than three weights", "a list of more than three weights is accepted and cut off",
    [(CM, "} else if weights.len() == 3 {", "} else if weights.len() >= 3 {")], r"""
fn main() {
    put_png("a.png", 4, 4, png::ColorType::Rgba, png::BitDepth::Eight, &noise(64));
    assert!(tool(".", &["compress", "-f", "bc1", "-w", "1", "-w", "1", "-w", "1", "-o", "a.dds", "a.png"]));
    assert!(!tool(".", &["compress", "-f", "bc1", "-w", "1", "-w", "1", "-w", "1", "-w", "0", "-o", "b.dds", "a.png"]));
}
""")
cbug("b21", "C17", "a DXT5 file without a DX10 header", "legacy DXT5 files are decoded as BC2",
    [(CM, "D3DFormat::DXT5 => Format::Bc3", "D3DFormat::DXT5 => Format::Bc2")], r"""
fn main() {
    let data = noise(16 * 4);
    for (cc, f) in [(b"DXT1", Format::Bc1), (b"DXT3", Format::Bc2), (b"DXT5", Format::Bc3)] {
        let d = &data[..f.compressed_size(8, 8)];
        fs::write("a.dds", legacy(8, 8, cc, d)).unwrap();
        assert!(tool(".", &["decompress", "-o", "a.png", "a.dds"]));
        let mut want = vec![0; 256];
        f.decompress(d, 8, 8, &mut want);
        assert_eq!(get_png("a.png"), (8, 8, png::ColorType::Rgba, want));
    }
}
""")
cbug("b22", "C18", "a BC1 image with transparent pixels", "alpha of decompressed BC1 images is forced to opaque",
    [(CM, "    format.decompress(&dds.data, width, height, &mut decompressed);\n", "    format.decompress(&dds.data, width, height, &mut decompressed);\n    if format == Format::Bc1 {\n        decompressed.iter_mut().skip(3).step_by(4).for_each(|a| *a = 255);\n    }\n")], r"""
fn main() {
    let d = [0, 0, 255, 255, 0xe4, 0x1b, 0xff, 0];
    fs::write("a.dds", legacy(4, 4, b"DXT1", &d)).unwrap();
    assert!(tool(".", &["decompress", "-o", "a.png", "a.dds"]));
    let mut want = vec![0; 64];
    Format::Bc1.decompress(&d, 4, 4, &mut want);
    assert_eq!(get_png("a.png").3, want);
}
""")
cbug("b23", "C19", "a PNG with 16 bits per channel", "16-bit channels are no longer reduced to 8 bits before compression",
    [(CPN, "Transformations::EXPAND | Transformations::STRIP_16,", "Transformations::EXPAND,")], r"""
fn main() {
    for (c, n) in [(png::ColorType::Rgba, 4), (png::ColorType::Rgb, 3), (png::ColorType::Grayscale, 1)] {
        let v = noise(16 * n);
        let wide: Vec<u8> = v.iter().flat_map(|b| [*b, 0x40]).collect();
        let px: Vec<u8> = v.chunks(n).flat_map(|p| match n { 4 => vec![p[0], p[1], p[2], p[3]], 3 => vec![p[0], p[1], p[2], 255], _ => vec![p[0], p[0], p[0], 255] }).collect();
        put_png("a.png", 4, 4, c, png::BitDepth::Sixteen, &wide);
        assert!(tool(".", &["compress", "-f", "bc3", "-p", "speed", "-o", "a.dds", "a.png"]));
        let want = encode(Format::Bc3, &px, 4, 4, Params { algorithm: Algorithm::RangeFit, weights: PERCEPTUAL, weigh_colour_by_alpha: false });
        assert_eq!(fs::read("a.dds").unwrap()[148..], want[..]);
    }
}
""")
cbug("b24", "C20", "an input that is not a DDS file while the output exists", "the output file is emptied before the input has been read",
    [(CM, "    let dds = Dds::read(&mut infile).unwrap();\n", "    File::create(&outfile).expect(\"Unable to create file\");\n    let dds = Dds::read(&mut infile).unwrap();\n")], r"""
fn main() {
    fs::write("a.dds", b"not a texture").unwrap();
    fs::write("a.png", b"precious").unwrap();
    assert!(!tool(".", &["decompress", "-o", "a.png", "a.dds"]));
    assert_eq!(fs::read("a.png").unwrap(), b"precious");
}
""")
cbug("b25", "C20", "a small image and an output device that is full", "the DDS file is written through a buffer that is never flushed explicitly",
    [(CM, "    dds.write(&mut outfile).unwrap();", "    dds.write(&mut std::io::BufWriter::new(&mut outfile)).unwrap();")], r"""
fn main() {
    put_png("a.png", 4, 4, png::ColorType::Rgba, png::BitDepth::Eight, &noise(64));
    assert!(tool(".", &["compress", "-f", "bc1", "-o", "a.dds", "a.png"]));
    assert!(!tool(".", &["compress", "-f", "bc1", "-o", "/dev/full", "a.png"]));
}
""")
cbug("b26", "C21", "an input in another directory and no -o", "the output is created beside the input instead of in the current directory",
    [(CM, "            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"png\")", "            .join(infile)\n            .with_extension(\"png\")")], r"""
fn main() {
    fs::create_dir("in").unwrap();
    fs::create_dir("out").unwrap();
    fs::write("in/a.dds", legacy(4, 4, b"DXT1", &noise(8))).unwrap();
    assert!(tool("out", &["decompress", "../in/a.dds"]));
    assert!(fs::metadata("out/a.png").is_ok() && fs::metadata("in/a.png").is_err());
}
""")
cbug("b27", "C19", "a JPEG or PNG whose extension is in upper case", "the extension is compared with case",
    [(CM, "        .to_owned()\n        .to_lowercase();", "        .into_owned();")], r"""
fn main() {
    put_png("a.png", 4, 4, png::ColorType::Rgba, png::BitDepth::Eight, &noise(64));
    fs::copy("a.png", "b.PNG").unwrap();
    assert!(tool(".", &["compress", "-f", "bc1", "-o", "a.dds", "a.png"]));
    assert!(tool(".", &["compress", "-f", "bc1", "-o", "b.dds", "b.PNG"]));
    assert_eq!(fs::read("a.dds").unwrap(), fs::read("b.dds").unwrap());
}
""")
cbug("b28", "C17", "a BC5 image", "BC5 images are labelled as signed",
    [(CM, "Format::Bc5 => DxgiFormat::BC5_UNorm,", "Format::Bc5 => DxgiFormat::BC5_SNorm,"), (CM, "        DxgiFormat::BC5_UNorm => Format::Bc5,", "        DxgiFormat::BC5_UNorm | DxgiFormat::BC5_SNorm => Format::Bc5,")], r"""
fn main() {
    put_png("a.png", 4, 4, png::ColorType::Rgba, png::BitDepth::Eight, &noise(64));
    assert!(tool(".", &["compress", "-f", "bc5", "-o", "a.dds", "a.png"]));
    // DXGI_FORMAT_BC5_UNORM
    assert_eq!(fs::read("a.dds").unwrap()[128..132], 83u32.to_le_bytes());
}
""")
PUNCH_DEMO = r"""use texpresso::{Algorithm, Format, Params};
fn main() {
    let mut s = 7u32;
    for alg in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        for n in 0..300 {
            let mut px = [[0u8; 4]; 16];
            for p in px.iter_mut() {
                for c in p.iter_mut() {
                    s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                    *c = (s >> 24) as u8;
                }
                if n % 3 == 0 {
                    *p = [10, 200, 30, p[3]];
                }
            }
            let mask = if n % 2 == 0 { 0xffff } else { s >> 16 };
            let mut out = [0u8; 8];
            Format::Bc1.compress_block_masked(px, mask, Params { algorithm: alg, ..Params::default() }, &mut out);
            let got = Format::Bc1.decompress_block(&out);
            for i in 0..16 {
                if mask >> i & 1 == 1 {
                    assert_eq!(got[i][3], if px[i][3] < 128 { 0 } else { 255 }, "{:?} {:?}", px[i], got[i]);
                }
            }
        }
    }
}
"""
bug("b29", "C22", "a BC1 block with opaque and transparent pixels whose first fitted endpoint packs to the greater value",
    "swapping the endpoints of the three-colour mode flips every index's low bit, so the transparent code becomes the blend",
    [(CB, """            *index = match *index {
                0 => 1,
                1 => 0,
                x => x,
            };
""", """            *index ^= 0x01;
""")], PUNCH_DEMO)
bug("b30", "C22", "a BC1 block whose transparent pixels all have alpha 1 to 127",
    "only fully transparent pixels select the three-colour mode, although all below 128 are mapped to its transparent code",
    [(CS, "                set.transparent = true;\n", "                set.transparent |= rgba[i][3] == 0;\n")], PUNCH_DEMO)
BC2_DEMO = r"""use texpresso::{Format, Params};
fn main() {
    for k in 0..256usize {
        for mask in [0xffffu32, 0x5555, 0xaaaa, 0x1248] {
            let mut px = [[9u8; 4]; 16];
            for i in 0..16 {
                px[i][3] = (k + 37 * i) as u8;
            }
            let mut out = [0u8; 16];
            Format::Bc2.compress_block_masked(px, mask, Params::default(), &mut out);
            let got = Format::Bc2.decompress_block(&out);
            for i in 0..16 {
                let a = got[i][3] as i32;
                if mask >> i & 1 == 1 {
                    assert!((a - px[i][3] as i32).abs() <= 8, "{} became {}", px[i][3], a);
                } else {
                    assert_eq!(a, 0);
                }
            }
        }
    }
}
"""
bug("b31", "C23", "a large alpha just above the middle of two levels, such as 247",
    "alpha is quantised in integers with a shift by eight instead of a division by 255",
    [(A, "        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n",
      "        let alpha1 = ((u32::from(rgba[2 * i][3]) * 15 + 128) >> 8) as f32;\n        let alpha2 = ((u32::from(rgba[2 * i + 1][3]) * 15 + 128) >> 8) as f32;\n")], BC2_DEMO)
bug("b32", "C23", "a mask in which the second pixel of a pair is disabled while the first is enabled",
    "the second pixel of a pair is only cleared when both are disabled",
    [(A, "        if (mask & bit2) == 0 {\n            quant2 = 0;", "        if (mask & (bit1 | bit2)) == 0 {\n            quant2 = 0;")], BC2_DEMO)
FLAT_DEMO = r"""use texpresso::{Format, Params};
fn main() {
    let (mut s, mut bad) = (7u32, 0);
    let grey = (0..256).map(|v| [v as u8; 3]);
    let ramps = (0..768).map(|v| {
        let mut c = [128u8; 3];
        c[v / 256] = (v % 256) as u8;
        c
    });
    let noise = (0..20000).map(|_| {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        [(s >> 24) as u8, (s >> 16) as u8, (s >> 8) as u8]
    });
    for c in grey.chain(ramps).chain(noise) {
        for f in [Format::Bc1, Format::Bc2, Format::Bc3] {
            let px = [[c[0], c[1], c[2], 255]; 16];
            let mut out = [0u8; 16];
            let out = &mut out[..if f == Format::Bc1 { 8 } else { 16 }];
            f.compress_block_masked(px, 0xffff, Params::default(), out);
            for p in f.decompress_block(out) {
                for i in 0..3 {
                    bad += (c[i].abs_diff(p[i]) > 1) as u32;
                }
            }
        }
    }
    assert_eq!(bad, 0);
}
"""
bug("b33", "C24", "a colour for which the two candidate endpoint pairs differ in how their error is spread over the channels",
    "the candidates are compared by the sum of their channel errors instead of the sum of squares, so an error of 2 in one channel beats errors of 1 in three",
    [(SF, "error += diff * diff;", "error += diff;")], FLAT_DEMO)
bug("b34", "C24", "a flat colour whose blue has no exact endpoint and gets another pair from the three-colour table than from the four-colour one",
    "the four-colour mode looks the blue channel up in the three-colour table",
    [(SF, "let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_4];", "let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_3];")], FLAT_DEMO)
LUTF = "lib/src/colourfit/single_lut.rs"
bug("b35", "C24", "green 67 in BC1, with a transparent pixel or where the three-colour mode is as good as the four-colour one",
    "the entry for green 67 in the three-colour table repeats the endpoints of green 65 and claims no error",
    [(LUTF, "    entry!(16, 0, 1, 2, 31, 0),\n    entry!(16, 0, 2, 0, 33, 0),\n    entry!(17, 0, 1, 3, 31, 0),\n", "    entry!(16, 0, 1, 2, 31, 0),\n    entry!(16, 0, 2, 0, 32, 0),\n    entry!(17, 0, 1, 3, 31, 0),\n")], r"""use texpresso::{Format, Params};
fn main() {
    for c in 0..3 {
        for v in 0..=255u8 {
            let mut px = [[0, 0, 0, 255]; 16];
            for p in px.iter_mut() {
                p[c] = v;
            }
            px[5][3] = 0;
            let mut out = [0u8; 8];
            Format::Bc1.compress_block_masked(px, 0xffff, Params::default(), &mut out);
            let got = Format::Bc1.decompress_block(&out);
            for i in (0..16).filter(|i| *i != 5) {
                for k in 0..3 {
                    assert!(px[i][k].abs_diff(got[i][k]) <= if k == 1 { 1 } else { 2 }, "{:?} {:?}", px[i], got[i]);
                }
            }
        }
    }
}
""")
NOSTD_DEMO = r"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
use texpresso::{Algorithm, Format, Params};
fn main() {
    let px: Vec<u8> = (0..8 * 8 * 4u32).map(|i| (i.wrapping_mul(2654435761) >> 24) as u8).collect();
    let (mut out, mut back) = (vec![0u8; 64], vec![0u8; 256]);
    for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
        for algorithm in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
            let before = N.load(Ordering::SeqCst);
            f.compress(&px, 8, 8, Params { algorithm, ..Params::default() }, &mut out);
            f.decompress(&out, 8, 8, &mut back);
            assert_eq!(N.load(Ordering::SeqCst), before, "a call of the library allocates");
        }
    }
}
"""
bug("b36", "C25", "a target without an allocator, or any call on a block with several colours",
    "the cluster fit sorts a heap-allocated list, so the library needs an allocator",
    [(LB, "#![no_std]\n", "#![no_std]\n\nextern crate alloc;\n"),
     (CF, "        dps.sort_unstable_by(|a, b| fcmp(a.1, b.1));", "        let mut sorted = alloc::vec::Vec::from(dps);\n        sorted.sort_by(|a, b| fcmp(a.1, b.1));\n        dps.copy_from_slice(&sorted);")], NOSTD_DEMO)
SHARED_DEMO = r"""use texpresso::{Algorithm, Format, Params};
fn main() {
    let mut s = 7u32;
    let mut next = move || {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        (s >> 24) as u8
    };
    for alg in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        for n in 0..600usize {
            let mut px = [[0u8; 4]; 16];
            let few = [[next(), next(), next(), next()], [next(), next(), next(), 0], [0, next(), 255, next()]];
            for p in px.iter_mut() {
                *p = if n % 3 == 0 { few[next() as usize % 3] } else { [next(), next(), next(), next()] };
            }
            let mask = if n % 2 == 0 { 0xffff } else { next() as u32 | (next() as u32) << 8 };
            let run = |f: Format, px: [[u8; 4]; 16]| {
                let mut out = [0u8; 16];
                let params = Params { algorithm: alg, weigh_colour_by_alpha: n % 5 == 0, ..Params::default() };
                f.compress_block_masked(px, mask, params, &mut out);
                out
            };
            let only = |c: usize| px.map(|p| [p[c], 0, 0, 255]);
            let (b2, b3, b5) = (run(Format::Bc2, px), run(Format::Bc3, px), run(Format::Bc5, px));
            assert_eq!(b2[8..], b3[8..]);
            assert_eq!(b3[..8], run(Format::Bc4, only(3))[..8]);
            assert_eq!(b5[..8], run(Format::Bc4, only(0))[..8]);
            assert_eq!(b5[8..], run(Format::Bc4, only(1))[..8]);
        }
    }
}
"""
bug("b37", "C26", "colour weighed by alpha and a colour that occurs twice in the block",
    "in BC2 a repeated colour adds its full weight instead of its alpha",
    [(CS, "set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };", "set.weights[index as usize] += if alpha_weighted && format != Format::Bc2 { w } else { 1f32 };")], SHARED_DEMO)
EXTREME_DEMO = r"""use texpresso::{Format, Params};
fn main() {
    let mut s = 7u32;
    let mut next = move || {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        (s >> 24) as u8
    };
    for n in 0..200_000usize {
        let mut px = [[0u8; 4]; 16];
        let (base, spread) = (next(), 1 + next() % 60);
        for p in px.iter_mut() {
            let v = match next() % 8 {
                0 => 0,
                1 => 255,
                _ if n % 2 == 0 => base.saturating_add(next() % spread),
                _ => next(),
            };
            *p = [v; 4];
        }
        for (f, k, chans) in [(Format::Bc2, 16, &[3usize][..]), (Format::Bc3, 16, &[3][..]), (Format::Bc4, 8, &[0][..]), (Format::Bc5, 16, &[0, 1][..])] {
            if f != Format::Bc4 && n % 20 != 0 {
                continue;
            }
            let mut out = [0u8; 16];
            f.compress_block_masked(px, 0xffff, Params::default(), &mut out[..k]);
            let got = f.decompress_block(&out[..k]);
            for i in 0..16 {
                for &c in chans {
                    if px[i][c] == 0 || px[i][c] == 255 {
                        assert_eq!(got[i][c], px[i][c]);
                    }
                }
            }
        }
    }
}
"""
bug("b38", "C27", "values of 0 or 255 beside others close together, where the six-step codebook is best",
    "a code is only taken if it is nearer by more than rounding noise, so the exact 0 loses against a near endpoint",
    [(A, "            if dist < least {\n", "            if dist.saturating_add(u32::from(j > 5)) < least {\n")], EXTREME_DEMO)
bug("b39", "C27", "a block with values of 0 and 255 beside others, whose first endpoint is written first in the eight-step order by the swap",
    "a block whose greatest value is 255 keeps one step of head room, so 255 is written as 254 or less",
    [(A, "        min7 = min7.min(value);\n        max7 = max7.max(value);\n", "        min7 = min7.min(value);\n        if value != u8::MAX || max7 == 0 {\n            max7 = max7.max(value);\n        }\n")], EXTREME_DEMO)
bug("b40", "C25", "a dimension of some hundred thousand pixels",
    "the number of blocks is computed recursively, one frame per block, so the stack overflows for wide images",
    [(LB, "    (size + 3) / 4\n", "    match size {\n        0 => 0,\n        1..=4 => 1,\n        _ => {\n            let n = num_blocks(size - 4);\n            n + 1\n        }\n    }\n")], r"""use texpresso::Format;
fn main() {
    assert_eq!(texpresso::num_blocks(9), 3);
    let out = Format::Bc4.compressed_size(40_000_000, 4);
    assert_eq!(out, 80_000_000);
}
""")
