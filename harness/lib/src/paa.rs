//! Textures: reading and writing PAA files.
use hemtt_paa::{MipMap, PaXType, Paa};
use std::collections::HashMap;
use std::io::Cursor;
use vpc::gen::{mutate, Choppy, Failing};
use vpc::{ensure, Case, Facet, Fail, Property, D, R};

#[derive(Debug, Clone)]
pub struct Mip {
    pub width: u16,
    pub height: u16,
    /// what the file holds
    pub data: Vec<u8>,
    /// the blocks
    pub blocks: Vec<u8>,
    pub packed: bool,
}
#[derive(Debug)]
pub struct Model {
    pub kind: u8,
    taggs: Vec<(String, Vec<u8>)>,
    pub mips: Vec<Mip>,
    slots: Vec<u32>,
}

fn pax(kind: u8) -> PaXType {
    match kind {
        1 => PaXType::DXT1,
        3 => PaXType::DXT3,
        _ => PaXType::DXT5,
    }
}

/// One block: colours by index, with alpha.
fn colours(b: &[u8], punch: bool) -> [[u8; 4]; 16] {
    let c0 = u16::from_le_bytes([b[0], b[1]]);
    let c1 = u16::from_le_bytes([b[2], b[3]]);
    let rgb = |c: u16| {
        let (r, g, b) = ((c >> 11) & 31, (c >> 5) & 63, c & 31);
        [((r << 3) | (r >> 2)), ((g << 2) | (g >> 4)), ((b << 3) | (b >> 2))]
    };
    let (a, z) = (rgb(c0), rgb(c1));
    let mut pal = [[0u8, 0, 0, 255]; 4];
    for i in 0..3 {
        pal[0][i] = a[i] as u8;
        pal[1][i] = z[i] as u8;
        if punch && c0 <= c1 {
            pal[2][i] = ((a[i] + z[i]) / 2) as u8;
        } else {
            pal[2][i] = ((2 * a[i] + z[i]) / 3) as u8;
            pal[3][i] = ((a[i] + 2 * z[i]) / 3) as u8;
        }
    }
    if punch && c0 <= c1 {
        pal[3] = [0, 0, 0, 0];
    }
    let idx = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
    std::array::from_fn(|i| pal[((idx >> (2 * i)) & 3) as usize])
}
fn alphas(kind: u8, b: &[u8]) -> [u8; 16] {
    if kind == 3 {
        return std::array::from_fn(|i| ((b[i / 2] >> (4 * (i % 2))) & 15) * 17);
    }
    let (a0, a1) = (u32::from(b[0]), u32::from(b[1]));
    let mut pal = [a0, a1, 0, 0, 0, 0, 0, 255];
    if a0 > a1 {
        for i in 1..7u32 {
            pal[1 + i as usize] = ((7 - i) * a0 + i * a1) / 7;
        }
    } else {
        for i in 1..5u32 {
            pal[1 + i as usize] = ((5 - i) * a0 + i * a1) / 5;
        }
    }
    let mut bits = 0u64;
    for i in 0..6 {
        bits |= u64::from(b[2 + i]) << (8 * i);
    }
    std::array::from_fn(|i| pal[((bits >> (3 * i)) & 7) as usize] as u8)
}
fn block_len(kind: u8) -> usize {
    if kind == 1 {
        8
    } else {
        16
    }
}
/// The pixels of an image, by the definition of the block formats.
pub fn pixels(kind: u8, w: usize, h: usize, blocks: &[u8]) -> Vec<[u8; 4]> {
    let mut out = vec![[0; 4]; w * h];
    let per = block_len(kind);
    let wide = w.div_ceil(4);
    for by in 0..h.div_ceil(4) {
        for bx in 0..wide {
            let b = &blocks[(by * wide + bx) * per..][..per];
            let mut px = if kind == 1 { colours(b, true) } else { colours(&b[8..], false) };
            if kind != 1 {
                let a = alphas(kind, b);
                for i in 0..16 {
                    px[i][3] = a[i];
                }
            }
            for (i, p) in px.iter().enumerate() {
                let (x, y) = (bx * 4 + i % 4, by * 4 + i / 4);
                if x < w && y < h {
                    out[y * w + x] = *p;
                }
            }
        }
    }
    out
}

pub fn model(d: &mut D, large: bool) -> Model {
    let kind = *d.pick(&[1, 3, 5]);
    let n = d.usize(usize::from(large), if large { 3 } else { 4 });
    let mut mips = Vec::new();
    for _ in 0..n {
        let side = |d: &mut D| *d.pick(&[4u16, 4, 8, 16, 32, 1, 2, 12, 64, 5, 7]);
        let (mut width, mut height) = (side(d), side(d));
        if large {
            (width, height) = *d.pick(&[(1024, 1024), (2048, 1024), (512, 512), (260, 4), (4, 8192), (20_000, 4), (32_764, 8), (16, 65_532), (2048, 2048), (300, 299), (513, 1023)]);
        }
        let len = usize::from(width).div_ceil(4) * usize::from(height).div_ceil(4) * block_len(kind);
        let blocks = match d.below(3) {
            0 => d.bulk(len),
            1 => {
                let one = d.bytes(16);
                one.iter().copied().chain(std::iter::repeat(7)).take(16).cycle().take(len).collect()
            }
            _ => {
                let mut v = d.bulk(len);
                for b in v.chunks_exact_mut(block_len(kind)) {
                    let (x, y) = b.split_at_mut(2);
                    if x > &mut y[..2] {
                        x.swap_with_slice(&mut y[..2]);
                    }
                }
                v
            }
        };
        let packed = d.chance(1, 3);
        let data = if packed { pack(&blocks) } else { blocks.clone() };
        mips.push(Mip { width, height, data, blocks, packed });
    }
    let mut taggs: Vec<(String, Vec<u8>)> = Vec::new();
    for name in ["CGVA", "CXAM", "GALF", "ZIWS", "CORP", "xyzé"] {
        if d.chance(1, 3) && name.len() == 4 {
            let n = if large { *d.pick(&[255, 256, 4096, 65_535, 65_536, 70_000, 1 << 20]) } else { 0 };
            taggs.push((name.to_string(), if n > 0 { d.bulk(n) } else { d.bytes(9) }));
        }
    }
    if d.chance(1, 12) {
        for i in 0..d.usize(4, 40) {
            taggs.push((format!("T{i:03}"), d.bytes(5)));
        }
    }
    let at = d.usize(0, taggs.len());
    taggs.insert(at, ("SFFO".into(), Vec::new()));
    Model { kind, taggs, mips, slots: Vec::new() }
}
fn pack(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(hemtt_lzo::worst_compress(b.len()));
    hemtt_lzo::compress(b, &mut out).map(|()| out).unwrap_or_default()
}

/// The file, by the published description of the format.
pub fn encode(d: &mut D, m: &mut Model, large: bool) -> Vec<u8> {
    let n = if d.bool() { 16 } else { m.mips.len() };
    // slots may be left out between the images
    m.slots = vec![0; n];
    let mut free: Vec<usize> = (0..n).collect();
    while free.len() > m.mips.len() {
        let i = d.usize(0, free.len() - 1);
        free.remove(i);
    }
    let mut out = match m.kind {
        1 => vec![1, 0xff],
        3 => vec![3, 0xff],
        _ => vec![5, 0xff],
    };
    let mut table = 0;
    for (name, data) in &m.taggs {
        out.extend(b"GGAT");
        out.extend(name.as_bytes());
        let data = if name == "SFFO" { vec![0; n * 4] } else { data.clone() };
        out.extend((data.len() as u32).to_le_bytes());
        if name == "SFFO" {
            table = out.len();
        }
        out.extend(data);
    }
    // no palette
    out.extend([0, 0]);
    let mut order: Vec<usize> = (0..m.mips.len()).collect();
    if d.chance(1, 3) {
        d.shuffle(&mut order);
    }
    for i in order {
        for _ in 0..d.below(3) {
            out.push(0xEE);
        }
        if large && d.bool() {
            let n = *d.pick(&[300usize, 65_536, 1 << 20, 1 << 24]);
            out.resize(out.len() + n, 0xEE);
        }
        m.slots[free[i]] = out.len() as u32;
        let mip = &m.mips[i];
        out.extend((mip.width | if mip.packed { 0x8000 } else { 0 }).to_le_bytes());
        out.extend(mip.height.to_le_bytes());
        out.extend(&(mip.data.len() as u32).to_le_bytes()[..3]);
        out.extend(&mip.data);
    }
    out.extend([0, 0, 0, 0, 0, 0]);
    for (i, s) in m.slots.iter().enumerate() {
        out[table + 4 * i..][..4].copy_from_slice(&s.to_le_bytes());
    }
    for t in &mut m.taggs {
        if t.0 == "SFFO" {
            t.1 = m.slots.iter().flat_map(|s| s.to_le_bytes()).collect();
        }
    }
    out
}

fn same_image(kind: u8, mip: &Mip, got: &MipMap) -> R {
    let img = got.get_image().to_rgba8();
    let (w, h) = (usize::from(mip.width), usize::from(mip.height));
    ensure!(img.width() as usize == w && img.height() as usize == h, "image size", "{}x{} for {w}x{h}", img.width(), img.height());
    for (i, want) in pixels(kind, w, h, &mip.blocks).iter().enumerate() {
        let got = img.get_pixel((i % w) as u32, (i / w) as u32).0;
        let close = got.iter().zip(want).all(|(a, b)| a.abs_diff(*b) <= 1);
        ensure!(close, "pixel", "pixel {},{} of a {w}x{h} image of kind {kind} is {got:?}, not {want:?}", i % w, i / w);
    }
    Ok(())
}

fn read(d: &mut D, c: &mut Case) -> R {
    reads(d, c, false)
}
/// Sizes and offsets of real textures, and the largest ones
fn read_large(d: &mut D, c: &mut Case) -> R {
    reads(d, c, true)
}
fn reads(d: &mut D, c: &mut Case, large: bool) -> R {
    let mut m = model(d, large);
    let file = encode(d, &mut m, large);
    if large {
        c.input(&format!("a file of {} bytes, {:?}", file.len(), m.mips.iter().map(|m| (m.width, m.height, m.packed)).collect::<Vec<_>>()));
    } else {
        c.input_bytes(&file);
    }
    c.nontrivial(!m.mips.is_empty());
    c.note(format!("DXT{}", m.kind));
    c.note_if(m.mips.iter().any(|x| x.packed), "compressed image");
    c.note_if(m.mips.iter().any(|x| x.width % 4 > 0 || x.height % 4 > 0), "odd size");
    let chunk = if large || d.bool() { usize::MAX } else { d.usize(1, 9) };
    let p = Paa::read(Choppy { inner: Cursor::new(file), chunk }).map_err(|e| Fail::new("rejected", e.to_string()))?;
    ensure!(*p.format() == pax(m.kind), "format", "{} for DXT{}", p.format(), m.kind);
    let want: HashMap<String, Vec<u8>> = m.taggs.iter().cloned().collect();
    ensure!(*p.taggs() == want, "taggs", "{:?} instead of {want:?}", p.taggs());
    ensure!(p.maps().len() == m.mips.len(), "images", "{} of {}", p.maps().len(), m.mips.len());
    for (got, mip) in p.maps().iter().zip(m.slot_order()) {
        ensure!(got.width() == mip.width && got.height() == mip.height, "size", "{}x{} for {}x{}", got.width(), got.height(), mip.width, mip.height);
        ensure!(got.is_compressed() == mip.packed, "compressed", "{} for {}", got.is_compressed(), mip.packed);
        ensure!(*got.data() == mip.data, "data", "another content of {} bytes instead of {}", got.data().len(), mip.data.len());
        ensure!(got.format_display() == ["Bc1", "Bc2", "Bc3"][usize::from(m.kind / 2)], "image format", "{}", got.format_display());
        same_image(m.kind, mip, got)?;
    }
    Ok(())
}
impl Model {
    /// The images in the order of the table, which is the order they are listed in.
    fn slot_order(&self) -> impl Iterator<Item = &Mip> {
        self.mips.iter()
    }
}

/// A damaged file ends in an error or in images taken from the file.
fn damaged(d: &mut D, c: &mut Case) -> R {
    let mut m = model(d, false);
    let mut file = encode(d, &mut m, false);
    if d.chance(1, 8) {
        let (a, b) = *d.pick(&[(1, 255), (2, 255), (3, 255), (5, 255), (4, 255), (68, 68), (21, 85), (136, 136), (128, 128), (0, 0), (1, 254)]);
        file[0] = a;
        file[1] = b;
        c.note("another kind");
        let name = [((1, 255), "DXT1"), ((2, 255), "DXT2"), ((3, 255), "DXT3"), ((4, 255), "DXT4"), ((5, 255), "DXT5"), ((68, 68), "RGBA4"), ((21, 85), "RGBA5"), ((136, 136), "RGBA8"), ((128, 128), "GRAYA")].iter().find(|x| x.0 == (a, b)).map(|x| x.1);
        let kind = hemtt_paa::PaXType::from_stream(&mut &[a, b][..]);
        ensure!(kind.as_ref().map(ToString::to_string).as_deref() == name, "kind", "{a} {b} is read as {kind:?} instead of {name:?}");
        ensure!(kind.is_none_or(|k| k.as_bytes() == [a, b]), "kind", "{name:?} is written as another kind");
    } else if d.chance(1, 3) {
        let n = d.usize(0, file.len());
        file.truncate(n);
        c.note("cut short");
    } else {
        mutate(d, &mut file);
        c.note("changed");
    }
    c.input_bytes(&file);
    c.nontrivial(file.len() > 2);
    let Ok(p) = Paa::read(Cursor::new(&file)) else {
        c.note("rejected");
        return Ok(());
    };
    c.note("accepted");
    for map in p.maps() {
        ensure!(map.data().is_empty() || file.windows(map.data().len()).any(|w| w == &map.data()[..]), "invented", "an image that is not in the file");
        let (w, h) = (u32::from(map.width()), u32::from(map.height()));
        // images without a size, or of less than a block, are images too
        if w * h <= 1 << 16 {
            let img = map.get_image();
            ensure!((img.width(), img.height()) == (w, h), "size", "{w}x{h} is {}x{}", img.width(), img.height());
        }
    }
    Ok(())
}

fn write(d: &mut D, c: &mut Case) -> R {
    let (w, h) = (d.usize(1, 24), d.usize(1, 24));
    let flat = d.bool();
    let mut noise = d.bulk(w * h * 4);
    // channels without anything in them
    let empty: Vec<bool> = (0..4).map(|_| d.chance(1, 8)).collect();
    noise.iter_mut().enumerate().filter(|(i, _)| empty[i % 4]).for_each(|(_, b)| *b = 0);
    let img = image::RgbaImage::from_fn(w as u32, h as u32, |x, y| {
        // flat blocks of colours that the format can hold are exact
        let (x, y) = if flat { (x as usize / 4 * 4, y as usize / 4 * 4) } else { (x as usize, y as usize) };
        let p = &noise[(y * w + x) * 4..][..4];
        if flat {
            let (r, g, b) = (p[0] >> 3, p[1] >> 2, p[2] >> 3);
            image::Rgba([(r << 3) | (r >> 2), (g << 2) | (g >> 4), (b << 3) | (b >> 2), p[3]])
        } else {
            image::Rgba([p[0], p[1], p[2], p[3]])
        }
    });
    c.input(&format!("{w}x{h} {} {:?}", if flat { "flat" } else { "noise" }, &noise[..noise.len().min(40)]));
    c.nontrivial(w > 4 || h > 4);
    let mut out = Failing::new(usize::MAX, usize::MAX);
    Paa::write(&img, &mut out).map_err(|e| Fail::new("not written", e.to_string()))?;
    let p = Paa::read(Cursor::new(&out.got)).map_err(|e| Fail::new("unreadable", e.to_string()))?;
    ensure!(*p.format() == PaXType::DXT5, "format", "{}", p.format());
    let n = (w * h) as u32;
    let sum = |i: usize| img.pixels().map(|p| u32::from(p.0[i])).sum::<u32>();
    let avg: Vec<u8> = [2, 1, 0, 3].into_iter().map(|i| (sum(i) / n) as u8).collect();
    let max: Vec<u8> = [2, 1, 0, 3].into_iter().map(|i| img.pixels().map(|p| p.0[i]).max().unwrap_or(0)).collect();
    ensure!(p.taggs().get("CGVA") == Some(&avg), "average", "{:?}, not {avg:?}", p.taggs());
    ensure!(p.taggs().get("CXAM") == Some(&max), "maximum", "{:?}, not {max:?}", p.taggs());
    ensure!(p.maps().len() == 1, "images", "{}", p.maps().len());
    let map = &p.maps()[0];
    ensure!(usize::from(map.width()) == w && usize::from(map.height()) == h && !map.is_compressed(), "size", "{}x{} for {w}x{h}", map.width(), map.height());
    same_image(5, &Mip { width: w as u16, height: h as u16, data: vec![], blocks: map.data().clone(), packed: false }, map)?;
    let got = map.get_image().to_rgba8();
    let mut error = vec![0u32; w.div_ceil(4) * h.div_ceil(4)];
    for (x, y, want) in img.enumerate_pixels() {
        let g = got.get_pixel(x, y).0;
        // pixels that cannot be seen have no colour
        let same = !flat || (g[3] == want.0[3] && (g == want.0 || g[3] == 0));
        ensure!(same, "other colour", "pixel {x},{y} of {w}x{h} became {g:?}, it was {:?}", want.0);
        error[y as usize / 4 * w.div_ceil(4) + x as usize / 4] += u32::from(g[3].abs_diff(want.0[3])).pow(2);
    }
    // eight evenly spaced levels of alpha are off by 18 at most, the encoder may pick worse ones
    if let Some(i) = error.iter().position(|e| *e > 16 * 40 * 40) {
        vpc::fail!("other alpha", "block {i} of {w}x{h} has a squared error of {}", error[i]);
    }
    // an output that fails is reported
    let left = d.usize(0, out.got.len() - 1);
    let mut bad = Failing::new(left, d.usize(1, 50));
    ensure!(Paa::write(&img, &mut bad).is_err(), "lost", "{left} of {} bytes were written without an error", out.got.len());
    Ok(())
}

/// Sizes the format cannot hold.
fn large(d: &mut D, c: &mut Case) -> R {
    let (w, h) = if c.thorough {
        *d.pick(&[(4096, 4096), (8192, 2048), (32768, 4), (4, 65536), (65536, 1), (4096, 4092), (32764, 4), (4, 65532), (0, 4), (4, 0), (32767, 511)])
    } else {
        *d.pick(&[(4096, 4096), (8192, 2048), (32768, 4), (32770, 4), (4, 65536), (65536, 1), (32764, 4), (4, 65532), (0, 4), (4, 0), (32767, 9)])
    };
    c.input(&format!("{w}x{h}"));
    c.nontrivial(true);
    let v = d.u8();
    let img = image::RgbaImage::from_pixel(w, h, image::Rgba([v, v, v, 255]));
    let mut out = Vec::new();
    match Paa::write(&img, &mut out) {
        Err(_) => ensure!(w == 0 || h == 0 || w >= 32768 || h >= 65536 || w.div_ceil(4) * h.div_ceil(4) * 16 >= 1 << 24, "refused", "{w}x{h} fits"),
        Ok(()) => {
            let p = Paa::read(Cursor::new(&out)).map_err(|e| Fail::new("unreadable", e.to_string()))?;
            let m = &p.maps()[0];
            ensure!(u32::from(m.width()) == w && u32::from(m.height()) == h, "size", "{}x{} for {w}x{h}", m.width(), m.height());
            ensure!(p.taggs().get("CGVA") == Some(&vec![v, v, v, 255]), "average", "{:?}", p.taggs().get("CGVA"));
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "A01",
            level: "exploration",
            rule: "the file has an image, or is damaged",
            facets: vec![Facet::new("read", 30_000, 1_500_000, read), Facet::new("large", 48, 1_500, read_large).hang(120), Facet::new("damaged", 60_000, 4_000_000, damaged).hang(30)],
            probes: vec![],
            assumptions: &[],
        },
        Property {
            id: "A02",
            level: "exploration",
            rule: "the image has more than one block",
            facets: vec![Facet::new("write", 8_000, 600_000, write), Facet::new("large", 60, 100, large).hang(120)],
            probes: vec![],
            assumptions: &[],
        },
    ]
}
