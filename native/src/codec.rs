//! P10 directory entries, P18 PETSCII, P19 GEOS info blocks and icons, P20 header.
use crate::ctx::*;
use crate::raw::*;
use crate::{ck, loc};
use cbm::disk::directory::{Extra, FileType};
use cbm::disk::file::Scheme;
use cbm::disk::geos::GEOSInfo;
use cbm::disk::{DiskError, Id};
use cbm::Petscii;

fn ftype(f: FileType) -> u8 {
    match f {
        FileType::DEL => 0,
        FileType::SEQ => 1,
        FileType::PRG => 2,
        FileType::USR => 3,
        FileType::REL => 4,
        FileType::Unknown(b) => b,
    }
}

fn check_entry(c: &mut Ctx, r: &mut Rng, g: &cbm::disk::directory::DirectoryEntry, raw: &[u8]) -> R {
    let w = Ent { pos: ((0, 0), 0), raw: raw.to_vec(), border: false };
    let a = &g.file_attributes;
    ck!(ftype(a.file_type) == raw[2] & 15, "file type of byte {:02x} decoded as {:?}", raw[2], a.file_type);
    if raw[2] & 15 <= 4 {
        ck!(!matches!(a.file_type, FileType::Unknown(_)), "known type {:02x} decoded as unknown", raw[2]);
    }
    ck!(a.closed_flag == (raw[2] & 0x80 != 0) && a.locked_flag == (raw[2] & 0x40 != 0) && a.save_with_replace_flag == (raw[2] & 0x20 != 0) && a.unused_bit == (raw[2] & 0x10 != 0), "flags of {:02x}: {:?}", raw[2], a);
    ck!((g.first_sector.0, g.first_sector.1) == w.first(), "first sector");
    ck!(g.filename.as_bytes() == &w.name()[..], "name {:?} decoded as {:?}", &raw[5..21], g.filename.as_bytes());
    ck!(g.file_size == w.blocks(), "block count {:02x}{:02x} decoded as {}", raw[31], raw[30], g.file_size);
    let s = match g.scheme {
        Scheme::Linear => Sch::Linear,
        Scheme::Relative => Sch::Rel,
        Scheme::GEOSSequential => Sch::GSeq,
        Scheme::GEOSVLIR => Sch::Vlir,
    };
    ck!(s == w.scheme(), "scheme {:?}, documented layout says {:?} for {:?}", s, w.scheme(), raw);
    match &g.extra {
        Extra::Linear(x) => ck!(s == Sch::Linear && x.unused == &raw[0x15..0x1E], "extra bytes of a plain file"),
        Extra::Relative(x) => {
            ck!(s == Sch::Rel && (x.first_side_sector.0, x.first_side_sector.1) == (raw[0x15], raw[0x16]) && x.record_length == raw[0x17] && x.unused == &raw[0x18..0x1E], "relative fields {:?} of {:?}", x, raw)
        }
        Extra::GEOS(x) => {
            ck!(
                (s == Sch::GSeq || s == Sch::Vlir)
                    && (x.info_block.0, x.info_block.1) == (raw[0x15], raw[0x16])
                    && x.structure.to_byte() == raw[0x17]
                    && x.geos_file_type.to_byte() == raw[0x18]
                    && [x.year, x.month, x.day, x.hour, x.minute] == raw[0x19..0x1E],
                "GEOS fields {:?} of {:?}",
                x,
                raw
            )
        }
    }
    let mut buf = r.bytes(32);
    let link = (buf[0], buf[1]);
    g.to_bytes(&mut buf);
    ck!((buf[0], buf[1]) == link, "encoding an entry changed the link bytes");
    ck!(buf[2..] == raw[2..], "entry {:?} encoded as {:?}", &raw[2..], &buf[2..]);
    c.stat("entries", 1);
    Ok(())
}

pub fn p10(c: &mut Ctx) {
    let n = c.n(1500);
    let mut batches: Vec<Option<usize>> = (0..256).map(Some).collect(); // exhaustive over the type byte
    batches.extend((0..n / 100).map(|_| None));
    let k = Kind::D64;
    for (bi, b) in batches.iter().enumerate() {
        let b = *b;
        c.case(&format!("entries {}", bi), |c, r| {
            let path = c.path("e.d64");
            let mut img = Img::blank(k, false);
            img.format(b"E", *b"EE");
            save(&path, &img);
            let mut d = open(&path, true)?;
            let rounds = match b {
                Some(_) => 96,
                None => 100,
            };
            for round in 0..rounds {
                let mut sec = r.bytes(256);
                sec[0] = 0;
                sec[1] = 255;
                for e in 0..8 {
                    let o = e * 32;
                    if let Some(t) = b {
                        sec[o + 2] = t as u8;
                        // structure 0..2 and random, every GEOS type
                        let x = round * 8 + e;
                        sec[o + 0x17] = (x / 256) as u8;
                        sec[o + 0x18] = x as u8;
                    } else if r.chance(1, 3) {
                        sec[o + 0x17] = r.below(3) as u8;
                    }
                    // names with padding
                    if r.chance(1, 2) {
                        for i in r.below(17)..16 {
                            sec[o + 5 + i] = 0xA0;
                        }
                    }
                    if r.chance(1, 8) {
                        let i = r.below(16);
                        sec[o + 5 + i] = 0xA0;
                    }
                    if r.chance(1, 16) {
                        for i in 5..32 {
                            sec[o + i] = *r.pick(&[0u8, 0xFF, 0xA0]);
                        }
                    }
                }
                d.write_sector(loc!(d, (18, 1)), &sec).map_err(|e| e.to_string())?;
                let want: Vec<usize> = (0..8).filter(|e| sec[e * 32 + 2] & 0x8F != 0).collect();
                let got = d.directory().map_err(|e| e.to_string())?;
                ck!(got.len() == want.len(), "{} entries listed of {}", got.len(), want.len());
                for (g, e) in got.iter().zip(want.iter()) {
                    check_entry(c, r, g, &sec[e * 32..e * 32 + 32])?;
                }
                if round % 16 == 3 && !got.is_empty() {
                    // storing an entry again changes nothing; storing it changed changes its bytes only
                    let i = r.below(got.len());
                    d.write_directory_entry(&got[i]).map_err(|e| e.to_string())?;
                    ck!(d.read_sector(loc!(d, (18, 1))).unwrap() == sec, "storing an unchanged entry changed the directory");
                    let mut g = got[i].clone();
                    g.file_size = g.file_size.wrapping_add(0x0101);
                    d.write_directory_entry(&g).map_err(|e| e.to_string())?;
                    let o = want[i] * 32;
                    let v = (sec[o + 30] as u16 | (sec[o + 31] as u16) << 8).wrapping_add(0x0101);
                    sec[o + 30] = v as u8;
                    sec[o + 31] = (v >> 8) as u8;
                    ck!(d.read_sector(loc!(d, (18, 1))).unwrap() == sec, "storing a changed block count");
                }
            }
            Ok(())
        });
    }
}

pub fn p18(c: &mut Ctx) {
    let shown: Vec<String> = (0..=255u8).map(|p| Petscii::from_bytes(&[p]).to_string()).collect();
    let sh = shown.clone();
    c.case("displayed characters", move |_, _| {
        for p in 0..=255u8 {
            let s = &sh[p as usize];
            ck!(s.chars().count() == 1, "code {:02x} displays as {:?}", p, s);
            let ch = s.chars().next().unwrap();
            let want = match p {
                0x20..=0x40 | 0x5B | 0x5D => Some(p as char),
                0x41..=0x5A => Some((p + 0x20) as char),
                0x61..=0x7A => Some((p - 0x20) as char),
                0xC1..=0xDA => Some((p - 0x80) as char),
                0x5C => Some('\u{a3}'),
                0x5E => Some('\u{2191}'),
                0x5F => Some('\u{2190}'),
                0xA0 | 0xE0 => Some('\u{a0}'),
                0x00..=0x1F | 0x80..=0x9F => Some('\u{fffd}'),
                _ => None,
            };
            if let Some(w) = want {
                ck!(ch == w, "code {:02x} displays as {:?}, expected {:?}", p, ch, w);
            }
        }
        Ok(())
    });
    let sh = shown.clone();
    c.case("every character", move |c, _| {
        let mut map = std::collections::HashMap::new();
        for p in (0..=255u8).rev() {
            map.insert(sh[p as usize].chars().next().unwrap(), p);
        }
        let mut batch = String::new();
        let mut want = vec![];
        for u in 0..=0x10FFFFu32 {
            if let Some(ch) = char::from_u32(u) {
                batch.push(ch);
                want.push(*map.get(&ch).unwrap_or(&0x7F));
            }
            if batch.len() > 4000 || u == 0x10FFFF {
                let p = Petscii::from(batch.as_str());
                ck!(p.as_bytes() == &want[..], "converting characters up to {:x}: a character is not mapped to the lowest code showing it", u);
                ck!(p.len() == want.len() && Petscii::from(batch.clone()).as_bytes() == &want[..] && Petscii::from(&batch).as_bytes() == &want[..] && Petscii::from_str_lossy(&batch).as_bytes() == &want[..], "conversions differ");
                let back = p.to_string();
                ck!(Petscii::from(back.as_str()).to_string() == back, "converting back and forth is not stable near {:x}", u);
                c.stat("characters", want.len() as u64);
                batch.clear();
                want.clear();
            }
        }
        Ok(())
    });
    let n = c.n(20000);
    for i in 0..(n / 1000).max(1) {
        c.case(&format!("padding {}", i), |c, r| {
            for _ in 0..1000 {
                let pad = if r.chance(1, 2) { 0xA0 } else { r.byte() };
                let n = r.below(24);
                let mut f: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { pad } else { r.byte() }).collect();
                let p = Petscii::from_padded_bytes(&f, pad);
                let mut w = f.clone();
                while w.last() == Some(&pad) {
                    w.pop();
                }
                ck!(p.as_bytes() == &w[..], "field {:?} padded with {:02x} read as {:?}", f, pad, p.as_bytes());
                let nl = r.below(24);
                let s = if r.chance(1, 3) { w.clone() } else { r.bytes(nl) };
                let ps = Petscii::from_bytes(&s);
                ck!(ps.as_bytes() == &s[..] && ps.len() == s.len() && ps.is_empty() == s.is_empty(), "bytes of a string");
                let before = f.clone();
                match ps.write_bytes_with_padding(&mut f, pad) {
                    Ok(()) => {
                        ck!(s.len() <= n, "string of {} bytes accepted for a field of {}", s.len(), n);
                        ck!(f[..s.len()] == s[..] && f[s.len()..].iter().all(|b| *b == pad), "field {:?} after storing {:?}", f, s);
                        if s.last() != Some(&pad) {
                            ck!(Petscii::from_padded_bytes(&f, pad) == ps, "{:?} not read back", s);
                        }
                    }
                    Err(_) => {
                        ck!(s.len() > n, "string of {} bytes refused for a field of {}", s.len(), n);
                        ck!(f == before, "refused string was written");
                    }
                }
                c.stat("fields", 1);
            }
            Ok(())
        });
    }
}

pub fn p19(c: &mut Ctx) {
    let n = c.n(3000);
    for i in 0..(n / 50).max(1) {
        c.case(&format!("info blocks {}", i), |c, r| {
            for j in 0..50 {
                let mut b = r.bytes(256);
                if j % 3 == 1 {
                    // every value of the coded bytes
                    b[0x44] = (i * 50 + j) as u8;
                    b[0x45] = (i * 50 + j) as u8;
                    b[0x46] = (i * 50 + j) as u8;
                }
                if j % 3 == 2 {
                    for x in b[2..].iter_mut() {
                        if r.chance(1, 2) {
                            *x = 0;
                        }
                    }
                    b[0x46] = r.below(3) as u8;
                    b[0x45] = r.below(17) as u8;
                }
                let g = GEOSInfo::from_bytes(&b);
                let mut o = b.clone();
                g.to_bytes(&mut o);
                if o != b {
                    let x = (0..256).find(|x| o[*x] != b[*x]).unwrap();
                    return Err(format!("re-encoding changed byte 0x{:02x} from {:02x} to {:02x}", x, b[x], o[x]));
                }
                let mut z = r.bytes(256);
                let keep = z[..5].to_vec();
                g.to_bytes(&mut z);
                ck!(z[..5] == keep[..], "encoding touched the bytes before the icon");
                ck!(z[5..] == b[5..], "encoding does not store every field");
                let le = |o: usize| b[o] as u16 | (b[o + 1] as u16) << 8;
                ck!(g.program_load_address == le(0x47) && g.program_end_address == le(0x49) && g.program_start_address == le(0x4B), "addresses");
                ck!(g.file_attributes.to_byte() == b[0x44] && g.geos_file_type.to_byte() == b[0x45] && g.structure.to_byte() == b[0x46], "coded bytes");
                for (name, s, o, n) in [("class", &g.class, 0x4D, 20usize), ("author", &g.author, 0x61, 20), ("application", &g.application, 0x75, 20), ("description", &g.description, 0xA0, 96)] {
                    let mut v = vec![0u8; n];
                    s.to_bytes(&mut v);
                    ck!(v == b[o..o + n], "{} is not stored at 0x{:02x}", name, o);
                    let t: Vec<u8> = b[o..o + n].iter().cloned().take_while(|x| *x != 0).collect();
                    let want: String = t.iter().flat_map(|x| std::ascii::escape_default(*x)).map(|x| x as char).collect();
                    ck!(s.to_escaped_string() == want && s.to_string() == want, "text of {}", name);
                }
                ck!(g.reserved == b[0x89..0xA0], "reserved bytes");
                let mut ic = vec![0u8; 63];
                g.icon.to_bytes(&mut ic);
                ck!(ic == b[5..0x44], "icon bytes");
                // drawing
                let text = g.icon.to_unicode();
                let lines: Vec<&str> = text.split('\n').collect();
                ck!(lines.len() == 12 && lines[11].is_empty(), "icon has {} lines", lines.len() - 1);
                for (row, l) in lines[..11].iter().enumerate() {
                    let ch: Vec<char> = l.chars().collect();
                    ck!(ch.len() == 12, "icon line {} has {} characters", row, ch.len());
                    for col in 0..12 {
                        let bit = |y: usize, x: usize| -> u8 {
                            if y >= 21 {
                                0
                            } else {
                                b[5 + y * 3 + x / 8] >> (7 - x % 8) & 1
                            }
                        };
                        let (tl, tr, bl, br) = (bit(row * 2, col * 2), bit(row * 2, col * 2 + 1), bit(row * 2 + 1, col * 2), bit(row * 2 + 1, col * 2 + 1));
                        let want = quadrant(tl, tr, bl, br);
                        ck!(ch[col] == want, "icon row {} column {} drawn as {:?}, pixels are {}{}/{}{}", row, col, ch[col], tl, tr, bl, br);
                    }
                }
                let _ = g.to_string();
                c.stat("blocks", 1);
            }
            Ok(())
        });
    }
}

fn quadrant(tl: u8, tr: u8, bl: u8, br: u8) -> char {
    // from the Unicode names of the block elements
    match (tl, tr, bl, br) {
        (0, 0, 0, 0) => ' ',
        (1, 1, 0, 0) => '▀',
        (0, 0, 1, 1) => '▄',
        (1, 1, 1, 1) => '█',
        (1, 0, 1, 0) => '▌',
        (0, 1, 0, 1) => '▐',
        (0, 0, 1, 0) => '▖',
        (0, 0, 0, 1) => '▗',
        (1, 0, 0, 0) => '▘',
        (1, 0, 1, 1) => '▙',
        (1, 0, 0, 1) => '▚',
        (1, 1, 1, 0) => '▛',
        (1, 1, 0, 1) => '▜',
        (0, 1, 0, 0) => '▝',
        (0, 1, 1, 0) => '▞',
        (0, 1, 1, 1) => '▟',
        _ => unreachable!(),
    }
}

pub fn p20(c: &mut Ctx) {
    let n = c.n(100);
    for k in KINDS {
        for i in 0..n {
            let err = i % 4 == 3;
            c.case(&format!("{:?} header {}", k, i), |c, r| {
                let path = c.path(&format!("a.{}", k.ext()));
                let mut img = Img { k, b: r.bytes(k.size(err)) };
                if i % 3 == 0 {
                    img.format(b"OLD NAME", *b"ON");
                }
                if k == Kind::D71 {
                    img.sec_mut((18, 0))[3] = 0x80;
                }
                let geos = i % 2 == 0;
                if geos {
                    let bl = (r.byte(), r.byte());
                    let h = img.sec_mut(k.header());
                    h[0xAB] = bl.0;
                    h[0xAC] = bl.1;
                    h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.1");
                }
                save(&path, &img);
                let mut d = open(&path, true)?;
                let check = |d: &Box<dyn cbm::disk::Disk>, img: &Img| -> R {
                    let h = d.header().map_err(|e| e.to_string())?;
                    let (fd, ft, name, id, dv, df) = img.header_fields();
                    ck!((h.first_directory_sector.0, h.first_directory_sector.1) == fd, "first directory sector");
                    ck!(h.disk_format_type == ft, "format type");
                    let mut hn = h.disk_name.as_bytes().to_vec();
                    hn.resize(16.max(hn.len()), 0xA0);
                    ck!(hn == name, "name {:?} stored {:?}", hn, name);
                    ck!(h.disk_id == Id::from_bytes(&id), "id");
                    ck!(h.directory_dos_version == dv && h.directory_format_type == df, "DOS version and format");
                    match (&h.geos, img.geos_border()) {
                        (Some(g), Some(b)) => {
                            ck!((g.border.0, g.border.1) == b, "GEOS border");
                            let mut s = [0u8; 16];
                            g.id.to_bytes(&mut s);
                            ck!(s[..] == img.sec(img.k.header())[0xAD..0xBD], "GEOS marker");
                        }
                        (None, None) => {}
                        _ => return Err("GEOS marker not recognised as stored".into()),
                    }
                    Ok(())
                };
                check(&d, &img)?;
                // unchanged header written back
                d.flush_header().map_err(|e| e.to_string())?;
                let pads: &[usize] = match k {
                    Kind::D81 => &[0x14, 0x15, 0x18, 0x1B, 0x1C],
                    _ => &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA],
                };
                {
                    let h = img.sec_mut(k.header());
                    for p in pads {
                        h[*p] = 0xA0;
                    }
                }
                cmp(&load(&path, k), &img, "writing the header back unchanged")?;
                // a changed header
                let nl = r.below(17);
                let name = r.bytes(nl);
                let v = r.bytes(7);
                {
                    let x = loc!(d, (v[0], v[1]));
                    let h = d.header_mut().map_err(|e| e.to_string())?;
                    h.first_directory_sector = x;
                    h.disk_format_type = v[2];
                    h.disk_name = Petscii::from_bytes(&name);
                    h.disk_id = Id::from_bytes(&v[3..5]);
                    h.directory_dos_version = v[5];
                    h.directory_format_type = v[6];
                }
                d.flush_header().map_err(|e| e.to_string())?;
                {
                    let (no, io, dv) = match k {
                        Kind::D81 => (0x04, 0x16, 0x19),
                        _ => (0x90, 0xA2, 0xA5),
                    };
                    let h = img.sec_mut(k.header());
                    h[0] = v[0];
                    h[1] = v[1];
                    h[2] = v[2];
                    for i in 0..16 {
                        h[no + i] = *name.get(i).unwrap_or(&0xA0);
                    }
                    h[io] = v[3];
                    h[io + 1] = v[4];
                    h[dv] = v[5];
                    h[dv + 1] = v[6];
                }
                cmp(&load(&path, k), &img, "writing a changed header")?;
                check(&d, &img)?;
                {
                    let d2 = open(&path, false)?;
                    check(&d2, &img)?;
                }
                // a name that does not fit
                let nl = r.range(17, 30);
                d.header_mut().map_err(|e| e.to_string())?.disk_name = Petscii::from_bytes(&r.bytes(nl));
                match d.flush_header() {
                    Ok(()) => return Err("overlong disk name written".into()),
                    Err(e) => ck!(derr(&e) == Some(DiskError::FilenameTooLong), "overlong disk name: {}", e),
                }
                cmp(&load(&path, k), &img, "refused header")?;
                c.stat("headers", 1);
                Ok(())
            });
        }
    }
}

pub fn cmp(now: &Img, want: &Img, what: &str) -> R {
    if now.b == want.b {
        return Ok(());
    }
    ck!(now.b.len() == want.b.len(), "{}: image size changed", what);
    let o = (0..now.b.len()).find(|i| now.b[*i] != want.b[*i]).unwrap();
    Err(format!("{}: image byte 0x{:x} is {:02x}, expected {:02x}", what, o, now.b[o], want.b[o]))
}
