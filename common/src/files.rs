//! Writing block files.
use crate::model::Sim;
use crate::plan::Layout;
use std::fs;
use std::path::Path;

pub const MAGIC: [u8; 4] = [0xf9, 0xbe, 0xb4, 0xd9];

pub fn record(raw: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&(raw.len() as u32).to_le_bytes());
    v.extend_from_slice(raw);
    v
}

/// Writes the given records (raw blocks) to `dir`, laid out as the plan says.
pub fn write_layout(dir: &Path, raws: &[Vec<u8>], l: &Layout) {
    let mut idx: Vec<usize> = (0..raws.len()).collect();
    if !l.order.is_empty() {
        idx.sort_by_key(|i| l.order[*i % l.order.len()].wrapping_add(((*i / l.order.len()) as u16).wrapping_mul(7919)));
    }
    let mut number = l.first as usize;
    let mut file = 0usize;
    let mut pos = 0usize;
    let mut hollow = l.hollow.clone();
    while pos < idx.len() || file == 0 || !hollow.is_empty() {
        if let Some(i) = hollow.iter().position(|h| h.0 as usize <= file || pos >= idx.len()) {
            let (_, pad) = hollow.remove(i);
            fs::write(dir.join(format!("blk{:05}.dat", number)), vec![0u8; pad as usize]).unwrap();
            number = (number + l.step as usize) % 100_000;
            continue;
        }
        let n = l.per_file[file % l.per_file.len()] as usize;
        let mut data = Vec::new();
        for i in idx.iter().skip(pos).take(n) {
            data.extend_from_slice(&record(&raws[*i]));
        }
        pos += n;
        data.extend(std::iter::repeat(0u8).take(l.pad[file % l.pad.len()] as usize));
        let name = format!("blk{:05}.dat", number);
        if !l.links.is_empty() && l.links[file % l.links.len()] {
            let other = dir.with_extension("elsewhere");
            fs::create_dir_all(&other).unwrap();
            fs::write(other.join(format!("{}.moved", number)), data).unwrap();
            let target = if file % 2 == 0 { other.join(format!("{}.moved", number)) } else { Path::new("..").join(other.file_name().unwrap()).join(format!("{}.moved", number)) };
            std::os::unix::fs::symlink(target, dir.join(name)).unwrap();
        } else {
            fs::write(dir.join(name), data).unwrap();
        }
        number = (number + l.step as usize) % 100_000;
        file += 1;
    }
    if l.foreign {
        let junk = b"this is not a block file, and must never be read as one. ".repeat(4);
        for name in ["rev00000.dat", "blk1.dat", "blk000000.dat", "blk00000.dat.bak", "xblk00001.dat", "blk0000a.dat", "blk00000_dat", "BLK00002.DAT", "xor.txt"] {
            fs::write(dir.join(name), &junk).unwrap();
        }
        use std::os::unix::ffi::OsStrExt;
        for name in [&b"caf\xe9.txt"[..], b"blk0000\xff.dat"] {
            fs::write(dir.join(std::ffi::OsStr::from_bytes(name)), &junk).unwrap();
        }
        fs::create_dir_all(dir.join("index")).unwrap();
        fs::write(dir.join("index").join("blk00000.dat"), &junk).unwrap();
    }
}

pub fn active_raws(sim: &Sim) -> Vec<Vec<u8>> {
    sim.active.iter().map(|i| (*sim.blocks[*i].raw).clone()).collect()
}

/// Like `write_layout`, each record followed by a hole of the given length that belongs to it. Returns the longest file's length.
pub fn write_sparse(dir: &Path, records: &[(Vec<u8>, u32)], l: &Layout) -> u64 {
    use std::io::{Seek, SeekFrom, Write};
    let (mut file, mut pos, mut number, mut longest) = (0usize, 0usize, l.first as usize, 0);
    while pos < records.len() {
        let n = l.per_file[file % l.per_file.len()] as usize;
        let mut f = fs::File::create(dir.join(format!("blk{:05}.dat", number))).unwrap();
        for (raw, hole) in records.iter().skip(pos).take(n) {
            f.write_all(&MAGIC).unwrap();
            f.write_all(&(raw.len() as u32 + hole).to_le_bytes()).unwrap();
            f.write_all(raw).unwrap();
            f.seek(SeekFrom::Current(*hole as i64)).unwrap();
        }
        let end = f.stream_position().unwrap() + l.pad[file % l.pad.len()] as u64;
        f.set_len(end).unwrap();
        longest = longest.max(end);
        pos += n;
        number = (number + l.step as usize) % 100_000;
        file += 1;
    }
    longest
}
