"""Verification level, technique and note per property (see DESIGN.md sections 3 and 4)."""
T = 'Verus contracts on mechanically extracted real functions'
TB = T + ', with a bounded native stand-in for the parts listed in the note'
BASE = (' Trusted: Verus/Z3/vstd, the extraction rules of DESIGN.md section 2, the assumed contracts listed in CONTRACTS.md. '
        'The same postconditions are also evaluated on the running crate (bounded) to find a failing input; that part is not counted as proved.')


def proof(s):
    return ('proof', T, s + BASE)


def mixed(s):
    return ('other', TB, s + BASE)


LEVELS = {
    'P01': proof('Proved for all images of the supported layouts: layout tables, get_offset, sector, sector_mut, read_sector, write_sector of all three disk types.'),
    'P02': proof('Proved for all maps, tracks and sectors (bit-vector lemmas for the single-bit changes).'),
    'P03': proof('Proved: bytes stored by BamWriter::write, map read by Bam::read, round-trip lemma, frame; that mmapped bytes reach the host file is assumed (exercised by the stand-in).'),
    'P04': proof('Proved: result exists, is free and eligible; disk full exactly when none; termination of every search loop. Precondition: consistent map, previous sector not on the 1571 reserved track.'),
    'P05': proof('Proved: the allocator equals reference functions written from DISK.TXT and the GEOS documentation; every other caller than the chain writer passes the right previous sector. K1 (chain writer passes none) is a known finding.'),
    'P06': proof('Proved: writer keeps content = old content + accepted prefix for any split into writes and flushes, reader returns consecutive pieces for any buffer sizes; composed over whole histories with reopening in verus/history.rs (client_append, client_reopen, client_read). Assumed: mmapped bytes reach the host file; the cdisk program is outside.'),
    'P07': proof('Proved by induction over any sequence of create, append, rename, delete and reopen, refused or not (verus/history.rs, client_history): map = system + directory + file sectors, no sharing, true block counts, free count = total - blocks of the files, empty validation after each operation. Preconditions: names do not end in 0xA0, SEQ/PRG/USR files on a CBM disk, one writer at a time; reopening after all host flushes succeeded.'),
    'P08': proof('Proved: frame postconditions of create, write, flush, rename, delete; carried through histories by verus/history.rs. Precondition: no stale handles, names do not end in 0xA0.'),
    'P09': proof('Proved for linear, relative, GEOS sequential and VLIR files through File::delete; refusal leaves map and directory unchanged.'),
    'P10': proof('Proved for all 32-byte entries: field positions and encode(decode(b)) = b.'),
    'P11': proof('Proved: iterator, lookup, create and rename contracts, and name uniqueness as an inductive invariant over histories (verus/history.rs).'),
    'P12': mixed('Proved for every function under contract: no overflow, index or unwrap failure, every loop terminates. Bounded: functions not under contract, RefCell double borrows, allocation failure.'),
    'P13': mixed('Proved: every modifying function under contract returns ReadOnly and leaves device and map equal. Bounded: bytes of the host file.'),
    'P14': proof('Proved: write_format result is a function of format, name and id; counts 664/1328/3160; clean validation (verus/history.rs); refusal unchanged. Host file reopening is exercised by the stand-in.'),
    'P15': proof('Proved: set of reports = set of inconsistencies, device and map unchanged. Order of reports is not specified.'),
    'P16': proof('Proved for all images: acceptance condition, count, records, refused indices.'),
    'P17': proof('Proved for all images and buffer sizes: records and the Convert stream as a sequence.'),
    'P18': proof('Proved: conversion table, lossy conversion, padding codecs. str::chars and Vec<char> collection are assumed.'),
    'P19': proof('Proved for all 256-byte info blocks and all icons.'),
    'P20': proof('Proved: Header::read/write positions, frame, round trip, for the three formats.'),
    'P21': mixed('Proved: size lookup, layout tables, extension dispatch, open/create of all types against assumed host stand-ins (open, set_len, mmap, lower-casing). Bounded: the real host file system.'),
    'P22': proof('Proved for all images: order, at-most-once, error kinds, termination, nothing after an error.'),
}
