#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="src/disk/"
p("P01","A sector address denotes exactly one 256-byte region of the image",
 "For every supported disk layout (D64 with 35 or 40 tracks, D71, D81, each with or without an error table), every track and sector that exists on the disk reads and writes its own 256 bytes of the image, and no two of them overlap or reach into the error table. Every other track and sector number is refused with an invalid-location error and changes nothing. Writing a sector changes those 256 bytes and no others, and data of any other length than 256 is refused without a change.",
 ["inputs"],"all (track, sector) byte pairs, all sector contents, all layouts",
 "65536 addresses times 8 layouts and arbitrary contents; the tests touch a few sectors through whole-file operations.",
 [B+"block.rs",B+"image.rs",B+"mod.rs",B+"d64.rs",B+"d71.rs",B+"d81.rs"],
 [("ImageBlockDevice::get_offset",B+"block.rs"),("ImageBlockDevice::sector/sector_mut",B+"block.rs"),("Image::slice/slice_mut",B+"image.rs"),("TRACKS tables and geometries",B+"d64.rs, d71.rs, d81.rs"),("Disk::read_sector/write_sector",B+"mod.rs")],
 ["Disk::read_sector","Disk::write_sector","image file bytes"])
p("P02","Allocating or freeing a sector changes that sector's status only",
 "In the free-space map of any disk, allocating a sector marks exactly that sector as in use, and freeing it marks exactly that sector as free; the status of every other sector on every track stays as it was, and repeating the operation changes nothing more. After each such operation the free count stored for that track equals the number of sectors marked free in its map. A track or sector that does not exist is refused with an invalid-location error and leaves the map unchanged.",
 ["inputs","histories"],"all map contents, all locations, any sequence of allocate/free",
 "2^40 maps per track and every order of operations; the only unit test decodes one constant entry.",
 [B+"bam.rs"],
 [("BamEntry::allocate/free/update_free_sectors",B+"bam.rs"),("Bam::allocate/free/entry/entry_mut",B+"bam.rs"),("Bam::allocated_sectors/free_sectors/blocks_free",B+"bam.rs")],
 ["Disk::bam","Disk::blocks_free"],[{"name":"BAM entries","meaning":"per-track bitmap and free count","where":"src/disk/bam.rs"}])
p("P03","The free-space map survives being written to the image and read back",
 "For every disk type and every possible free-space map, writing the map to the image and opening the image again yields the same status for every sector and the same free count for every track. The map is stored where CBM DOS stores it (1541, 1571 including the second side, 1581), and writing it leaves every other byte of the image untouched.",
 ["inputs"],"all map contents for D64, D71 and D81",
 "Tests only ever see maps produced by a few file operations, and never compare the stored bytes.",
 [B+"bam.rs",B+"d64.rs",B+"d71.rs",B+"d81.rs"],
 [("BamWriter::write",B+"bam.rs"),("Bam::read",B+"bam.rs"),("BamEntry::from_bytes/write_bitmap",B+"bam.rs"),("BAM_FORMAT sections",B+"d64.rs, d71.rs, d81.rs")],
 ["image bytes of the BAM sectors","Disk::bam after reopening"])
p("P04","The allocator only hands out free data sectors, and finds one if any is left",
 "Asked for the next free sector, with or without a previous sector, on a CBM or a GEOS disk with a consistent free-space map, the allocator returns a sector that exists and is marked free. A file sector is never placed on the directory track or the 1571's reserved track, and a directory sector is never placed off the directory track. It always terminates and reports a full disk exactly when no eligible sector is free.",
 ["inputs"],"all consistent free-space maps, all previous sectors, all disk types, CBM and GEOS",
 "The state space is the set of all maps; the tests fill a disk in one order.",
 [B+"format.rs",B+"bam.rs"],
 [("DiskFormat::next_free_block",B+"format.rs"),("DiskFormat::first_free_track/first_free_block",B+"format.rs"),("DiskFormat::next_free_track_cbm/next_free_track_geos",B+"format.rs"),("DiskFormat::next_free_block_from_previous",B+"format.rs")],
 ["Bam::next_free_block"])
p("P05","Sector placement follows the CBM and GEOS allocation algorithms",
 "The sector chosen for a new file, for the next block of a file and for extending the directory is the one the documented algorithms prescribe. Without a previous sector on a CBM disk it is the lowest free sector of the free track nearest the directory track, the lower track first; with one, tracks are searched from the previous track outward, then the other half outward from the directory, then the first half outward from the directory, and the sector search starts one interleave after the previous sector (from sector 0 after changing half), wrapping as DISK.TXT describes. On GEOS disks tracks are searched upwards from the previous track (from the first track when there is none), wrapping once to the first track, with the GEOS skew on a new track and one sector less from track 25 up.",
 ["inputs"],"all consistent free-space maps, all previous sectors, all disk types, CBM and GEOS",
 "Tests compare one recorded allocation order on empty disks; the choice depends on the whole map.",
 [B+"format.rs",B+"chain.rs",B+"directory.rs"],
 [("DiskFormat::next_free_block_from_previous",B+"format.rs"),("DiskFormat::next_free_track_*",B+"format.rs"),("ChainWriter::allocate_next_block",B+"chain.rs"),("next_free_directory_entry",B+"directory.rs")],
 ["Bam::next_free_block","link bytes of written chains"])
p("P06","What is written to a file is what is read back",
 "For any byte string, split into any sequence of writes, flushes and later appends, reading the file in pieces of any size returns exactly the bytes written, in order and nothing else, immediately and after the image has been closed and opened again. If the disk fills up, the write reports it and the file holds a prefix of the data.",
 ["inputs","histories"],"all contents and lengths including 0 and multiples of 254, all write and read chunkings, all disk types",
 "The integration test writes each file with one call and reads it with one call; block boundaries and chunkings are unbounded.",
 [B+"chain.rs",B+"file.rs",B+"mod.rs"],
 [("ChainWriter::write/allocate_next_block/flush",B+"chain.rs"),("ChainReader::read",B+"chain.rs"),("LinearFile::reader/writer/record",B+"file.rs"),("Disk::create_file",B+"mod.rs")],
 ["io::Read / io::Write of linear files"])
p("P07","Space accounting is exact after any history of file operations",
 "Start from a freshly formatted disk and apply any sequence of creating, writing, appending, renaming and deleting files, including operations refused because the disk or directory is full. Then the sectors marked in use are exactly those of the system areas, the directory and the existing files, no sector belongs to two of them, each directory entry states the file's true number of blocks, the free-block count is the total minus the blocks of the files, and the disk validates without errors. The same holds when the image is opened again.",
 ["histories","inputs"],"all operation sequences and file sizes, all disk types, up to and past full disks",
 "A handful of random histories of one shape are tested, without reopening the image.",
 [B+"mod.rs",B+"chain.rs",B+"directory.rs",B+"file.rs",B+"bam.rs"],
 [("Disk::create_file",B+"mod.rs"),("ChainWriter::allocate_next_block",B+"chain.rs"),("next_free_directory_entry",B+"directory.rs"),("LinearFile::delete, remove_chain",B+"file.rs, chain.rs")],
 ["BAM bytes, directory entries and links in the image","Disk::blocks_free","Disk::validate"])
p("P08","Operations on one file leave every other file and unrelated sector alone",
 "Creating, writing, appending to, renaming or deleting one file never changes the contents, name, type or stored size of another file, nor any byte of a sector that is neither part of that file, nor free before, nor the directory or free-space map.",
 ["histories","inputs"],"all disk contents and all operations on any of the files",
 "Needs a frame condition over the whole image for every operation, not a comparison of a few files.",
 [B+"chain.rs",B+"mod.rs",B+"directory.rs",B+"file.rs",B+"block.rs"],
 [("ChainWriter",B+"chain.rs"),("BlockDevice::positioned_write",B+"block.rs"),("Disk::create_file/rename",B+"mod.rs"),("next_free_directory_entry",B+"directory.rs")],
 ["all sectors of the image before and after"])
p("P09","Deleting a file frees exactly its sectors and removes its entry",
 "Deleting any intact file, whether plain, relative (with its side sectors) or GEOS sequential or VLIR (with its info block and records), marks exactly the sectors it occupied as free in the stored free-space map and removes the file from the directory, and nothing else. If the file's structure is damaged so that deletion is refused, neither the free-space map nor the directory changes.",
 ["inputs","histories"],"all file layouts of all four schemes, intact or damaged, all disk types",
 "Tests delete plain files only and never look at the stored map or at damaged files.",
 [B+"file.rs",B+"geos/file.rs",B+"chain.rs"],
 [("LinearFile::delete, RelativeFile::delete",B+"file.rs"),("GEOSFile::delete",B+"geos/file.rs"),("remove_chain",B+"chain.rs")],
 ["image bytes","Disk::bam","Disk::iter"])
p("P10","Directory entries are decoded and encoded without loss",
 "Decoding any 32-byte directory entry and encoding it again reproduces every byte of the entry (type and flags, first sector, file name, the nine scheme-specific bytes, block count), and never touches the two link bytes in front. The decoded fields are those of the documented layout: file type and flags, name without trailing padding, block count in little-endian order, and relative or GEOS fields according to the entry's scheme.",
 ["inputs"],"all 32-byte entries; all field values",
 "2^240 entries; the tests decode a few samples.",
 [B+"directory.rs","src/petscii.rs",B+"geos/mod.rs"],
 [("DirectoryEntry::parse/to_bytes",B+"directory.rs"),("FileAttributes::from_byte/to_byte",B+"directory.rs"),("Extra, RelativeExtra, GEOSExtra, LinearExtra",B+"directory.rs"),("GEOSExtra::is_entry_geos/is_entry_vlir",B+"directory.rs")],
 ["Disk::iter / Disk::write_directory_entry"])
p("P11","File names identify files, and renaming changes nothing but the name",
 "On any disk, looking up a name finds the first listed file whose stored name equals it and otherwise reports not found; the listing shows every entry that is not scratched, in directory order. No two files created or renamed through the library ever share a name: taking an existing name or one longer than 16 characters is refused and changes nothing. A successful rename changes only the 16 name bytes of that entry.",
 ["inputs","histories"],"all directories, all names, all sequences of create/rename/delete",
 "Depends on all directory contents, scratched slots and multi-sector directories.",
 [B+"mod.rs",B+"directory.rs"],
 [("Disk::find_directory_entry/check_filename_availability/rename",B+"mod.rs"),("DirectoryIterator::next",B+"directory.rs"),("check_filename_validity",B+"directory.rs"),("next_free_directory_entry",B+"directory.rs")],
 ["Disk::iter","image bytes of the directory"])
p("P12","No image content can crash or hang the library",
 "Whatever the contents of an image of a supported size, opening it, listing it, reading every kind of file and record, converting GEOS files, validating, and creating, writing, appending, renaming, deleting and formatting all return normally with a result or an error: no panic, arithmetic overflow, out-of-range access or endless loop.",
 ["inputs"],"all image contents of all supported sizes, all operations",
 "Tests use well-formed images; damaged or hostile images are the unbounded remainder.",
 [B+"chain.rs",B+"file.rs",B+"directory.rs",B+"geos/file.rs",B+"geos/reader.rs",B+"validation.rs",B+"bam.rs",B+"format.rs",B+"header.rs"],
 [("loop detection in ChainIterator and ChainWriter",B+"chain.rs"),("bounds checks in get_offset and check_location",B+"block.rs, bam.rs"),("RelativeFile::new",B+"file.rs"),("GEOSReader",B+"geos/reader.rs")],
 ["return of every public operation"])
p("P13","A read-only image is never modified",
 "On an image opened read-only, every operation that would modify it is refused with the read-only error, the image file keeps every byte, and what the open disk reports (directory, free blocks, contents) stays the same. Operations that only read never modify any image.",
 ["inputs","histories"],"all disk contents and all operations, in any order, on read-only opened images",
 "Tests never open an image read-only.",
 [B+"image.rs",B+"block.rs",B+"mod.rs",B+"chain.rs",B+"file.rs"],
 [("Image::check_writability/slice_mut/flush",B+"image.rs"),("ImageBlockDevice::sector_mut",B+"block.rs"),("Disk::create_file",B+"mod.rs"),("remove_chain",B+"chain.rs")],
 ["image file bytes","returned errors"])
p("P14","Formatting always produces the same valid empty disk",
 "Formatting any image, whatever it held before, gives a disk with the requested name (padded to 16) and id, an empty directory, exactly the system sectors in use, 664 (D64), 1328 (D71) or 3160 (D81) blocks free, and a clean validation, both at once and after reopening. Apart from name and id the resulting sectors do not depend on the earlier contents. A name longer than 16 characters is refused and leaves the image as it was.",
 ["inputs"],"all previous image contents, all names and ids, all layouts",
 "Tests format blank in-memory images only.",
 [B+"mod.rs",B+"header.rs",B+"bam.rs",B+"format.rs"],
 [("Disk::write_format",B+"mod.rs"),("Header::new/write",B+"header.rs"),("Bam::new, DiskFormat::system_locations",B+"bam.rs, format.rs")],
 ["all image bytes","Disk::name, blocks_free, iter, validate"])
p("P15","Validation reports exactly the inconsistencies of a disk",
 "Validation leaves the disk unchanged and reports: each system sector not marked in use; each sector marked in use that neither the system, the directory nor any file occupies; each sector occupied by the directory or a file but marked free; each sector occupied by more than one owner; and each file whose structure cannot be followed. A disk without these inconsistencies is reported clean, and nothing else is reported.",
 ["inputs"],"all free-space maps, directories and file chains, consistent or not",
 "Tests only check that healthy disks validate, so a validator that reports nothing would pass.",
 [B+"validation.rs",B+"bam.rs",B+"format.rs"],
 [("validate",B+"validation.rs"),("Bam::allocated_sectors/free_sectors",B+"bam.rs"),("DiskFormat::system_locations",B+"format.rs"),("occupied_sectors",B+"file.rs, geos/file.rs")],
 ["Disk::validate"])
p("P16","Relative-file records are the consecutive fixed-size slices of the data",
 "For every intact relative file and record length, the number of records is the data length divided by the record length, record number i is bytes i times the record length up to the next multiple of the file's data, wherever sector boundaries fall, and any other index is refused. A record length of zero, inconsistent side-sector lists, a data length that is no multiple of the record length or a last data sector that links on are reported as an invalid relative file.",
 ["inputs"],"all record lengths 1..254, data lengths, sector layouts and indices",
 "No test covers relative files.",
 [B+"file.rs"],
 [("RelativeFile::new/record_position/record",B+"file.rs"),("BlockDevice::read_position",B+"block.rs")],
 ["FileOps::record_count/record"])
p("P17","GEOS files expose their records and convert to the same CVT stream",
 "For every intact GEOS file, record i is the chain that the i-th pair of its index block names (empty for an unavailable record) and a sequential file has one record, its chain. The Convert stream is the 254-byte directory block with the signature, the info block, for VLIR files the index rewritten as block counts and last-byte positions, then the records, each but the last padded to a multiple of 254 bytes; it is the same whatever buffer sizes it is read with.",
 ["inputs"],"all VLIR indexes, record lengths and read chunkings",
 "No test covers GEOS files.",
 [B+"geos/file.rs",B+"geos/reader.rs"],
 [("GEOSFile::new/record",B+"geos/file.rs"),("GEOSReader::new/next_state/process_vlir_index_block/read",B+"geos/reader.rs")],
 ["GEOSFile::reader","FileOps::record"])
p("P18","PETSCII conversion and padding are faithful",
 "Converting text to PETSCII maps every translatable character to the lowest code that displays as it and every other character to 0x7F, one code per character, so converting a displayed string back and forth is stable. Reading a padded field removes all trailing padding and nothing else; writing a string into a field stores it followed by padding to the end, reading it back yields the same string unless it ends in the padding byte, and a string longer than the field is refused without being written.",
 ["inputs"],"all strings, all byte strings, all field lengths and pad bytes",
 "Unbounded strings; the tests compare fixed samples.",
 ["src/petscii.rs"],
 [("Petscii::from_str_lossy",  "src/petscii.rs"),("Petscii::from_padded_bytes/write_bytes_with_padding","src/petscii.rs"),("Display for Petscii","src/petscii.rs")],
 ["Petscii conversions"])
p("P19","GEOS info blocks and icons are decoded, re-encoded and drawn faithfully",
 "Decoding any 256-byte GEOS info block and encoding it again into the same block reproduces it byte for byte, and the decoded fields are those of the documented layout. Drawing any 24 by 21 pixel icon yields 11 lines of 12 block characters in which every pixel is shown at its place and no others.",
 ["inputs"],"all info blocks and all icons",
 "2^504 icons and 2^2048 blocks; no test covers either.",
 [B+"geos/mod.rs","src/sprite.rs"],
 [("GEOSInfo::from_bytes/to_bytes",B+"geos/mod.rs"),("Sprite::to_unicode","src/sprite.rs")],
 ["GEOSInfo","Sprite::to_unicode"])
p("P20","The disk header is read and rewritten without losing other data",
 "Reading the header of any formatted image yields the first directory sector, format type, name, id, DOS version and format bytes and GEOS marker at their documented places. Writing it back stores exactly these fields and the fixed padding bytes (and the 1571's double-sided flag), and leaves every other byte of the image unchanged, in particular the free-space map sharing the sector and the GEOS data; reading again gives the same header.",
 ["inputs"],"all header sectors for D64, D71 and D81",
 "Tests decode four sample headers and never write one back.",
 [B+"header.rs",B+"d64.rs",B+"d71.rs",B+"d81.rs",B+"geos/mod.rs"],
 [("Header::read/write",B+"header.rs"),("HEADER_FORMAT",B+"d64.rs, d71.rs, d81.rs"),("GEOSDiskHeader::new",B+"geos/mod.rs")],
 ["Disk::header, Disk::flush_header","header sector bytes"])
p("P21","Image files are recognised by extension or size, and changes reach the file",
 "An image whose extension is d64, d71 or d81 in any letter case is opened as that type, and any other by its size; a size that fits no layout of the type is refused as an invalid layout. Every supported layout has its own size, including error tables, which stay untouched by all file operations. Everything a session wrote to a writable image file is found when the file is opened again.",
 ["inputs","histories"],"all file names, all file sizes, all sessions",
 "Tests work in memory only.",
 [B+"mod.rs",B+"image.rs",B+"d64.rs",B+"d71.rs",B+"d81.rs"],
 [("disk::open, DiskType::from_extension",B+"mod.rs"),("Geometry::find_by_size/size",B+"mod.rs"),("Image::open_read_write/create/flush",B+"image.rs")],
 ["disk::open","image file bytes"])
p("P22","Following a sector chain always ends and visits no sector twice",
 "Following a chain from any sector on any image yields the linked sectors in order, each at most once, with the full 256 bytes of each linked sector and the used bytes of the last one, and then ends. A link back to a visited sector gives a chain-loop error, a link to a sector that does not exist an invalid-location error, and a last sector claiming fewer than two used bytes an invalid-link error, after which nothing more is yielded.",
 ["inputs"],"all image contents and all start sectors",
 "Chains are arbitrary graphs over up to 3200 sectors.",
 [B+"chain.rs"],
 [("ChainLink::new/to_bytes",B+"chain.rs"),("ChainIterator::next",B+"chain.rs"),("ChainWriter::new",B+"chain.rs")],
 ["occupied_sectors, readers, directory listing"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
