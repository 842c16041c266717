"""What is run for each property, within which bounds."""
import os

ASSUMPTIONS = [
    'x86-64 little-endian, 64-bit usize, rustc stable of this sandbox; LLVM IR of the library, its '
    'dependencies diff and memmap and the standard library as compiled at opt-level 3 (release: wrapping '
    'arithmetic; checked: overflow checks and debug assertions)',
    'trusted: the IR executor in /verif/sx (validated on every run by replaying path models natively), z3, '
    'the model of malloc, libc and the kernel file system calls, allocation never fails',
]

R = 'release'
K = 'checked'


def e(entry, params=((),), secs=400, variants=(R, K), tier='quick', **kw):
    """Jobs for all parameter tuples."""
    out = []
    for p in params:
        p = p if isinstance(p, tuple) else (p,)
        for v in variants:
            out.append(dict(kw, entry=':'.join([entry] + [str(x) for x in p]), variant=v,
                            secs=secs, tier=tier))
    return out


BIT_FUNCS = ['flatdata::read_bytes!', 'flatdata::write_bytes!', 'flatdata::masked!',
             'flatdata::num_bytes!', 'flatdata::extend_sign!', 'flatdata::helper::Int']
BIT_BOUNDS = ['every type bool, u8..u64, i8..i64; every width 1..type width (bool: 1..64, arbitrary content 1..8); every bit offset in bytes 0-2, 7, 31, 32, 255, 256, 1023, 8191, 65536; '
              'every value of the type; every content of the bytes of the field']
BIT_OUT = ['bit offsets in other bytes than those listed']
BYTES = (0, 1, 2, 7, 31, 32, 255, 256, 1023, 8191, 65536)
TYPES = [(t, o) for t in range(9) for o in BYTES]

SUITE = {
    'C01': dict(jobs=e('c01_roundtrip', TYPES), functions=BIT_FUNCS, bounds=BIT_BOUNDS, outside=BIT_OUT),
    'C02': dict(jobs=e('c02_write', TYPES) + e('c02_read', TYPES), functions=BIT_FUNCS,
                bounds=BIT_BOUNDS, outside=BIT_OUT),
    'C03': dict(jobs=e('c03_write', TYPES) + e('c03_read', TYPES) + e('c03_short', range(1, 9)), functions=BIT_FUNCS,
                bounds=BIT_BOUNDS, outside=BIT_OUT),
    'C04': dict(jobs=e('c04_setters', [(t, 2) for t in range(10)]) + e('c04_copies', range(10)) +
                e('c04_compares', range(10)) + e('c04_standalone', [(t, d) for t in range(10) for d in (0, 1)]) +
                e('c04_enums') + e('c04_setters', [(t, 3) for t in range(10)], tier='thorough'),
                functions=BIT_FUNCS + ['flatdata::define_struct! (getters, setters, fill_from, PartialEq, into_ref)',
                                       'flatdata::StructBuf'],
                bounds=['10 record layouts (1-7 fields, 1-22 bytes, unaligned, signed, nine-byte spans, gaps, '
                        'out of order) and one with enums; arbitrary record bytes; every sequence of 2 setter '
                        'calls with arbitrary values'],
                thorough='sequences of 3 setter calls',
                outside=['other layouts', 'Debug output', 'enum fields holding a value that is no variant']),
    'C05': dict(jobs=e('c05_history', [(t, 3) for t in range(4)]) + e('c05_index', range(4)) +
                e('c05_many', (20,)) + e('c05_huge', range(4)) + e('c05_wide', range(3)) + e('c05_count', range(3)) + e('c05_big', [(0, 300), (1, 300)]) + e('c05_whole', [(0, 66000), (2, 600), (1, 5000)]) + e('c05_history', [(t, 5) for t in range(4)], tier='thorough', secs=600) +
                e('c05_many', (200,), tier='thorough'),
                functions=['flatdata::Vector'],
                bounds=['record sizes 1, 3, 8, 12, 22; every sequence of 3 operations (grow, write, reserve, clone) '
                        'from new/default/with_len(0..2); arbitrary values; every 64-bit index on lengths 0..3; 20 grows; every number of records that is too large to exist; 5 GiB of records of three sizes; 300 records of 1 and 3 bytes, changed at 13 places, every 64-bit index; 66000, 5000 and 600 records of 1, 3, 8 bytes and every sequence of 2 operations out of 4 on them; every number of records of 1, 3, 8 bytes from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='sequences of 5 operations; 200 grows',
                outside=['longer histories', 'allocation failure']),
}

SUITE.update({
    'C06': dict(jobs=e('c06_huge', range(4)) + e('c06_count', range(3)) + e('c06_at', range(5)) + e('c06_big', [(0, 300), (1, 300), (2, 300), (0, 66000), (2, 66000)]) + e('c06_slice', [(t, b, 2) for t in range(4) for b in range(9)]) +
                e('c06_slice', [(t, b, 5) for t in range(5) for b in range(9)], tier='thorough', secs=600),
                functions=['flatdata::ArrayView (new, len, at, slice, as_bytes)'],
                bounds=['record sizes 1, 3, 8, 9, 22; buffers of every length below four records (at), 0-2 records '
                        'with and without trailing bytes (slice); every 64-bit index; all nine combinations of bound '
                        'kinds with every pair of 64-bit bounds; one further slice of the slice; 300 records of 1, 3, 8 bytes and 66000 of 1, 8 bytes with indices and all kinds of bounds out of '
                        '18 (around powers of two, both ends, the largest); 5 GiB of records of 1, 3, 22 and 65536 bytes, places and ranges around 2, 4 and 5 GiB; every number of records of 1, 3, 8 bytes, with up to 64 places where they are cut in two from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='slices of 0-5 records',
                outside=['longer buffers']),
    'C07': dict(jobs=e('c07_iterate', [(0, 3, 2), (1, 3, 2), (4, 2, 2)]) + e('c07_slices') + e('c07_count', range(3)) + e('c07_big', [(0, 300), (1, 300), (2, 300)]) + e('c07_whole', (300,)) +
                e('c07_iterate', [(0, 4, 3), (1, 4, 3), (2, 3, 3), (4, 3, 3)], tier='thorough', secs=800),
                functions=['flatdata::ArrayViewIter'],
                bounds=['0-3 records of 1, 3, 22 bytes with and without trailing bytes; every sequence of 2 operations '
                        'out of next, next_back, nth, nth_back (any 64-bit argument), clone; then each of ten ways to '
                        'consume the rest; 300 records, every sequence of 3 operations with arguments out of 18, and eight ways to iterate over all of them; every number of records of 1, 3, 8 bytes, with up to 64 lengths to skip from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='0-4 records, 3 operations',
                outside=['longer arrays and histories']),
    'C10': dict(jobs=e('c10_huge', (0, 1)) + e('c10_count', range(3)) + e('c10_at', [(i, n, d) for i in range(3) for n in (0, 1, 2, 3) for d in (6,)]) +
                e('c10_at', [(0, 3, 12)]) +
                e('c10_slice', [(b, 3) for b in range(9)]) + e('c10_iterate', [(2, 2)]) + e('c10_records', (3,)) + e('c10_big', (300, 66000)) +
                e('c10_at', [(i, 4, 14) for i in range(3)], tier='thorough', secs=800) +
                e('c10_slice', [(b, 4) for b in range(9)], tier='thorough', secs=800) +
                e('c10_iterate', [(3, 3)], tier='thorough', secs=800) +
                e('c10_records', (4,), tier='thorough', secs=800),
                functions=['flatdata::MultiArrayView', 'flatdata::MultiArrayViewIter', 'flatdata::MultiArrayViewItemIter',
                           'flatdata::define_index!', 'flatdata::define_variadic_struct!'],
                bounds=['index entries of 8, 40 and 64 bits; 0-3 arbitrary entries over 6 or 12 arbitrary payload bytes; every '
                        '64-bit item index; all nine combinations of bound kinds with every pair of 64-bit bounds on 0-3 '
                        'items; iteration of 0-2 items by 2 operations and ten ways to consume the rest; items of 0-3 records '
                        'of 4 types; 300 and 66000 items with every 64-bit index and all kinds of bounds out of 18; 5 GiB of payload with an item that starts at any of 8 bytes around 4 GiB, index entries of 40 and 64 bits; every number of items of 0-2 records and of records in one item, index entries of 16, 32, 40 bits from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='4 index entries over 14 payload bytes; slices of 4 items; 3 operations on 3 items',
                outside=['longer indices and payloads']),
})

STORE = ['flatdata::ResourceStorage (read, read_and_check_schema, write)', 'flatdata::storage::ResourceHandle',
         'flatdata::storage::write_to_stream', 'flatdata::MemoryResourceStorage', 'flatdata::FileResourceStorage',
         'memmap::Mmap', 'diff::lines']
SCENARIOS = ('a resource of 0, 1, 9, 65536 or 70000 bytes written at once; a streamed vector of 0-2 three-byte records; one of three '
             '17 MB records (pushed to storage in between); multivectors of 3 items (one empty) with 16-bit index, with '
             'two 40 MiB records, and with 17 MiB index entries; a whole archive of 8 parts')

SUITE.update({
    'C08': dict(jobs=e('c08_huge', weight=9) + e('c08_count', [(t, k) for t in range(3) for k in (0, 1)]) + e('c08_small', [(t, k, 3) for t in range(4) for k in (0, 1)]) +
                e('c08_large', [(0, 0, 520), (1, 1, 70), (2, 0, 3), (3, 1, 3), (4, 0, 3)], weight=9) +
                e('c08_two', (0, 1)) + e('c08_many', [(0, 66000), (1, 66000)]) + e('c08_once', [(0, 33554440), (1, 40000000)]) +
                e('c08_many', [(0, 33560000)], variants=(R,), weight=9, tier='thorough', secs=860) +
                e('c08_small', [(t, k, 5) for t in range(4) for k in (0, 1)], tier='thorough', secs=800) +
                e('c08_large', [(0, 1, 1030), (1, 0, 100), (2, 1, 6), (3, 0, 6), (4, 1, 6)], variants=(R,), weight=9,
                  tier='thorough', secs=800) +
                e('c08_large', [(2, 0, 4), (3, 0, 4), (4, 0, 4)], weight=9, tier='thorough', secs=800),
                functions=['flatdata::ExternalVector', 'flatdata::create_external_vector'] + STORE,
                bounds=['memory and file storage; 0-3 records of 1, 3, 8, 22 bytes, each with arbitrary values or left as it '
                        'is; 520 records of 64 KiB, 70 of 1 MiB, 3 of 32, 33 and 40 MiB with arbitrary values in their first '
                        'and last fields (every place of a push to storage relative to the buffer limit that these sizes '
                        'give); two vectors open at the same time, every interleaving of 3 appends and every order of closing; '
                        'read back from the returned array, the same storage and one opened later; 66000 records of one byte; 34 and 40 MB written at once; 104 records of 40 MiB to a storage that keeps the header, the size and a field of one of four records; every number of records of 1, 3, 8 bytes from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='33560000 records of one byte; 0-5 small records; 1030 records of 64 KiB, 100 of 1 MiB, 6 of 32, 33, 40 MiB',
                outside=['more records', 'values in the middle of records larger than 64 bytes']),
    'C09': dict(jobs=e('c09_huge', (0, 1), weight=9) + e('c09_count', [(t, k) for t in range(3) for k in (0, 1)]) + e('c09_limit', [(i, k) for i in (0, 1) for k in (0, 1)]) + e('c09_limit', [(2, 0), (2, 1)]) + e('c09_small', [(t, k, 2, 2) for t in range(6) for k in (0, 1)]) +
                e('c09_small', [(6, 0, 2, 1), (6, 1, 2, 1)], replays=10) + e('c09_zero', (0, 1)) +
                e('c09_large', [(0, 1, 70), (1, 0, 4), (2, 1, 70), (3, 0, 5), (4, 0, 520)], weight=9) +
                e('c09_mixed', [(0, 3)]) + e('c09_many', [(0, 66000)]) + e('c09_item', [(0, 70000), (1, 300)]) +
                e('c09_small', [(t, k, 3, 2) for t in range(6) for k in (0, 1)], tier='thorough', secs=800) +
                e('c09_large', [(0, 0, 110), (1, 1, 7), (2, 0, 110), (3, 1, 8)], variants=(R,), weight=9,
                  tier='thorough', secs=800) +
                e('c09_mixed', [(1, 4)], variants=(R,), tier='thorough', secs=800, replays=60),
                functions=['flatdata::MultiVector', 'flatdata::create_multi_vector', 'flatdata::MultiArrayView',
                           'flatdata::define_variadic_struct! (builder, iterator)', 'flatdata::define_index!'] + STORE,
                bounds=['memory and file storage; index entries of 8, 16, 24, 32, 40, 64 bits and of 1 and 17 MiB; 0-2 items of '
                        '0-2 records out of 4 types with arbitrary values; 70 items of 1 MiB records, 4 items of several 40 MiB '
                        'records and empty ones, 70 items with 1 MiB index entries, 5 with both, 520 items of 0-3 64 KiB '
                        'records; every choice of small, empty and 40 MiB items for 3 items; 66000 items; an item of 70000 records; 104 items (102 with 32-bit index entries) of 40 MiB to a storage that keeps the headers, the sizes, the index and a field of one of four items; items that end at the largest offset an index of 8, 16, 24 bits can hold and one and two bytes before; every number of items of 0-2 records and of records in one item, index entries of 16, 32, 40 bits from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                thorough='0-3 items; 110 items; 7-8 items of 40 MiB records; every choice for 4 items',
                outside=['more items', 'offsets that do not fit the index width']),
    'C11': dict(jobs=e('c11_huge') + e('c11_count') + e('c11_open', [(t, 0, 19) for t in range(5)] + [(1, 1, 66000)] + [(t, 2, 5) for t in range(7)]) + e('c11_long', (30, 300)) + e('c11_far') + e('c11_again', [(0, 3), (1, 3)]) +
                e('c11_stored', [(k, t, m) for k in (0, 1) for t in (0, 2, 5) for m in (0, 1)]) +
                e('c11_open', [(t, 0, 40) for t in range(5)] + [(t, 2, 7) for t in range(5)],
                  tier='thorough', secs=800) +
                e('c11_stored', [(k, t, m) for k in (0, 1) for t in (1, 3, 4) for m in (0, 1)], tier='thorough', secs=800),
                functions=STORE + ['core::str::from_utf8', 'flatdata::ResourceStorageError'],
                bounds=['every content of 0-19 and of 66000 stored bytes (every 64-bit size header) or a failing read, with '
                        'schemas right, wrong, too long, invalid or missing for 5 requested schemas; every stored schema of '
                        '0-5 bytes with well- and ill-formed data for 7 requested schemas; schemas of 100 bytes to 1 MiB of which one of 28 bytes has any value; schemas of 30 and 300 bytes with any '
                        'one byte changed, cut at 11 places, or continued; two resources opened up to three times with right and wrong schemas in any order; the same in memory and file storages for 0-18 bytes; 5 GiB of data with every 64-bit size header; data and schemas of every length 0 to 520, 1023-1025, 2047-2049, 4095-4097, with every size header, one byte more or less, any last byte'],
                thorough='0-40 stored bytes, schemas of 0-7 bytes',
                outside=['longer schemas and data']),
    'C12': dict(jobs=e('c12_huge') + e('c12_count', (0, 1)) + e('c12_plain', (0, 1)) + e('c12_sizes', [(0, 4), (1, 4)]) + e('c12_schemas', (0, 1)) + e('c12_vector', [(t, k) for t in range(4) for k in (0, 1)]) +
                e('c12_multi', [(t, k) for t in range(4) for k in (0, 1)]) + e('c12_offsets', (0, 1)) +
                e('c12_archive', (0, 1)),
                functions=STORE + ['flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::create_archive',
                                   'flatdata::define_archive!'],
                bounds=['memory and file storage; 0-6, 255-257 and 65535-65537 bytes, 512 B to 2 MiB around every power of two, and 3, 9.5, 32 MiB written at once, and 4 and 5 GiB to a storage that keeps the header, the size and the end; streamed vectors of 0-3 '
                        'records of 1, 3, 22 bytes and 17 MB; multivectors of 0-2 items of 0-2 records with index entries of 8, '
                        '32, 40, 64 bits; offsets of 3 items of every mixture of empty, small and 40 MiB; all parts of an '
                        'archive with two subarchives and their schemas; four schema texts, and schemas of 14 lengths up to 1 MiB for each kind of resource; resources with schemas of every length 0 to 520, 1023-1025, 2047-2049, 4095-4097, written in one go, in pieces or as a vector'],
                outside=['larger contents', 'other schema texts']),
    'C20': dict(jobs=e('c20_diff', [(4, 4, 0, 0), (2, 5, 0, 0), (5, 2, 0, 0), (3, 3, 1, 0), (2, 2, 0, 1), (2, 2, 0, 2)]) +
                e('c20_lines', [(6, 2, 0, 0), (40, 1, 0, 0)]) + e('c20_far', [(110, 0, 0, 0)], weight=5) + e('c20_wide', [(0, 0, 0, 0)]) + e('c20_count') + e('c20_lines', [(14, 2, 0, 0)], variants=(R,)) +
                e('c20_diff', [(5, 5, 0, 0)], variants=(R,)) +
                e('c20_lines', [(14, 2, 0, 0)], variants=(K,), tier='thorough') +
                e('c20_lines', [(5, 3, 0, 0), (200, 1, 0, 0)], tier='thorough', secs=860) +
                e('c20_diff', [(5, 5, 0, 0)], variants=(K,), tier='thorough', secs=860) +
                e('c20_diff', [(1, 8, 0, 0), (8, 1, 0, 0), (4, 4, 1, 0), (3, 3, 0, 1), (3, 3, 0, 2)],
                  tier='thorough', secs=860),
                functions=['flatdata::ResourceStorage::read', 'flatdata::storage::compute_diff', 'diff::lines'],
                bounds=['every pair of different schemas of up to 5 characters out of a, b and newline, or 3 out of '
                        'a, e-acute and newline; up to 2 characters with memory and file storages; schemas of 6, 14 and 40 lines with up to two (one for 40) lines changed, removed or added; schemas of 110 lines changed in one of 15 places or from there on; lines of 70 to 65537 characters of which one differs; schemas of 1-80 lines with one change in the first, middle or last line or cut off there'],
                thorough='pairs of up to 1 and 8 characters; three changes in 5 lines, one in 200',
                outside=['longer schemas, other characters; carriage returns, which the diff crate drops at line ends']),
    'C13': dict(jobs=e('c13_files', list(range(7)) + [8]) +
                e('c13_streams', [(t, 1, 9) for t in (0, 1, 3)] + [(t, 2, 9) for t in (0, 1)] +
                  [(3, 2, 4), (2, 1, 1), (4, 1, 1), (5, 1, 1)]) +
                e('c13_open', (0, 1, 2, 3, 4, 6)) + e('c13_stats', (0, 1, 3, 6)) + e('c13_replace', [0, 1, 2, 3, 8]) + e('c13_replace', (4, 5), replays=50) + e('c13_archive') +
                e('c13_files', [(t, 1) for t in (2, 4, 5)], variants=(R,), tier='thorough', secs=860) +
                e('c13_streams', [(3, 2, 9), (2, 1, 9), (4, 1, 9), (5, 1, 9), (0, 3, 4), (1, 3, 4)], variants=(R,),
                  tier='thorough', secs=860),
                functions=STORE + ['flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::define_archive! (builder)',
                                   'std::io::Write::write_all', 'std::fs::File'],
                bounds=[SCENARIOS + '; one failing file system operation (mkdir, open, write, lseek, read, mmap) at every '
                        'position: EIO, ENOSPC, EINTR, a short write of 0, 1, 2, 7, 8, 100 bytes, or from there on only writes of at most 0, 1, 7 bytes (fewer kinds for large '
                        'resources); callers that stop and callers that carry on after an error; other storages: one or two '
                        'failing stream operations at every pair of positions out of 9 ways to fail (one for large resources); '
                        'one failing file system operation while an earlier version of the resource, with the same or another schema, is replaced; one failing operation while opening; the same with failures to look a path up'],
                thorough='all kinds of file faults for large resources; 9 ways to fail for large resources; three stream faults',
                outside=['more simultaneous faults', 'faults of munmap and close', 'allocation failure']),
    'C14': dict(jobs=e('c14_files', [(0, 12), (8, 16), (1, 12), (2, 16), (3, 12), (4, 16), (5, 16), (6, 11)]) +
                e('c14_replace', [(0, 12), (1, 12), (2, 12), (3, 12), (7, 12), (8, 12)]) + e('c14_replace', [(4, 12), (5, 12)], replays=50) +
                e('c14_files', [(0, 16), (1, 16), (3, 16), (6, 16)], tier='thorough', secs=800),
                functions=STORE + ['flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::define_archive! (builder)'],
                bounds=[SCENARIOS + '; the process dies at every file system operation, of which, if it is a write, the first '
                        '0-2, 4-9, 16, 24, 40000, 17000000, 33999992, 34000000 or 41943045 bytes (or all, if less) take effect; the same while an earlier version of the '
                        'resource with the same or another schema (of other length, empty, or one character different) and other values, sizes or items is replaced (not for archives)'],
                thorough='all of these lengths for every scenario',
                assumptions=['what was written before the crash takes effect in order (the process dies, not the machine)'],
                outside=['power loss with reordered writes', 'other partial lengths']),
    'C15': dict(jobs=e('c15_history', [(0, 2, 5, 3, f) for f in (0, 1)] + [(0, 3, 2, 2, f) for f in (0, 1)]) +
                e('c15_typed', (0,)) + e('c15_dirs', [(0, 2)]) + e('c15_many', [(0, 320)]) + e('c15_names', (0,)) + e('c15_count', (0,)) + e('c15_times', (0,)) +
                e('c15_history', [(0, 3, 5, 3, f) for f in (0, 1)], tier='thorough', secs=860, variants=(R,)) +
                e('c15_history', [(0, 4, 2, 2, f) for f in (0, 1)], tier='thorough', secs=860, variants=(R,)),
                functions=['flatdata::MemoryResourceStorage', 'flatdata::memstorage::MemoryStorageStream',
                           'flatdata::ResourceStorage'],
                bounds=['every sequence of 2 operations (create and write 0 or 2 arbitrary bytes, append, overwrite, exists, read) '
                        'by 5 storages (root, subdirectory twice, nested subdirectory in two ways) on 3 names, and of 3 operations '
                        'by 2 storages on 2 names, then everything is compared; typed resources written once or twice through '
                        'any of 5 paths; 320 resources in three directories; two resources written through any of the chains of up to two subdirectories of 5 names, all chains compared; every ordered pair of 25 names of different sorts (case, dots, spaces, other scripts, long, nested, prefixes of each other); names of 1-240 characters and paths of up to 60 parts; a resource replaced up to 130 times'],
                thorough='3 operations by 5 storages on 3 names; 4 operations by 2 storages on 2 names',
                outside=['longer histories', 're-creating a resource that was already read']),
    'C16': dict(jobs=e('c15_history', [(1, 2, 5, 3, f) for f in (0, 1)] + [(1, 3, 2, 2, f) for f in (0, 1)]) +
                e('c15_typed', (1,)) + e('c15_dirs', [(1, 2)]) + e('c15_many', [(1, 320)]) + e('c15_names', (1,)) + e('c15_count', (1,)) + e('c15_times', (1,)) + e('c16_dirs') + e('c16_root') + e('c16_replace') +
                e('c15_history', [(1, 3, 5, 3, f) for f in (0, 1)], tier='thorough', secs=860, variants=(R,)) +
                e('c15_history', [(1, 4, 2, 2, f) for f in (0, 1)], tier='thorough', secs=860, variants=(R,)),
                functions=['flatdata::FileResourceStorage', 'flatdata::filestorage::MemoryMappedFileStorage', 'memmap::Mmap',
                           'std::fs', 'std::path'],
                bounds=['as C15, on files, with the directory tree compared afterwards; 4 initial directory trees, storages 1-3 '
                        'levels deep and subdirectories of 0-2 levels; 14 pairs of directories given in different ways (names in other scripts, with spaces, dots, doubled and trailing slashes, not UTF-8) that are the same or different; the names of C15, names of 1-240 characters and paths of up to 60 parts; a resource replaced up to 130 times; replacing 0, 1, 4, 5000 bytes by any of these up to '
                        'three times'],
                thorough='3 operations by 5 storages on 3 names; 4 operations by 2 storages on 2 names',
                outside=['symbolic links, permissions', 'longer histories', 're-creating a resource that was already read']),
    'C21': dict(jobs=e('c21_slices', [(k, 3, 30) for k in (0, 1)]) + e('c21_many', [(k, 340) for k in (0, 1)]) + e('c21_times', [(0, 300), (1, 300)]) + e('c21_descriptor') + e('c21_release', (0, 1)) +
                e('c21_rewrite', [(5, 0), (5, 1)]) + e('c21_rewrite', [(6, 0), (6, 1)], tier='thorough', secs=860, variants=(R,)) +
                e('c21_slices', [(k, 4, 30) for k in (0, 1)], tier='thorough', secs=860, variants=(R,)),
                functions=STORE + ['flatdata::MemoryDescriptor'],
                bounds=['memory and file storage; every sequence of 3 operations out of 8 (writing, opening, failing to open, '
                        'subdirectories, streamed vectors, cloning the handle, 30 further resources, raw streams) with 3 names '
                        'after three resources were opened; every access is checked to lie in live memory; memory, file '
                        'descriptors and mappings are counted; 340 resources open at the same time; two resources opened 300 times each, and a third one replaced as often; descriptors of 0-3 bytes; '
                        'every sequence of 5 operations out of 5 on the same resource, replaced by a new one (writing, opening, opening raw, '
                        'continuing a stream, ending it) on the one resource whose bytes are held'],
                thorough='sequences of 4 operations (5 on the one resource)',
                outside=['longer histories', 'files changed by others']),
    'C17': dict(jobs=e('c17_damage', [(k, n) for k in (0, 1) for n in range(6)]) + e('c17_pairs', [(0, 1), (1, 1)]) +
                e('c17_subsets', (0, 1), weight=5) + e('c17_create', (0, 1)) + e('c17_nested', (0, 1)) + e('c17_again', (0, 1)) +
                e('c17_pairs', [(0, 0), (1, 0), (0, 2), (1, 2)], tier='thorough', secs=800),
                functions=['flatdata::define_archive! (open, accessors, builder)', 'flatdata::create_archive'] + STORE,
                bounds=['an archive with all kinds of parts (4 of them optional) and two subarchives, one optional: 17 resources with '
                        'schemas; memory and file storage; one resource damaged in any of 10 ways (missing, missing schema, any '
                        'size header, cut at any length, longer, any one byte of the schema, other schemas, any size, other '
                        'content, any padding), every pair of resources damaged in any of 3 ways; every subset of the optional '
                        'resources with at most one required one missing; creating over nothing, a file, an archive, a subarchive; an archive with two vectors, two multivectors and subarchives of subarchives (15 resources), of which one is damaged in any of 7 ways'],
                thorough='pairs with empty and larger contents',
                outside=['other archive layouts', 'more damaged resources']),
    'C18': dict(jobs=e('c18_orders', (0, 1)) + e('c18_count', (0, 1)) + e('c18_together', (0, 1)) + e('c18_lifetime', (0, 1)) + e('c18_nested', (0, 1)) + e('c18_large', [(0, 300), (1, 300), (1, 5300)]),
                functions=['flatdata::define_archive! (builder, open, accessors)', 'flatdata::ArchiveBuilder'] + STORE,
                bounds=['the archive of C17 with arbitrary values, contents of 3 sizes; parts written in any rotation forwards or '
                        'backwards, streamed or at once, with three sets of absent optional parts; all streamed parts open at the '
                        'same time with every interleaving of 3 appends; the archive, a clone, or a subarchive as the last handle; an archive of two vectors, two multivectors and nested subarchives with every subset of its optional parts, at the top of a storage or in a subdirectory; an archive with every number from 0 to 130, 300 and 5300 of everything'],
                outside=['other archive layouts', 'other orders and interleavings']),
    'C19': dict(jobs=e('c19_drop', [(t, k) for t in range(5) for k in (0, 1)] + [(2, 0, 1)]) + e('c19_closed', (0, 1)) + e('c19_count'),
                functions=['flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::storage::ResourceHandle (Drop)',
                           'std::panicking'],
                bounds=['streamed vectors and multivectors (small, and pushed to storage in between) and resource writers after 0-3 '
                        'appends, in memory and on files: closed, dropped, dropped while panicking, closed while panicking; every '
                        'sequence of 2 operations on a closed writer; vectors and multivectors dropped or closed after every number of appends from 0 to 520, and 1023-1025, 2047-2049, 4095-4097'],
                outside=['more appends', 'panics on other threads']),
    'C23': dict(jobs=e('c23_read') + e('c23_write') + e('c23_large') + e('c23_archive') + e('c23_text'),
                functions=['flatdata::ResourceStorageError', 'flatdata::ResourceStorage::read', 'flatdata::ResourceHandle',
                           'flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::create_archive',
                           'flatdata::define_archive! (open)'],
                bounds=['one failing operation (create, write, seek, read) of any of the resources a vector, multivector, '
                        'raw resource or archive consists of, at each of its first four occurrences, with 6 kinds of error; '
                        'three names; the same for vectors and multivectors of 80 MiB; an archive at the root and in a subdirectory; every wrong size in the header; '
                        'texts of all six kinds of errors'],
                outside=['several failures at once (C13)', 'interrupted operations, which are repeated']),
    'C24': dict(jobs=e('c24_vector', [(0, 4200, 0), (1, 1000, 0), (1, 140, 1), (2, 12, 1), (3, 10, 1)]) + e('c24_multi', [(0, 260), (1, 160)]) +
                e('c24_vector', [(4, 8000000, 0), (1, 300, 1)], tier='thorough', secs=800) +
                e('c24_multi', [(0, 600), (1, 400)], variants=(R,), tier='thorough', secs=860),
                functions=['flatdata::ExternalVector', 'flatdata::MultiVector', 'flatdata::ResourceHandle', 'alloc::vec::Vec'],
                bounds=['4200 records of 64 KiB, 1000 of 1 MiB, any number up to 140 of 1 MiB, 12 of 33 MiB, 10 of 40 MiB, every 16th with any value; 260 items of which three in turn have any of four sizes '
                        '(0, 4 bytes, 1 MiB, 40 MiB); 160 such items with index entries of 1 MiB'],
                thorough='any number up to 300 records of 1 MiB, 8000000 of 22 bytes; 600 and 400 items',
                outside=['other sizes of records', 'memory that is allocated but not used for appended data']),
    'C22': dict(jobs=e('c22_record', range(9)) + e('c22_arrays', (12,)) + e('c22_multi', (12,)) + e('c22_writers', (0, 1)) + e('c22_large', (0, 1), weight=5, replays=10) + e('c22_count') +
                e('c22_archive', (0, 1)) + e('c22_long', (11, 16, 32, 64, 100, 128, 130, 256, 1000)) + e('c22_long', (70000,), variants=(R,)),
                functions=['flatdata::arrayview::debug_format', 'flatdata::multiarrayview::debug_format',
                           'std::fmt::Debug of all public types', 'flatdata::ResourceStorageError (Display)', 'core::fmt'],
                bounds=['records of 8 layouts with one field of any value in eight ranges of four (borders of 1-3 digits, of signs and '
                        'of widths), and one with enums; vectors, array views and iterators of 0-12 records, with leftover bytes; multivectors of 0-12 items of 0-2 or 12 records; '
                        'arrays of 11, 16, 32, 64, 100, 128, 130, 256, 1000 and 70000 records and as many items (vectors and arrays: every length 0 to 520, 1023-1025, 2047-2049, 4095-4097), one of 40 records; writers after 0-12 appends, and of up to 4 records of 17 MB; an archive with and without optional parts'],
                outside=['containers of other lengths', 'the exact wording around names, lengths and values']),
})


def jobs(prop, tier):
    return [j for j in SUITE[prop]['jobs'] if tier == 'thorough' or j['tier'] == 'quick']


def known(verif, prop):
    """Findings that are recorded rather than repaired."""
    out = []
    f = os.path.join(verif, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            # finding: property=ID entry=ENTRY match=TEXT | WHAT
            if l.startswith('finding: property=%s ' % prop):
                head, what = l.rstrip('\n').split(' | ', 1)
                entry = head.split(' entry=')[1].split(' match=')[0]
                out.append(dict(entry=entry, match=head.split(' match=')[1], what=what))
    return out
