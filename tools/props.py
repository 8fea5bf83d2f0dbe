HOOKS=None
NOT_APPLICABLE=[]
NOTES="Every check is ./check.sh <ID> <tier>; it builds /verif/harness (and, where needed, the CLI and the C API) from /repo's working tree. See DESIGN.md."
prop('P01','What is added to an archive is what is read back',
 'For every set of distinctly named files and every supported builder configuration (format version, sector size, lossless compression method, encryption mode, sector checksums, locale, listfile option, table compression, in-memory or on-disk source), building the archive succeeds and reading every file by its name returns exactly the bytes that were added. This holds for every size, including empty files and sizes around sector boundaries, for contents that do not compress, and beyond 4 GB; what the format cannot hold is refused and never written wrongly.',
 ['inputs','configurations'],'all builder configurations x file sizes and contents',
 'Unit tests build a handful of archives at one or two sizes; the failures live at the product of sector boundary x codec x encryption x checksum x compressibility, which they do not enumerate.',
 ['mopaq/src/builder.rs','mopaq/src/archive.rs','mopaq/src/compression/','mopaq/src/tables/'],
 [('single unit / sectored layout','builder.rs write_file'),('sector reader','archive.rs read_file, read_sectored_file'),('tables','tables/hash.rs, block.rs, het.rs, bet.rs')],
 'bounded exhaustive enumeration of builder configurations x boundary sizes x content classes on the real builder and reader',
 'exploration','Exhaustive over the stated product; contents outside the pattern alphabet and sizes above 40 MB are not covered.',
 observe=['ArchiveBuilder::build','Archive::read_file'])
prop('P02','A name finds exactly its own file',
 'For every set of names and every hash table layout a writer may leave behind (collisions, full tables, wrap-around, deleted entries, several locales), looking up a stored name in any letter case and with either path separator finds exactly that file, and looking up a name that is not stored finds nothing; building an archive with the same name and locale twice is refused.',
 ['histories','inputs'],'all insert/delete histories of small hash tables with all home positions, each reached layout replayed on the reader; complete small name universes through the builder',
 'Collision, tombstone and wrap-around layouts depend on the whole history of a table; tests build a few tables with a handful of non-colliding names.',
 ['mopaq/src/tables/hash.rs','mopaq/src/tables/het.rs','mopaq/src/archive.rs','mopaq/src/builder.rs','mopaq/src/crypto/hash.rs'],
 [('probing','tables/hash.rs find_file'),('insertion','builder.rs add_to_hash_table'),('HET lookup','tables/het.rs, archive.rs find_file')],
 'explicit-state search over hash-table layouts with every reached state replayed on the real reader, plus exhaustive name universes','model_checking',
 'Tables of 2 to 8 slots searched to closure; names are found whose hashes realise each home position, so every model state is a real archive.',
 state=[dict(name='hash table',meaning='open-addressed table with empty, deleted and occupied slots')],observe=['Archive::find_file','Archive::read_file'])
prop('P03','Listings and archive information are truthful',
 'For every archive, each listing call returns exactly the stored files (those named by the list file, or every stored file where no list is needed), with sizes, compressed sizes, flags, locales and hashes equal to what the archive stores, and the archive information (version, sizes, sector size, table sizes and positions, file counts, list file and attribute presence) describes the archive it came from.',
 ['inputs','configurations'],'all builder configurations x file sets; all small external list files',
 'Tests look at the names of one or two listings; sizes, flags and counts are never compared with the stored bytes across configurations.',
 ['mopaq/src/archive.rs','mopaq/src/special_files/listfile.rs','mopaq/src/tables/'],
 [('listing','archive.rs list, list_all, list_with_hashes'),('list file parser','special_files/listfile.rs'),('information','archive.rs get_info')],
 'bounded exhaustive enumeration of archives, every query compared with an independent reader of the same bytes','exploration',
 'Names the list file syntax cannot express are outside the property.',observe=['Archive::list','Archive::list_all','Archive::list_with_hashes','Archive::get_info','Archive::find_file'])
prop('P04','Lossless codecs return exactly what they were given',
 'For every byte string and every lossless compression method, the compressed form is either the input itself or strictly shorter than it and tagged with the method, and decompressing it yields exactly the input; data produced by an independent encoder of the same format also decompresses to the original or is refused with an error, never to different data.',
 ['inputs'],'all byte strings up to small lengths over small alphabets, all run lengths and boundary sizes, for every method',
 'Tests use a few fixed strings per codec; run-length limits, length-code boundaries and incompressible tails are only reached by enumeration.',
 ['mopaq/src/compression/'],[('method dispatch','compression/compress.rs, decompress.rs'),('codecs','compression/algorithms/*.rs')],
 'bounded exhaustive enumeration of inputs against independent reference codecs','exploration',
 'Exhaustive over the stated alphabets and lengths; reference codecs in harness/src/refmpq.rs (flate2, bzip2 and lzma-rs are trusted for the raw streams).',observe=['compress','decompress'])
prop('P05','ADPCM audio keeps its length, shape and channel order',
 'For every 16-bit mono or stereo sample stream, ADPCM compression (alone or followed by another stage) produces data that decompresses to the same number of bytes with each channel tracking its own input within the error the step size allows, and the decoder agrees with an independent implementation of the published decoder on every code sequence.',
 ['inputs'],'all short sample sequences over an extreme-value alphabet, all code sequences up to a bound, every length modulo the frame size',
 'Tests check one or two sine waves with a generous tolerance; step-index limits, clamping, odd lengths and channel interleave need enumeration.',
 ['mopaq/src/compression/algorithms/adpcm.rs','mopaq/src/compression/decompress.rs'],[('ADPCM coder','compression/algorithms/adpcm.rs'),('multi-stage dispatch','compression/compress.rs, decompress.rs')],
 'bounded exhaustive enumeration of sample and code sequences against an independent decoder model','exploration',
 'Exhaustive over the stated sample alphabets, lengths and code sequences; the error bound is derived from the step sizes of the independent decoder.',observe=['compress','decompress','Archive::read_file'])
prop('P06','Cipher and name hashes are the published ones and invert',
 'For every key and every block, decryption inverts encryption and both equal the published MPQ cipher; every name hash equals the published algorithm and does not depend on letter case or on which path separator is used.',
 ['inputs'],'all low-byte keys and boundary keys x block lengths; all names up to a length over an alphabet of critical characters',
 'Tests check some vectors; a wrong table cell, character class or carry affects only inputs that hit it.',
 ['mopaq/src/crypto/'],[('cipher','crypto/encryption.rs, decryption.rs, keys.rs'),('hashes','crypto/hash.rs')],
 'bounded exhaustive enumeration against an independent implementation','exploration',
 'Every cell of the key table and every byte value of the case tables is exercised; longer names and blocks follow from the word-at-a-time structure.',observe=['crypto::encrypt_block','crypto::decrypt_block','crypto::hash_string','crypto::jenkins_hash'])
prop('P07','What the builder writes conforms to the MPQ format',
 'Every archive the builder writes is a well-formed MPQ of the requested version: header fields, table positions and sizes, file flags, encryption keys, sector offset tables, sector checksums and (version 4) MD5 digests are those the format prescribes, regions do not overlap or leave the file, and an independent reader extracts every file exactly.',
 ['configurations','inputs'],'all builder configurations x file-set shapes x boundary sizes',
 'The tests read archives back with the same library, so an error made symmetrically by writer and reader, or in a field the reader ignores, is invisible to them.',
 ['mopaq/src/builder.rs','mopaq/src/header.rs','mopaq/src/tables/','mopaq/src/crypto/'],
 [('writer','builder.rs write_archive, write_file, write_header'),('HET/BET writer','builder.rs create_het_table, create_bet_table')],
 'bounded exhaustive enumeration of builder configurations against an independent reader','exploration',
 'The reader in harness/src/refmpq.rs is written from docs/mopaq-format.md; HET hash contents are not judged.',observe=['ArchiveBuilder::build'])
prop('P08','Archives by another conforming writer read back exactly',
 'For every well-formed archive, whoever wrote it and however it lays out its tables, blocks and files (any order, gaps, dead blocks, deleted entries, stored, compressed, imploded, encrypted, checksummed, single-unit or sectored, positions beyond 4 GB), every file is found with its true size and flags and reads back exactly.',
 ['inputs','configurations'],'all combinations of storage form x method x encryption x checksum x boundary size x table placement of a reference writer',
 'All test archives come from the library\'s own builder, which never produces most legal layouts.',
 ['mopaq/src/archive.rs','mopaq/src/tables/','mopaq/src/compression/','mopaq/src/header.rs'],
 [('sector reader','archive.rs read_sectored_file'),('table loading','archive.rs load_tables')],
 'bounded exhaustive enumeration of archives made by an independent reference writer','exploration',
 'HET-only archives and imploded units longer than 4096 bytes are outside (see DESIGN.md).',observe=['Archive::find_file','Archive::read_file'])
prop('P09','Files with checksums never read back altered',
 'When a file was stored with sector checksums, any alteration of its stored data or of its checksums makes reading it either fail or return the original bytes; it never returns different bytes.',
 ['fault_sequences','inputs'],'every byte x every bit flip and replacement, every zeroed or inverted range, every swap of sectors, every truncation, over all storage forms',
 'Tests flip at most one byte of one archive; which sector, codec and cipher mode the damage hits decides whether it is noticed.',
 ['mopaq/src/archive.rs','mopaq/src/builder.rs'],[('checksum verification','archive.rs read_file, read_sectored_file')],
 'exhaustive fault enumeration over the stored bytes of every file form','fault_enumeration',
 'Adler-32 collisions are exempt; the sector offset table is not covered by a checksum in this format.',observe=['Archive::read_file'])
prop('P10','Version 4 MD5 status names exactly the damaged region',
 'For every version 4 archive the reported MD5 status is all-valid when nothing was altered, and after any alteration of the header or of one table it is invalid for that region and valid for every other one, or the archive is refused; alterations of file data never change it.',
 ['fault_sequences','configurations'],'every byte of header and tables x bit flips, every byte of file data, over table codecs, file counts and offsets',
 'Tests check that an undamaged archive reports valid; a digest computed over the wrong bytes needs the damage to be placed in each byte to show.',
 ['mopaq/src/archive.rs','mopaq/src/builder.rs','mopaq/src/header.rs'],[('digest verification','archive.rs verify_v4_md5_checksums')],
 'exhaustive fault enumeration over every byte of header and tables','fault_enumeration',
 'Every byte of the header and of each table is altered; multi-region damage is not enumerated.',observe=['Archive::get_info'])
prop('P11','No input makes the library panic, abort, hang or over-allocate',
 'Whatever bytes a file claiming to be an archive, a compressed block, a list file, an attributes file or a signature contains, every call returns a value or an error in bounded time and memory.',
 ['inputs','fault_sequences'],'every truncation, every byte x bit flips, every field x extreme values singly and in pairs, every short decoder input',
 'Tests feed a few malformed headers; each unchecked field needs its own extreme value at its own place.',
 ['mopaq/src/'],[('header discovery','header.rs'),('table loaders','archive.rs, tables/'),('decoders','compression/'),('special files','special_files/')],
 'exhaustive enumeration of malformed inputs with panic, abort, time and allocation monitors','fault_enumeration',
 'Single and pairwise field corruption; genuine decompression bombs are out of scope.',observe=['every public call'])
prop('P12','Building is all-or-nothing',
 'If the builder is interrupted at any point or any file operation it makes fails, the destination afterwards holds either exactly what it held before (or nothing, if it did not exist) or the complete new archive, and a build that reports success has the complete archive in place; no later rebuild is disturbed by what an interrupted one left behind.',
 ['crash_points','fault_sequences'],'every system call of the build as a crash point; every system call failing, shortened or interrupted; disk full from each write on',
 'Tests never interrupt a build or make a write fail.',
 ['mopaq/src/builder.rs'],[('temporary file and rename','builder.rs build')],
 'crash-point and fault enumeration of the real builder under a system-call tracer','fault_enumeration',
 'Process crash model: loss of unflushed page cache is not modelled.',observe=['destination directory','ArchiveBuilder::build'])
prop('P13','File attributes are stored and read back per file',
 'For every combination of attributes and any number of files, the attributes file has the documented layout and decoding it returns exactly the values that were encoded; an archive carrying one, stored in any way, reports for each file the CRC, timestamp, MD5 and patch marker recorded for that file and no others; incomplete or foreign-version attribute data is refused.',
 ['inputs','configurations'],'all 16 attribute subsets x block counts x value schemes x truncations; archives of every version x storage of the attributes file',
 'Tests cover a few flag combinations with two or three files; bit positions, array order and counts that are not multiples of eight need enumeration.',
 ['mopaq/src/special_files/attributes.rs','mopaq/src/archive.rs'],[('codec','special_files/attributes.rs parse, to_bytes'),('lookup','archive.rs load_attributes, get_file_attributes')],
 'bounded exhaustive enumeration against an independently written layout','exploration',
 'Counts to 70 (300 thorough); values from fixed schemes that distinguish every position.',observe=['Attributes::parse','Attributes::to_bytes','Archive::get_file_attributes'])
prop('P14','Signatures tell genuine archives from altered ones',
 'An archive signed with the weak key verifies as valid wherever its signature and the archive lie, and no archive differing from a signed one in any byte outside the signature, or carrying any other signature block, verifies as valid; unsigned archives report no signature, data before and after the archive does not matter, and a strong signature trailer that does not match is reported as invalid, everywhere the status is reported.',
 ['fault_sequences','configurations','inputs'],'all positions of the signature around digest units, every byte of signed archives altered, every byte of the signature block forged, all trailer forms',
 'Tests verify the padding helper and reject malformed signatures; no test contains a genuinely signed archive.',
 ['mopaq/src/crypto/signature.rs','mopaq/src/archive.rs'],[('digest','crypto/signature.rs calculate_mpq_hash_md5'),('verification','archive.rs verify_signature')],
 'exhaustive fault enumeration over archives signed by the harness with the published weak key','fault_enumeration',
 'Genuine strong signatures cannot be made (the private key is not public).',observe=['Archive::verify_signature','Archive::get_info'])
prop('P15','An archive reads the same wherever it lies in its file',
 'Moving an archive behind any amount of leading data (on a 512-byte boundary) or behind a user data header, or adding data (other than a signature trailer) after it, changes nothing that can be observed about it: contents, listings, information, digests and signature status.',
 ['configurations','inputs'],'all archive configurations x prefix lengths and fillers x user data headers x trailing data',
 'Tests open embedded archives without reading every kind of file from them; a position computed without the archive offset shows only for the region it concerns.',
 ['mopaq/src/header.rs','mopaq/src/archive.rs'],[('header discovery','header.rs find_header'),('position arithmetic','archive.rs')],
 'bounded exhaustive enumeration of embeddings, all observations compared with the bare archive','exploration',
 'Prefixes up to a few kilobytes and selected long ones.',observe=['Archive::open','Archive::read_file','Archive::get_info','Archive::verify_signature'])
prop('P16','What a call returns does not depend on earlier calls',
 'On an open archive every reading call returns what it would return as the first call on a freshly opened archive, whatever sequence of reads, lookups, listings, verifications and table loads, successful or failed, came before it on this handle or any other, of this archive or of another one at the same path. None of these calls changes the archive file.',
 ['histories'],'all sequences of up to 4 (5) calls over an alphabet of about 20 calls per archive, on archives of every version, embedded, signed, with attributes and with damaged files; all interleavings on two handles',
 'Tests make each call on its own fresh archive; a cache, file position or table left in a wrong state by one call shows only in a particular later call.',
 ['mopaq/src/archive.rs'],[('lazy loading and caches','archive.rs load_tables, load_attributes'),('shared reader position','archive.rs read_file')],
 'exhaustive enumeration of call sequences on the real archive against the one-state model (every call keeps the state)','model_checking',
 'Sequences up to the stated length; the model has one state per archive, every transition is replayed on the implementation.',
 state=[dict(name='Archive',meaning='reader position, loaded tables, loaded attributes')],observe=['every reading call of Archive'])
prop('P17','Every C API call sequence behaves as documented',
 'For every sequence of C API calls, each call returns what its documentation says for the current state of the handles it is given: data, positions, sizes and names come from the archive or file the handle stands for, each handle has its own position, results fit the buffer, and every failure sets the documented error code without changing any other state. Handles that were never given out, are null, of the wrong kind or already closed are refused, closing an archive closes its files and nothing else, and no call writes outside the buffers it was given, hangs or aborts.',
 ['histories','inputs'],'every reachable state of two archive and two file handles up to a depth of 6 (9) calls, every transition of it, all pairs of calls of an alphabet of several hundred, all 256 verification flags, all seek kinds from every position',
 'The C API tests call functions once with invalid parameters; no test goes through a sequence of calls on live handles.',
 ['storm-ffi/src/lib.rs'],[('handle tables','lib.rs ARCHIVES, FILES, NEXT_HANDLE'),('file pointer','lib.rs SFileReadFile, SFileSetFilePointer'),('verification','lib.rs SFileVerifyFile, SFileVerifyArchive')],
 'explicit-state search of a model of the API; every state and transition replayed on the real library','model_checking',
 'Masks other than * are not judged; buffers are aligned for the values they receive.',
 state=[dict(name='ARCHIVES/FILES',meaning='tables of open handles'),dict(name='NEXT_HANDLE',meaning='next handle value'),dict(name='LAST_ERROR/LOCALE',meaning='thread-local last error and the process locale')],observe=['every SFile* function'])
prop('P18','Concurrent C API calls behave as if made one after another',
 'However calls of the C API from several threads interleave, every call ends, and results, last errors and the final state of all handles are those of the same calls made one after another in an order that respects which call ended before another began. In particular no handle is given out twice, a file of a closed archive never stays open, and the last error and locale belong to the calling thread alone.',
 ['schedules','programs'],'all schedules (no preemption bound) of all programs of two threads with up to two calls and three threads with one call over an alphabet of 30 calls',
 'No test uses two threads; an interleaving between two lock acquisitions needs a controlled scheduler to be reached at all.',
 ['storm-ffi/src/lib.rs'],[('global tables','lib.rs ARCHIVES, FILES, NEXT_HANDLE locks'),('thread-local state','lib.rs LAST_ERROR, LOCALE')],
 'stateless model checking of the real library under a controlled scheduler, linearizability against the model of P17','model_checking',
 'Scheduling points at every Mutex, RwLock and atomic operation; complete for data-race-free code.',
 state=[dict(name='ARCHIVES/FILES',meaning='tables of open handles'),dict(name='NEXT_HANDLE',meaning='next handle value')],observe=['every SFile* function'])
prop('P19','Extraction writes exactly the archived files inside the target',
 'Whatever names an archive contains, extracting it with the command line tool creates and changes files only inside the target directory, never aborts, and puts each extracted file, with exactly the archived bytes, at the place its archive path denotes (or directly in the target when paths are not kept). The tool reports success only if every requested file was extracted.',
 ['inputs','configurations'],'all names of up to 3 (4) components over hostile and plain components and both separators; all archive configurations; files going to the same place; archives of many, deep and large files; every kind of failing extraction, every system call of an extraction failing',
 'No test extracts a file with a name made to escape, or makes an extraction fail.',
 ['storm-cli/src/commands/file.rs','storm-cli/src/commands/extract.rs'],[('target path','commands/file.rs extract'),('failure accounting','commands/file.rs extract')],
 'bounded exhaustive enumeration of stored names and archives on the real tool, run unprivileged in a scratch directory whose surroundings are compared before and after','exploration',
 'Names with parent, empty, current-directory or drive components may also be refused; a clash of equal last components in flat extraction must be reported.',observe=['storm-cli file extract'])
prop('P20','The command line tool tells the truth about archives',
 'An archive made by the tool from any source tree and options contains exactly the selected files under their relative paths, and listing, searching, file and archive information report exactly what it contains in every output format, machine-readable ones well-formed for every name. Verification succeeds on intact listed archives and fails when any file, table, header digest or signature is damaged, hash commands print the hashes of the format, and a command that cannot do what it was asked reports failure, leaves the archive alone and never aborts.',
 ['inputs','configurations','fault_sequences'],'all subsets of a source tree with awkward names x all creation options; all pairs of ignore patterns; many, deep, long and large trees; all patterns x listing forms; damage at every protected region; every system call of creating, listing and verifying failing; names x hash types x formats',
 'The tool has no end-to-end tests for most commands; quoting, filters, exit codes and damage reports are only visible over many archives.',
 ['storm-cli/src/commands/','storm-cli/src/output.rs','storm-cli/src/main.rs'],[('creation','commands/archive.rs create'),('listing and search','commands/file.rs list, find'),('verification','commands/archive.rs verify'),('hashes','commands/hash.rs')],
 'bounded exhaustive enumeration of source trees, options, patterns and damages on the real tool against an independent reader','exploration',
 'Archives without list file are created and read back, but verification of unnamed files is not judged.',observe=['storm-cli archive create, info, verify','storm-cli file list, find, info','storm-cli hash'])
prop('P21','An archive depends only on what the builder was told',
 'The archive a builder writes is determined by the settings in force and the files added, not by the order of calls that do not concern each other, by whether contents came from memory or from disk, by where or when it is built, or by other builds: the same instructions always give the same bytes. The last value given to a setting holds for the whole archive, except that a file added without options takes the default compression in force at that moment; files on disk are read when the archive is built, and a builder whose sources are gone fails and leaves the destination alone.',
 ['histories'],'all sequences of up to 3 (4) builder calls over all setters and all ways to add a file, longer ones over reduced alphabets, all orders of one call of each kind',
 'Tests make one fixed call sequence; a setting that is captured too early or too late, or state that leaks between files, shows only in particular orders.',
 ['mopaq/src/builder.rs'],[('builder state','builder.rs ArchiveBuilder setters and add_*'),('writing','builder.rs build, write_archive')],
 'explicit-state search of a model of the builder; every history replayed on the real builder, judged by an independent reader and against a canonical history of the same state','model_checking',
 'Histories up to the stated length.',
 state=[dict(name='ArchiveBuilder',meaning='settings and pending files')],observe=['ArchiveBuilder::build'])
prop('P22','Read errors are survived or reported, never taken for content',
 'Short and interrupted reads never change any result of opening, listing, reading or verifying an archive, and a call during which reading fails, at whatever point, returns an error or the right result: never other content, another archive, missing files or attributes, or a signature that is called valid or absent when it is not. After a passing failure every later call on the same handle returns what it would have returned without it.',
 ['fault_sequences'],'every system call of a session of all reading calls failing, interrupted or shortened, and every read from it on failing or at the end of the file; every operation of the exported header, table and signature readers likewise; sessions through the C API likewise',
 'Tests read from intact local files, where reads neither fail nor return less than was asked for.',
 ['mopaq/src/archive.rs','mopaq/src/header.rs','mopaq/src/io.rs','mopaq/src/tables/','mopaq/src/crypto/signature.rs','storm-ffi/src/lib.rs'],[('header search','header.rs find_header'),('table loading','archive.rs load_tables, load_attributes'),('digests over the archive','crypto/signature.rs, archive.rs validate_v4_md5_checksums')],
 'exhaustive fault injection at every system call of the real library under a tracer, and at every operation of its readers','fault_enumeration',
 'A signature that cannot be read may be called invalid; optional tables that cannot be read may be reported as failed to load.',
 observe=['Archive::open and every reading call','find_header, HashTable::read, BlockTable::read, HetTable::read, BetTable::read','calculate_mpq_hash_md5, verify_weak_signature'])
prop('P23','Processes sharing archives do not disturb each other',
 'However the file operations of processes that build and read archives interleave, opening a path that is being built gives either the previous or the complete new archive, and an archive that is open keeps giving the results it gave when it was opened, even after its file is replaced, moved away or removed. Builds to the same or to neighbouring destinations, also beside one that was killed, each succeed and leave exactly complete archives and no other files.',
 ['schedules'],'all schedules with up to two preemptions (three among calls that change the directory) of pairs of builders, of a builder and a reader, and of a reader and a removal, at system call granularity; builders killed at every call',
 'Tests run one build or one session at a time on files nobody else touches.',
 ['mopaq/src/builder.rs','mopaq/src/archive.rs'],[('temporary file and atomic persist','builder.rs build'),('open file handle kept','archive.rs Archive::open, reader')],
 'stateless exploration of real processes under a controlled scheduler at system call granularity; destination judged between any two calls','model_checking',
 'Preemption bounds as stated; scheduling points are system calls, the only operations through which the processes interact.',
 state=[dict(name='destination directory',meaning='archives and temporary files visible to other processes')],observe=['ArchiveBuilder::build','Archive::open and every reading call'])
prop('P24','Parsed headers and tables hold exactly what is stored',
 'Whatever values the fields of a header, user data header, hash, block, hi-block, HET or BET table have, the structures an open archive exposes, and the same structures read on their own at any position, hold exactly the stored values, with 64-bit positions and sizes put together from all their parts. Every query on them (flags, entry states, bit fields, lookups by name and locale) gives what the stored values say, and structures that are cut short or carry another signature or version are refused.',
 ['inputs'],'every byte of every header and entry with every value, pairs of extreme fields, every truncation, every table size to a bound, every BET field width and flag list, all four-slot hash tables',
 'Tests parse a handful of hand-written structures with small values, where upper halves, unusual widths and neighbouring fields do not show.',
 ['mopaq/src/header.rs','mopaq/src/tables/','mopaq/src/archive.rs'],[('header fields','header.rs MpqHeader::read, find_header, get_*'),('tables','tables/hash.rs, block.rs, bet.rs, het.rs'),('accessors','archive.rs header, user_data, hash_table, block_table, hi_block_table')],
 'bounded exhaustive enumeration of stored structures against an independent decoder','exploration',
 'Values within the stated enumerations; among several entries matching name and locale any may be returned.',
 observe=['MpqHeader, UserDataHeader, find_header','HashTable, BlockTable, HiBlockTable, HetTable, BetTable and their entries','Archive::header, user_data, hash_table, block_table, hi_block_table'])
