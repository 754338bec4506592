"""Every property: statement (for properties.jsonl), and for the claimed ones the scenarios that decide it.
mkmeta.py writes properties.jsonl and MANIFEST.json from this file."""

REAL = ['all of /repo/src (bin_write_plugin, bin_xml, bin_xml_creator, bin_xml_packer, bin_xml_plugin, bin_json_plugin, bin_xml_types, files, missings, utils, macros, jsmn) compiled from the working tree',
        'libxml2 2.9 (reads the source documents)', 'kernel file system (tmpfs scratch directory), mmap(MAP_SHARED) page sharing between simulated processes']
STUBS = ['system call results where a fault is injected', 'clock_gettime/time (simulated clock)', 'random() (seeded)', 'malloc/operator new of the library (bounds-checked seeded arena)',
         'thread/process scheduling (seeded: fibers switched at accesses to shared memory; processes are forked one at a time)', 'addresses returned by mmap', 'printing to stdout/stderr (dropped)']

COMMON = ['a crash is the death of the process: everything it stored into the shared mapping or wrote to a file stays (the library never promises survival of a power loss: it has no msync/fsync)',
          'memory accesses of the library become visible in program order, plain stores of up to 8 bytes are atomic (x86-64)',
          'the library is compiled with -O0 and thread-sanitizer instrumentation calls in place of the shipped -O2 build']

PROPS = {}


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, **check):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=list(state), observe=list(observe), hook=hook, **check)


BW = 'src/bin_write_plugin.cpp'
BWH = 'include/binary_xml/bin_write_plugin.h'

P('P01', 'A crashed writer leaves a live document that reopens complete',
  'When the process that writes a live document dies at any instant (while opening, creating, appending, changing, removing or growing), the next process can open the document again and every edit that had returned before is there, unchanged and in order. '
  'The interrupted edit shows either completely or not at all when it appends or stores a number, and otherwise affects nothing but the one element it was working on. The reopened document accepts further edits as if nothing had happened.',
  ['crash_points', 'histories'], 'every history of edits, any number of crashes, each at any store into the shared file or any system call',
  'tests end every process normally; the intermediate states between two stores into the mapped file exist only when a process dies there',
  [BW, BWH], [('element linked only after it is complete', BW + ' BW_element::join/add/replace/remove'), ('size fields stored after the file is extended', BW + ' BW_plugin::makeSpace, BW_pool::new_element'), ('reopening checks and repairs the header', BW + ' BW_plugin::Initialize/CheckExistingFile')],
  [('pool header', 'allocator, limits, dictionary and root offsets', BWH + ' BW_pool'), ('sibling rings', 'next/prev offsets of elements', BWH + ' BW_element')],
  ['BW_plugin::Initialize', 'BW_plugin::getRoot', 'BW_element::NextChild/PrevChild/findChildByTag', 'BW_plugin::ForAllChildren/ForAllBinParams'],
  quick=[('crash', 120000), ('dictcrash', 32000)], thorough=[('crash', 700000), ('dictcrash', 120000)],
  rule='Random edit histories (2-60 operations over 16 element and 14 attribute types, values up to 5 KB) run in a chain of forked processes; up to 4 crashes per run at a random store into the mapping or system call of an operation (half counted from its linking step).',
  states='hash of (reference tree, operation kind) after each operation, plus (crash position, kind of in-flight step)', assumptions=COMMON,
  note='Sampled crash points against an ordered-tree reference model; the state after each crash must be the model before or after the interrupted step (or differ only in the touched element).')

P('P02', 'Readers see a consistent document while another process writes',
  'Any number of processes that open a live document see, at every instant while one writer appends elements and attributes, stores numbers and grows the file (or dies doing so), a consistent document: '
  'no element or attribute that was there before the look is missed, none appears before the writer began to link it, order, names, types and values are the ones stored, nothing is half built, and every walk ends. A document can be opened at any such instant.',
  ['schedules', 'crash_points'], 'every interleaving of one writer and any number of readers at the granularity of single memory accesses and system calls, and a writer death at any of them',
  'tests run a single process; the intermediate states of linking and growing are visible only to a reader scheduled between two stores',
  [BW, BWH], [('complete before linked; one store makes it visible', BW + ' BW_element::join/add'), ('mapping of the maximum size, growth by file size', BW + ' BW_plugin::Initialize/makeSpace'), ('offset checks of a reader', BW + ' BW_plugin::BWE, NextChild/PrevChild')],
  [('sibling rings', 'next/prev offsets of elements', BWH + ' BW_element'), ('pool header', 'allocated and file size', BWH + ' BW_pool')],
  ['NextChild/PrevChild', 'ForAllChildren/ForAllBinParams', 'tagGet/findChildByTag', 'getStr/getData', 'Initialize of a reader'],
  quick=[('readers', 80000)], thorough=[('readers', 1800000)],
  rule='One writer (3-28 appends, rings, attributes, number stores; 35 % die at a random store) and 1-3 readers (walks forwards, backwards, by callback, lookups; some open late) as fibers; the seeded scheduler switches on average every 1-200 accesses to the shared mapping or system calls.',
  states='hash of each final element (offset, children, attributes) and of the whole event log', tech='schedules of one writer and several readers and writer crashes, checked against interval-stamped history',
  assumptions=COMMON + ['as documented by the code, dictionaries are registered before readers start, and remove, replace, text change and clear are not used while others read'],
  note='Every look is checked against the writer history: what finished linking before the look must be seen, what did not start must not.')

P('P03', 'No-space and failing system calls lose nothing already stored',
  'When a live document cannot grow (its maximum size is reached, the disk is full) or opening it fails because a system call fails, the affected operation reports failure and the process goes on. '
  'Everything stored before stays readable and unchanged, later operations that fit succeed, and once the fault is gone the document opens and grows again.',
  ['fault_sequences', 'histories', 'configurations'], 'every sequence of edits, pool limits from two pages up, and every sequence of failing open/stat/map/resize calls and disk-space limits',
  'tests never fill a document or a disk; each failing call leaves a different half-done state',
  [BW], [('space is reserved before use', BW + ' BW_plugin::makeSpace, BW_pool::new_element/allocate'), ('failure is returned, nothing is linked', BW + ' BW_element::attr*/tagSet*/setStr')],
  [('pool limits', 'allocated size, file size, maximum size', BWH + ' BW_pool')], ['return values of all creating calls', 'document content afterwards', 'open descriptors and mappings'],
  quick=[('space', 80000)], thorough=[('space', 500000)],
  rule='Random edit histories in pools of 32 KB-1 MB with values up to 9 KB, disk-space limits, and failing open/fstat/mmap/ftruncate calls; an operation may fail only if a fault fired or the pool has less room than the documented reservations.',
  states='hash of (reference tree, operation kind) after each operation', assumptions=COMMON + ['writing to an unallocated page of a file on a full disk (SIGBUS) is not simulated: files are extended with ftruncate only'],
  note='Fault sequences sampled by seed; oracle is the reference model plus must-succeed-if-it-fits.')

P('P04', 'A live document always equals the ordered tree its edits describe',
  'After any sequence of creating, attaching, attribute-setting, value-setting, text-changing, replacing, removing and retyping calls, reading the document forwards, backwards, by callback and by lookup gives exactly the ordered tree those calls describe. '
  'Calls with a type that does not fit are refused and change nothing, and closing and opening the document again - in the same or another process - changes nothing.',
  ['histories', 'configurations'], 'every sequence of editing calls, interleaved with any number of reopenings',
  'tests make a few fixed documents; list and space bookkeeping errors show only after particular sequences of edits and reopenings',
  [BW, BWH], [('sibling rings', BW + ' BW_element::join/remove/replace'), ('typed values', BW + ' BW_element::attr*/tag*/tagSet*/setStr')],
  [('element', 'type, value, rings', BWH + ' BW_element')], ['NextChild', 'PrevChild', 'ForAllChildren', 'ForAllBinParams', 'tagGet/attrGet/findAttr/findChildByTag'],
  quick=[('edit', 120000)], thorough=[('edit', 400000)],
  rule='Random histories of 5-125 edits over 16 element and 14 attribute types with reopenings (new process or same process); after each edit the whole document is read in four ways and compared with the reference tree.',
  states='hash of (reference tree, operation kind) after each operation', assumptions=COMMON,
  note='Refinement of an ordered-tree reference model over sampled histories across simulated process restarts.')

P('P05', 'Documents open in one process do not affect each other',
  'A process may hold up to 32 live documents and close, reopen or fail to open any of them in any order, with several objects on one file and copies made between documents, while an embedded attribute registry grows. '
  'Every document keeps exactly the content its own edits describe, an operation on one never changes, moves or unmaps another, and a slot freed by closing or by a failed open can be used again.',
  ['histories', 'fault_sequences'], 'every sequence of open, failed open, close, edit and copy operations over up to 32 documents',
  'tests hold one document at a time; elements find their document through a process-wide table whose state depends on every open, close and failed open before',
  [BW, BWH], [('process-wide registry of documents', BW + ' BW_plugin constructor/destructor/Initialize, BW_plugin::registered'), ('offset to document and back', BW + ' BW_plugin::BWE, BW_element::getPlugin')],
  [('registry', 'slot per document', BW)], ['contents of every open document', 'BW_plugin::Initialize', 'copies between documents'],
  quick=[('many', 120000)], thorough=[('many', 2500000)],
  rule='Random histories of 10-120 operations over up to 32 document objects: open, open with failing system calls, close, second object on the same file, edits, copies between documents, reads of all.',
  states='hash of (open documents, content of each) after each operation', assumptions=COMMON,
  note='Each document is compared with its own reference tree after operations on any of them; fault sequences on open.')

P('P06', 'The dictionary of a live document is permanent and is verified at every opening',
  'Every name registered in a live document keeps its identifier and type in every later session, by number and by name, in whatever order and through whichever registration calls it was added, including after growth of the name tables, failed opens and deaths of the process. '
  'A session that registers names differently - another name for a number, an incompatible type, a missing or an extra entry - is told so by a failed open and changes nothing, and a session that registers the same is accepted.',
  ['histories', 'crash_points', 'fault_sequences'], 'every history of sessions with equal, extended or conflicting registrations, with crashes and failing system calls at any point',
  'tests register one small dictionary once; table growth, reopening with other registrations and dying inside a registration need particular sequences',
  [BW, BWH], [('name table growth and rebuild', BW + ' BW_pool::makeTable, BW_symbol_table_16B::Open'), ('comparison at opening', BW + ' BW_plugin::Initialize/CheckExistingFile/registerTag/registerAttr/allRegistered')],
  [('dictionary', 'name blocks and index tables', BWH + ' BW_symbol_table_16B')], ['getTagName/getAttrName/getTagType', 'findTag/findAttr', 'Initialize/allRegistered return values'],
  quick=[('dict', 80000)], thorough=[('dict', 1000000)],
  rule='Random chains of sessions in forked processes registering up to 300 tags and attributes (explicit ids, by name, imported), equal or altered, with crashes at any store or call of a registration and failing system calls.',
  states='hash of (reference dictionary, operation kind) after each operation', assumptions=COMMON + ['an explicit-id dictionary whose first registration was interrupted is refused at the next opening: the program must create the file again'],
  note='Refinement of a reference dictionary across simulated process restarts.')

P('P07', 'Clearing a live document keeps its dictionary and returns the space',
  'After clearing, a live document has no content but exactly the same registered names, types and identifiers, and new content can be stored as into a new document - in the same process and after reopening. '
  'Repeating the same fill-and-clear cycle any number of times always succeeds and never uses more space than the first time.',
  ['histories'], 'every sequence of fill, clear and reopen cycles and every dictionary layout',
  'tests clear a document at most once; leaks and dictionary damage accumulate over cycles and depend on the order in which tables were laid out',
  [BW], [('dictionary moved to the start, rest zeroed', BW + ' BW_plugin::Clear, BW_pool::makeTable')], [('dictionary', 'name blocks and index tables', BWH + ' BW_symbol_table_16B')],
  ['BW_plugin::Clear', 'names and types by id', 'used size'],
  quick=[('clear', 48000), ('dictclear', 32000)], thorough=[('clear', 200000), ('dictclear', 100000)],
  rule='2-27 cycles of random edits, check, clear, random reopenings; dictionary, used size, emptiness and content are compared with the model each cycle.',
  states='hash of (reference tree, operation kind) after each operation', assumptions=COMMON + ['clearing itself is not crash protected and is not interrupted'],
  note='Model comparison over sampled histories.')

CR = 'src/bin_xml_creator.cpp'
PK = 'src/bin_xml_packer.cpp'
XB = 'src/bin_xml.cpp'
IOCOMMON = [COMMON[0], COMMON[2], 'the fault injection covers the calls the library makes itself; libxml2 gets its input through its own I/O callbacks, with short reads but without memory failures']

P('P08', 'Records appended to a binary file are all there, once, whole and in order',
  'After a live document with an open end was converted, every list of records written to the end of the binary file is shown by all later readers exactly once, whole and in the order of writing, together with the converted document, across any number of clears of the live document and late registrations. '
  'A write that fails says so, has stored exactly the records it marked as written and nothing of the others, and later writes succeed when the fault is gone. Readers that opened the file earlier keep their view, readers that open it meanwhile see a prefix of the records, and a writer that dies loses only records whose write had not returned.',
  ['histories', 'fault_sequences', 'crash_points', 'schedules'], 'every history of conversions, writes, clears and registrations, with every failing or partial call, crash point and moment of reading',
  'tests append twice to one file and do not read it back; lost or damaged records depend on file size modulo alignment, partial writes and dictionary moves',
  [CR, BW, XB], [('whole records appended, partial ones removed', CR + ' Bin_xml_creator::Append/WriteData'), ('written records are marked one by one', BW + ' BW_plugin::Write'), ('names translated by tables of the converted file', CR + ' Bin_xml_creator::Find/CopySymbolTable'), ('records chained by length behind the document', XB + ' XML_Item::getNextChild')],
  [('binary file', 'document followed by records', XB), ('symbol tables', 'kept by the creator', CR)], ['BW_plugin::Write', 'BIN_WRITTEN flags', 'content read by XB_reader (opened before, meanwhile, afterwards, in another process)'],
  quick=[('append', 120000)], thorough=[('append', 800000)],
  rule='Random histories of 3-33 steps: convert (plain or packed), write 1-12 records of 1-80 elements, clear, register a further name, open/close long-lived readers, restart; with short transfers, full disks, failing calls, crashes at random points of the write, and a concurrent reader that opens the file at scheduled moments.',
  states='hash of (outcome, records stored by this write, records in the file)', assumptions=IOCOMMON[:2] + ['removing a partly appended record (ftruncate) does not itself fail', 'no reader opens the file between a failed partial write and its removal'],
  note='Model: list of serialized records, extended by the marked prefix of each write; every look compares the whole document with it.')

P('P09', 'A conversion gives the complete document or says it failed',
  'Converting an XML, JSON or live document to a binary file (.xb or .xbw) reports success only when the file holds the whole document: every element, attribute, name and value, in order, with the name and time of its source (the value of an XML element is its text before the first child element, whatever comments, sections or references it is written with) - whatever system calls fail, are interrupted or transfer only part of the data, and however full the disk is. '
  'A failed conversion says so and leaves either a previous complete file or one that no reader accepts, a missing, empty or cut-off source is never reported as converted, and a converter that dies never leaves a file which opens with less than a complete document. The same conversion succeeds once the fault is gone.',
  ['fault_sequences', 'crash_points', 'histories'], 'every document, every sequence of conversions of changing sources over the same destinations, and every failing or partial system call or crash point of each',
  'tests convert a few valid files on a healthy disk and compare nothing after a failure',
  [CR, PK, XB, 'src/bin_xml_plugin.cpp', 'src/bin_json_plugin.cpp', 'src/bin_xml_types.cpp'],
  [('result size checked while filling, short writes continued', CR + ' Bin_xml_creator::DoAll/Make_xb/WriteNode/WriteData'), ('live document built from XML', CR + ' Bin_xml_creator::Make_xbw/XStore2XBWEvent'), ('reader refuses an incomplete file', XB + ' XB_reader::Initialize'), ('source that cannot be read whole is refused', 'src/bin_json_plugin.cpp Bin_json_plugin::Initialize')],
  [('destination file', 'binary document', XB), ('symbol tables', 'collected names and types', CR)],
  ['return values of DoAll/Convert/GetXB/Initialize', 'content read by XB_reader and BW_plugin in a later process'],
  quick=[('conv', 38000)], thorough=[('conv', 180000)],
  rule='Random documents of 1-1500 elements (all value kinds, reserved names, attributes, text up to 20 KB) as XML, JSON or live document; 3-17 steps: change the source (valid, cut, empty, missing, mangled) or convert it through one of six entry points (a live document also to a new .xbw), 55 % with a full disk, a failing or short call, or a crash at a random point; each destination is read back in a fresh fault-free process.',
  states='hash of (entry point, source variant, outcome, size of the document)', assumptions=IOCOMMON + ['in XML, text after the first child element is not part of the value (the reader has one text per element), a source with references to entities other than plain text is refused', 'a process that reads a file by mapping it while it is being rewritten in place is not covered'],
  note='Every destination is compared with the reference tree of the source version it may hold; sampled faults and crash points.')

P('P11', 'Conversions, openings and renderings give back all they took',
  'Every conversion, opening, copying and rendering of a document - finished, refused or failed at any call - returns all file descriptors, mappings, directories and memory it took, and never closes or frees anything twice. A process can repeat any of them forever without running out of resources.',
  ['histories', 'fault_sequences'], 'every sequence of operations in one process, with valid and damaged sources and every failing system call',
  'tests convert a few files per process; a leak on an error path shows only when the call fails there and the process goes on',
  [CR, PK, XB, 'src/bin_xml_plugin.cpp', 'src/bin_json_plugin.cpp', BW, 'src/bin_xml_types.cpp'],
  [('owners release in destructors and on failure', CR + ' ~Bin_xml_creator/WriteFile, ' + XB + ' XB_reader::Finalize, src/bin_json_plugin.cpp, src/bin_xml_plugin.cpp'), ('process-wide buffers are reused', 'src/bin_xml_types.cpp XBT_Buffer/XBT_Free')],
  [('descriptors, mappings, heap blocks', 'tracked at the seams', 'system call and malloc seams of the simulator')], ['balance of descriptors, mappings, streams, directories, library heap and libxml2 heap after each operation', 'double close or free'],
  quick=[('convres', 96000)], thorough=[('convres', 250000)],
  rule='One process makes 4-28 operations (ten kinds, three changing sources: XML, JSON, live; valid, cut, empty, missing, mangled; failing calls, full disk, short transfers), each three times; descriptors, mappings and streams must be zero after each, the heap balance of the second and third time equal.',
  states='hash of (operation, source kind and variant, outcome, fault fired)', assumptions=IOCOMMON + ['munmap does not fail', 'XBT_Free is called where the API asks for it; caches that stop growing after the first use are allowed'],
  note='Resource accounting at every seam of the library, checked after each simulated operation.')

P('P12', 'File helpers give the whole truth or say they failed',
  'Reading, writing, mapping, measuring, listing and digesting a file, and making directories, either do it completely or report a failure - whichever system call fails, is interrupted or transfers only a part, with a full disk, and with other processes making the same directories. '
  'A success is never reported for a part (a digest of half a file, a shortened text, a missing directory or a list without some files), without a fault they do succeed, they never damage other files, and they keep no descriptor, stream, mapping or memory.',
  ['histories', 'fault_sequences', 'crash_points', 'schedules'], 'every content and size of files, every sequence of operations, every failing or partial system call and crash point',
  'tests read small whole files; a read that returns less than asked, a failing close or a readdir error does not happen in them',
  ['src/utils.cpp', 'src/files.cpp', 'src/missings.cpp'],
  [('short reads continued or refused', 'src/utils.cpp ReadFile, src/files.cpp file_get_contents, src/missings.cpp file_getsha1'), ('errors of writing and closing reported', 'src/utils.cpp WriteToFile'), ('listing and making of directories', 'src/files.cpp scan_dir/force_directory'), ('digest independent of how data comes', 'src/missings.cpp blk_SHA1_Update/Final'), ('shared mapping', 'src/utils.cpp ShareFileRO/ShareFileRW/CloseSharedFile')],
  [('files and directories', 'content, existence', 'scratch directory')], ['return values', 'content of files', 'descriptors, streams, mappings, heap'],
  quick=[('files', 160000)], thorough=[('files', 600000)],
  rule='4-63 operations of 13 kinds over 20 file names (usual and unusual) in 8 directories (0 to 160 KB, sizes around block and page limits), 40 % of them with a failing or partial call, a full disk, a crash or another process in between; every answer is compared with a model of the directory and an independent SHA-1.',
  states='hash of (operation, outcome, numbers of files and directories)', assumptions=[COMMON[2], 'munmap and close release their object even when they report an error', 'an end of file reported before the size the file had when it was opened does not happen (a file is not shortened while it is read)'],
  note='Reference model of the directory, every result checked.')

P('P18', 'A conversion depends on nothing but its source',
  'Converting, copying or rendering the same document always gives the same bytes - whatever the process did before, whatever memory it happens to get, where files are mapped, what time it is, how reads are split, and whether earlier conversions failed.',
  ['histories', 'configurations', 'fault_sequences'], 'every history of other operations, memory content, mapping layout, clock and I/O splitting before and during a repeated conversion',
  'uninitialized bytes, stale buffers and state left by failed conversions give equal results in a fresh test process',
  [CR, PK, XB, 'src/bin_xml_plugin.cpp', 'src/bin_json_plugin.cpp', BW, 'src/bin_xml_types.cpp'],
  [('output buffer zeroed', CR + ' Bin_xml_creator::AllocateData'), ('tables and buffers owned by one conversion', CR + ' constructors, src/bin_json_plugin.cpp'), ('elements of live documents zeroed or fully set', BW + ' BW_pool::new_element/allocate')],
  [('destination bytes', 'binary document, live document or text', CR)], ['bytes of the result'],
  quick=[('convdet', 80000)], thorough=[('convdet', 350000)],
  rule='One process makes 4-28 operations over three changing sources; repeated ones run with another heap content, mapping layout, clock and I/O splitting after other (also failing) operations; results of the same operation on the same source version are compared byte by byte.',
  states='hash of (operation, source kind and variant, outcome, fault fired)', assumptions=IOCOMMON + ['the name and modification time of the source are part of the document'],
  note='Differential: first result against every later one under different simulated nondeterminism.')

P('P20', 'Merging by keys is complete, atomic and idempotent',
  'Merging an element of a binary file into a live document finds the elements that have the same name and the same key attributes, creates only what is missing on the way - with its keys, and at the end with all its content - and returns the merged element. '
  'Merging the same again changes nothing. When it fails (no space) or its process dies, the document is exactly as before, so the merge can be repeated; a concurrent reader sees the document before or after it, never a part.',
  ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every sequence of merges of any paths of several files, with any key set, interrupted anywhere, with readers at any moment',
  'tests merge a few fixed files in an undisturbed process; half-merged branches exist only at a crash, a failure or between two stores',
  [BW, BWH, XB], [('missing branch linked when complete', BW + ' BW_plugin::CopyPath_'), ('search by name and keys', BW + ' BW_element::EqualKeys/CopyKeys'), ('subtree copied with types and values', BW + ' BW_plugin::CopyAll/tagData, BW_element::attrCopy/attrData'), ('dictionary taken over with equal ids', BW + ' BW_plugin::importTags/importParams')],
  [('live document', 'target of the merge', BWH + ' BW_pool')], ['result of CopyPath/CopyPathOnly/CopyAll', 'whole document afterwards, in other readers and in the next process'],
  quick=[('merge', 80000)], thorough=[('merge', 250000)],
  rule='1-3 binary files with up to 60 elements (16 element types, 14 attribute types, up to 6 of them keys, few key values); 2-42 steps merge random paths of 0-6 elements (whole or keys only), copy subtrees, replace a file, reopen, restart; pools from 72 KB, full disks, crashes at random stores, up to 2 readers at scheduled moments.',
  states='hash of the reference tree after each merge', assumptions=COMMON + ['all files have the dictionary of the document (a file with another one is refused by its ids)'],
  note='Reference model of keyed merging; after each merge, failure or crash the whole document equals the model before or after it.')

P('P21', 'A damaged binary file is refused or can be read to its end',
  'A binary file damaged where it is stored - cut anywhere, with blocks lost, zeroed, misplaced or overwritten, flipped bits, wrong fields, or something foreign behind its end - is either refused when it is opened or everything it shows can be read: '
  'every walk ends, every name, value and child lies inside the file, nothing crashes. A document that is cut is always refused; a cut among records appended to it, or zeros behind it, leaves the document and exactly the records that are whole. A refused file leaves nothing open or mapped.',
  ['fault_sequences', 'inputs'], 'every document, and every sequence of disk faults that leave a file with other bytes than those written',
  'tests open only files that have just been written; a damaged link, count or size sends a reader anywhere',
  [XB, 'include/binary_xml/bin_xml.h', 'src/bin_xml_types.cpp'], [('everything is checked when the file is opened', XB + ' XML_Item::Check, XB_reader::Initialize'), ('symbol tables lie inside their element', XB + ' _XB_symbol_table::Load'), ('appended record checked before it is shown', XB + ' XML_Item::getNextChild')],
  [('stored file', 'elements, symbol tables, appended records', XB)], ['XB_reader::Initialize', 'getNextChild/getChildByIndex/ForAllChildrenRecursively*', 'getData/getString/getStringChunk/getBinary/getInt*', 'operator<<', 'open descriptors and mappings'],
  quick=[('damage', 48000)], thorough=[('damage', 250000)],
  rule='Documents of 1-150 elements from live, XML and JSON sources, packed or plain, with 0-8 appended records; 6-25 damaged copies of each with 0-4 disk faults: cut, flipped bit, wrong byte or word (edge values), zeroed, garbage or misplaced block of 512 or 4096 bytes, lost tail, zeros or garbage behind, a wrong field of an element, a link to another element (cycles), an element over another.',
  states='hash of (damaged bytes, opened or refused)', assumptions=['damage that multiplies the tree above 60000 elements by sharing is skipped', 'values inside a document that stays well formed may be wrong: the format has no checksum', 'reads behind the end of the file inside its last page see zeros, as with any mapping'],
  note='Every opened copy is walked with all accessors in a simulated process with bounds on memory and steps; undamaged parts are compared with the reference tree.')

TY = 'src/bin_xml_types.cpp'
P('P13', 'Every value and document is rendered whole and the same however it is read',
  'The text of a value is the same whether it is asked for as a whole, through any accessor, by pieces of any size, into a stream, or from the live or the converted document, and whatever other values are rendered in between or whichever of several piecewise readers takes its turn. '
  'A returned text stays valid for the documented number of further renderings, no rendering writes behind the given buffer, and a document written as XML - live, stored or parsed from XML or JSON text - is well-formed and has exactly its elements, attributes and values, or the stream reports that it could not take it.',
  ['histories', 'schedules', 'fault_sequences'], 'every document of all value types, every sequence of renderings and every division into pieces by several readers in turn',
  'tests print a few short values; lost or repeated bytes depend on piece sizes near internal limits, texts are overwritten only after many other renderings, escaping matters only for some characters',
  [TY, XB, BW], [('shared ring and growing buffer of texts', TY + ' reetrant_buffer/XBT_Buffer/XBT_ToString'), ('continuation by offset', TY + ' XBT_ToStringChunk'), ('escaping in one place', TY + ' XBT_ToXMLStream, ' + XB + ' XML_Item::write, ' + BW + ' operator<<')],
  [('rendering buffers', 'ring of short texts, one growing buffer', TY)], ['XBT_ToString', 'XBT_ToStringChunk', 'getString/getStringChunk/getNodeValue/ForAllParams', 'operator<< of documents, streams that fail'],
  quick=[('render', 24000)], thorough=[('render', 150000)],
  rule='A random document of 1-400 elements (22 value types, values up to 30 KB, special characters, extreme numbers, dates from year 1 to 9999) live and converted; up to 400 renderings per step by up to 8 piecewise readers with buffers of 1-5 KB taking turns, whole texts, streams and attribute lists in seeded order; documents written into streams that fail after any number of bytes.',
  states='hash of (value type, kind of rendering, open readers)', assumptions=[COMMON[2], 'texts of numbers, dates and identifiers are valid for the next 63 renderings, texts of binary data until the next rendering of binary data (the documented ring and buffer)', 'rendering is used by one thread (its buffers are shared by design)'],
  tech='interleavings of several readers of values and failing streams, checked against an independent renderer', note='Every text is compared with an independent renderer of the stored bytes; earlier results are compared again after later calls.')

P('P15', 'JSON tokens do not depend on how the text arrives',
  'The tokens found in a JSON text - their kinds, limits, sizes and parents - and the verdict whether it is complete, incomplete or wrong are the same when the text comes in one piece or in any pieces, and when the token array is large enough at once, exactly as large as counted, or grows step by step. '
  'A valid text gives exactly its tokens, and parsing never reads behind the text or writes behind the array.',
  ['histories', 'fault_sequences'], 'every text (valid or damaged), every division into arriving pieces and every sequence of token array sizes',
  'tests of the parser give whole small texts and arrays; resuming states exist only for a text cut or an array full at a particular token',
  ['src/jsmn/jsmn.c', 'include/binary_xml/jsmn/jsmn.h'], [('position and parent are restored when parsing stops', 'src/jsmn/jsmn.c jsmn_parse/jsmn_parse_string/jsmn_parse_primitive/jsmn_alloc_token')],
  [('parser', 'position, next token, parent', 'jsmn_parser')], ['return value of jsmn_parse', 'token array'],
  quick=[('json', 100000)], thorough=[('json', 800000)],
  rule='3-23 texts per run of up to 150 values (nesting up to 40, all escapes, white space), 40 % damaged at 1-4 places, each fed whole, counted, in up to 40 arriving pieces, and with arrays growing by 1-20 tokens, in exact heap blocks.',
  states='hash of (verdict, length, number of tokens)', assumptions=['a value without quotes (number, true, false, null) does not arrive cut: its end is not visible to the parser, this is documented by jsmn'],
  tech='arrival of text and token array growth, checked against the generator\'s own token list', note='Valid texts are compared with the token list made by the generator, all deliveries with the delivery in one piece.')

UT = 'src/utils.cpp'
P('P17', 'Generated identifiers are not repeated and times follow the clock',
  'Identifiers generated for records differ from each other and from all identifiers of earlier processes that began with the same random state, although the wall clock is set back or forth, clocks fail and processes start nanoseconds apart; only processes that started in the same second without any precise clock may collide. '
  'The current time in milliseconds is the time of the clock, rounded down, also before 1970, and has whole seconds when the precise clock fails.',
  ['histories', 'fault_sequences', 'configurations'], 'every sequence of process starts, clock steps and failing clock calls',
  'tests make a few identifiers in one process with a working clock',
  [UT], [('start time and counter mixed into random numbers', UT + ' genI64/genU64'), ('clock with fallback', UT + ' GetCurrentTime64')], [('identifier base', 'start time and counter of the process', UT)], ['genI64', 'genU64', 'GetCurrentTime64'],
  quick=[('ids', 120000)], thorough=[('ids', 400000)],
  rule='2-21 processes per run, each with the same initial random() state, started 1 ns to 1000 s apart in simulated time, making 1-600 identifiers and time readings with wall clock jumps of up to 4000 s (or to around 1970), 15 % without clock_gettime and 15 % with single failing clock calls.',
  states='hash of (clock available, identifiers made) per process and all values', assumptions=['random() has a seeded 31 bit generator (stub)', 'two processes without precise clock do not start in the same second', 'the monotonic clock is not reset (the machine is not restarted) between the processes of one run'],
  tech='clock jumps, clock failures and process restarts', note='All values of a run are compared; times against the simulated clock.')

P('P10', 'XML and JSON texts are typed and restored by fixed rules',
  'Which binary type a text of an XML or JSON source gets, and which text it becomes again, depends only on the texts of that name in the source: the narrowest type that holds them all.',
  ['inputs'], 'every text and every set of texts of one name', 'tests sample few texts', [TY, CR], [('detection and joining of types', TY + ' XBT_Detect2/XBT_JoinTypes')], [], ['XBT_Detect2', 'XBT_JoinTypes', 'XBT_FromString'],
  na='a pure function of its input: no schedule, clock, I/O, fault or process takes part, so simulated executions decide nothing about it; the part that concerns conversions under faults (no value is changed in meaning or lost) is checked as P09')
P('P16', 'A packed file has the content of the plain one',
  'The packer may share equal values and leave out unused names, but a packed file reads as the same document as the plainly converted one.',
  ['inputs'], 'every document', 'tests sample few documents', [PK], [('values and names shared', PK)], [], ['XB_reader'],
  na='equivalence of two pure functions of a document, nothing simulated enters it; that each of both files holds the whole document, also under faults, is checked as P09, P08 and P13 (both converters are entry points there)')
P('P19', 'Comparing, searching by mask and base64 follow their definitions',
  'Comparison of typed values is an order consistent with the values, mask matching and base64 coding follow their definitions.',
  ['inputs'], 'every input', 'tests sample few inputs', [TY, 'src/utils.cpp', 'src/files.cpp'], [('comparison', TY + ' XBT_Compare/XBT_Equal')], [], ['XBT_Compare', 'XBT_Equal'],
  na='pure functions without state, time, I/O or a second party; base64 rendering by pieces of several readers is part of P13 and the use of comparisons in merging part of P20')
