"""Texts of the properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

M = []      # claimed or planned properties
NA = []     # (id, ..., reason)

DB = 'src/embedDB/embedDB.c'
DIST = 'lib/Distribution/embedDB.c'
PATHS = 'path-sensitive typestate/dataflow analysis over inlined LLVM IR'


def p(id, title, statement, over, q, why, mech, files=None, state=None, tech=PATHS, note='', hook=None):
    M.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, mech=mech, files=files or [DB, DIST],
                  state=state or [], tech=tech, note=note, hook=hook))


def na(id, title, statement, over, q, why, mech, reason, files=None):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, mech=mech, files=files or [DB, DIST],
                   state=[], reason=reason))


FAULT = 'The tests run on a working file system; no storage operation ever fails in them.'

p('P01', 'Storage failures are reported by the call that met them',
  'Whenever an open, read, write, erase or flush of a storage file fails during a call, that call returns a value that means failure, for '
  'initialisation, inserting, flushing, looking up, iterating and streaming variable data alike. No failed storage operation is followed by a return value that means success.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every storage operation failing at every point of every API call, for every configuration of options',
  FAULT,
  [('return values of the page read and write helpers are checked by their callers', DB)],
  note='Decides that no path from a failed storage operation reaches a success return; operations on close are excluded, as closing reports nothing.')
p('P02', 'Page numbers are used up exactly by successful page writes',
  'Each file has a logical page number for the next page: it increases by exactly one for each permanent page written successfully, and does not change when a write fails or '
  'anything else happens. So pages on storage are numbered consecutively, without gaps or repeats.',
  ['fault_sequences', 'histories', 'configurations'],
  'all insert and flush calls, with any storage operation failing',
  FAULT + ' A number lost on failure or a page number written twice shows up only after recovery or wrap-around.',
  [('next page counters are advanced after the write succeeded', DB + ' writePage, writeIndexPage, writeVariablePage')],
  note='Decides the change of each counter relative to successful writes on every path through a call; absolute values rest on induction over calls.')
p('P03', 'Cached pages are never stale',
  'The page a read buffer claims to hold is always the content storage has for that page: after a page is written, erased or fails to be read, a read '
  'buffer holding it is no longer used to answer later reads of that page, for data, index and variable-data pages.',
  ['histories', 'fault_sequences', 'configurations'],
  'every interleaving of reads with writes, erases and failed reads, in all files',
  'Needs a read to cache a page, the storage area to wrap onto the same physical page and a second read; the tests do not combine these.',
  [('remembered page numbers are forgotten when the page changes', DB + ' forgetBufferedPages, readPage, readIndexPage, readVariablePage')],
  note='Decides that each write, erase and failed read invalidates the remembered number unless it is shown to be another page.')
p('P04', 'Pages are written in the right place, after it was erased',
  'A permanent page with logical number n is written to physical page n modulo the size of its area, with n in its header, from the write buffer of its own file, and in the size of a '
  'page; a temporary page carries the number the next permanent page will have. When no free page is left, the '
  'block that follows is erased before the write, and erased ranges start at a block, have the size of a block and never go outside the area of the file.',
  ['histories', 'configurations', 'fault_sequences'],
  'all configurations of sizes and options and any number of wrap-arounds of each file',
  'The tests wrap only a few sizes and files; erasing is a no-op in their file interface, so a missing or misplaced erase is invisible to them.',
  [('physical page computation and erase before reuse', DB + ' writePage, writeIndexPage, writeVariablePage')],
  note='Decides the normal form of every page number, buffer, size and erase range on every path.')
p('P05', 'A successful flush has written and synced everything buffered',
  'When flushing returns success, every file with buffered records, index entries or variable data has had its page written and then flushed to storage, in that order, and the buffers '
  'no longer count those records as unwritten. With variable data, pages of it written earlier because they became full are flushed to storage as well. Also what an earlier flush that failed half way has left, pages not synced and index entries not written, is taken care of before success is returned. This holds for flushing everything and for flushing variable data alone.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'all buffer fill levels, option combinations and failures of each step',
  'The tests cannot see whether data reached the medium; a missing sync passes every test that reads back through the same file.',
  [('flush functions write, then flush each file', DB + ' embedDBFlush, embedDBFlushVar')],
  note='Decides the order and presence of the write and sync operations on each success path; what a medium does on sync is outside.')
p('P06', 'Variable data reaches storage before the records that point to it',
  'Whenever a permanent page of records is written, all variable data belonging to records on it has been written before. So a crash between two writes never leaves a '
  'stored record pointing to variable data that is not stored.',
  ['crash_points', 'histories', 'configurations'],
  'a crash between any two page writes, for any pattern of record and variable-data sizes',
  'The tests never stop between two page writes.',
  [('variable-data page is flushed before the data page', DB + ' embedDBPut, embedDBPutVar, embedDBFlush')],
  note='Decides that a variable-data write precedes each data-page write unless the buffer is shown empty.')
p('P07', 'Only keys greater than the last stored key are accepted',
  'Inserting a record compares its key with the key of the last record inserted, whether that record is still buffered or already on storage, and accepts it only if it is '
  'greater; otherwise nothing is stored and the call reports failure. A key that is greater is never rejected for its order.',
  ['inputs', 'histories', 'configurations'],
  'all keys and comparison results, with the last record in the buffer, on a full page or on a partially filled page',
  'The tests insert out-of-order keys only while earlier records are buffered; the last record on a flushed page is a different path.',
  [('previous key comparison', DB + ' embedDBPut')],
  note='Decides which record is compared and that no other comparison result leads to storing; the comparator is the user\'s.')
p('P08', 'A successful insert stores the whole record and page summary',
  'After a successful insert the write buffer holds, behind the earlier records, the full key and data of the record and its reference to variable data (the location if given, the "none" marker '
  'otherwise), the record count is one higher and never above the number of records that fit on a page, and the smallest and largest key and data and the bitmap of the page, when enabled, take the record into account. No other record on the page is '
  'changed.',
  ['inputs', 'configurations', 'histories'],
  'all keys, data, comparison results, sizes, fill levels and option combinations',
  'The tests use few record sizes and option combinations, and min/max and bitmap values are not observed except through iterators.',
  [('record copy, count, minimum and maximum and bitmap update', DB + ' embedDBPut, embedDBPutVar')],
  note='Decides place, source, size and presence of every piece on each success path under each comparison result.')
p('P09', 'With record-level consistency a successful insert is on storage',
  'When record-level consistency is enabled and an insert returns success, the page containing the new record, in its final form, has been written to storage, and so has its variable data.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'a crash right after any insert returns, at any fill level',
  'The tests recover only at a few record counts, without variable data.',
  [('temporary page write at the end of an insert', DB + ' embedDBPut, embedDBPutVar, writeTemporaryPage')],
  note='Decides that no buffer content is newer than the last write of it at any success exit.')
p('P10', 'Temporary-page blocks move away before permanent pages reach them',
  'With record-level consistency, two blocks hold temporary pages. Before a temporary page is written the blocks have moved on by one block if the next permanent page would '
  'otherwise fall into them, and only then; moving erases both old blocks, and also the block moved into if it holds the oldest valid pages, which are then given up and counted as free.',
  ['histories', 'crash_points', 'configurations', 'fault_sequences'],
  'any number of pages written, wrap-arounds, flushes of partial pages and sizes of blocks',
  'The tests check the positions after a few page counts in one configuration without flushes in between; erases are not observable in them.',
  [('block move', DB + ' shiftRecordLevelConsistencyBlocks')],
  note='Decides condition, erased ranges, new position and freed pages of every move on each path.')
p('P11', 'Temporary pages stay in their blocks and the stale block is erased',
  'Every temporary page is written to a physical page inside the two blocks reserved for them, with wrap-around, and when the second page of one block is written the other block has just been erased. So '
  'temporary pages never overwrite permanent ones and a block is free before it is reused.',
  ['histories', 'configurations', 'fault_sequences'],
  'all positions of the blocks including wrapping around the end of the file',
  'The tests check one configuration; erases are not observable in them.',
  [('temporary page cursor', DB + ' writeTemporaryPage')],
  note='Decides the range by the branch facts at each write, and the erase that precedes it.')
p('P12', 'Free pages, oldest pages and erased blocks stay balanced',
  'For each file, a page write uses one free page, and giving up old pages frees exactly as many pages as the oldest valid page number advances, together with the erase of exactly those pages. Free pages plus pages in '
  'use therefore always equal the size of the area.',
  ['histories', 'fault_sequences', 'configurations'],
  'all sequences of inserts and flushes with failures, over any number of wrap-arounds',
  FAULT + ' An imbalance shows up only many wrap-arounds later.',
  [('free-page counters', DB + ' writePage, writeIndexPage, writeVariablePage, shiftRecordLevelConsistencyBlocks')],
  note='Decides the balance of the changes on every path of a call.')
p('P44', 'The contents of a buffer after a failed read are never used',
  'When reading a page fails, nothing is computed, returned or written from the buffer it was to be read into until that buffer has been filled again.',
  ['fault_sequences', 'configurations'],
  'each read failing at each point of each API call, including recovery',
  FAULT,
  [('read failures are propagated at once', DB + ' readPage, readIndexPage, readVariablePage and their callers')],
  note='Decides use-after-failed-read by typestate per page buffer.')
p('P46', 'Variable data is packed at the cursor and pages advance with it',
  'Variable data is placed exactly where the write position of the variable-data file says, the position moves by exactly the bytes placed, and whenever a variable-data page is '
  'written the position moves to the first data byte of the next page before more data is placed or the call returns success.',
  ['inputs', 'configurations', 'histories'],
  'all lengths of variable data and page fill levels, including data spanning pages and ending at a page end',
  'The tests use a handful of data lengths; ends that coincide with page ends need particular lengths.',
  [('variable-data cursor', DB + ' embedDBPutVar, embedDBFlushVar, embedDBPut')],
  note='Decides the coupling of copies, page writes and cursor updates on all success paths.')

p('P16', 'A lookup returns the data of a record with exactly the wanted key',
  'Looking up a key reports success only if a record was found whose key compares equal to the wanted key, and then it returns the data (and the reference to variable data) of that very record, '
  'all of it, whether the record is on a page read from storage or still buffered. When the search of a page meets an equal key, that record is what the lookup returns.',
  ['inputs', 'histories', 'configurations'],
  'all keys, page contents, comparison results and sizes of key and data',
  'The tests look up keys that exist in a few data sets; wrong or partial data for absent keys, boundary records or buffered records goes unnoticed.',
  [('binary search inside a page', DB + ' embedDBSearchNode'), ('lookup in pages and in the write buffer', DB + ' embedDBGet, embedDBGetVar')],
  note='Decides that success implies an equal comparison with the record returned; that an existing record is found at all is P90 (not applicable).')
p('P17', 'An iterator returns only records inside all of its bounds',
  'Every record an iterator returns has been compared with each bound that is set (smallest and largest key, smallest and largest data, each with its own comparator, bounds included) and failed none; '
  'key and data returned are the whole key and data of one record that exists on the page the iterator is at, and that page is the one in the buffer.',
  ['inputs', 'histories', 'configurations'],
  'all combinations of bounds, comparison results, page contents, and interleavings with other reads',
  'The tests use a few combinations of bounds; bounds that coincide with records and reads interleaved with other reads are not combined.',
  [('record loop of the iterator', DB + ' embedDBNext')],
  note='Decides which comparisons precede a returned record and where it is copied from.')
p('P18', 'A page is skipped only when its own index entry excludes it',
  'An iterator skips a page without reading its records only if the bitmap of the query and the bitmap stored in the index for exactly that page do not overlap; the index page consulted is the one '
  'that holds the entry, is still valid on storage and is the one in the buffer, and the entry lies within the entries of that index page.',
  ['histories', 'configurations'],
  'all page numbers, bitmap sizes, index page states and wrap-arounds of index and data files',
  'The tests use the index with little data and one bitmap size; a misplaced entry only loses results for some queries.',
  [('bitmap test before reading a page', DB + ' embedDBNext')],
  note='Decides address, size and validity of the entry compared; the bitmap contents are P08 and P40.')
p('P19', 'An iterator passes over nothing and repeats nothing',
  'An iterator starts at the first record of the oldest valid page or of the page the spline gives for the smallest key, whichever is later, and moves record by record and page by page: '
  'each record on a page is returned or fails a bound, a page is left only after its last record, pages up to the write buffer are all visited, and no record is looked at twice. '
  'It reports its end only behind the last page, on a key above the largest wanted, or after a storage failure.',
  ['inputs', 'histories', 'configurations'],
  'all bounds, numbers of records on pages, storage positions and calls after the end',
  'The tests iterate over complete pages of a few data sets.',
  [('position of the iterator', DB + ' embedDBInitIterator, embedDBNext')],
  note='Decides steps and exits on each path through one call; the whole iteration follows by induction over calls. Whether the estimated first page is early enough is P92.')
p('P20', 'Reading changes nothing but caches and statistics',
  'Looking up, iterating and streaming write nothing to storage, change no write buffer and no member of the database state except the remembered page numbers of the read buffers and the statistics; the only exception is that '
  'requesting variable data first writes out the buffered variable-data page, with its position.',
  ['histories', 'inputs', 'configurations'],
  'all read calls in all states',
  'The tests check what reads return, not what they leave behind for later writes.',
  [('read functions', DB + ' embedDBGet, embedDBGetVar, embedDBNext, embedDBNextVar, embedDBInitIterator, embedDBVarDataStreamRead')],
  note='Decides all effects of the read functions on state, page buffers and files.')
p('P21', 'A variable-data stream delivers exactly the bytes of its record',
  'A stream returned by a lookup or iterator has the length stored in front of the data the record refers to and starts at the first data byte, behind page headers and wrapped around the end of the file. '
  'Reading from a stream copies bytes in order to the buffer, never more than the buffer, the page or the data has left, skips the header of each further page, advances by what was copied, returns that '
  'number, and stops early only when the data or the buffer is used up.',
  ['inputs', 'histories', 'configurations'],
  'all data lengths, positions, buffer sizes and splits of reads, including ends that meet page ends and the end of the file',
  'The tests use a few lengths and buffer sizes; ends that coincide need particular lengths.',
  [('stream setup', DB + ' embedDBSetupVarDataStream'), ('stream reading', DB + ' embedDBVarDataStreamRead')],
  note='Decides positions as normal forms and bounds by branch facts on each path.')
p('P22', 'Variable data is handed out exactly while it exists',
  'Requesting variable data yields none when the record has none, reports it as gone when its key is below the first key whose data still exists, and otherwise yields a stream. Whenever a block of variable data is erased, '
  'the first key whose data exists is moved just past the key on the last page of that block, which is read before the block is erased, and before the next page is written. A page of variable data is written only when it '
  'holds data. The reference into the variable data is taken from the record handed out, after the buffered data it may refer to was written.',
  ['histories', 'configurations', 'fault_sequences'],
  'all histories of inserts with and without variable data, any number of wrap-arounds',
  'The tests wrap the variable-data file in one configuration.',
  [('first key with data', DB + ' writeVariablePage, embedDBSetupVarDataStream, embedDBGetVar, embedDBNextVar')],
  note='Decides conditions and the source of the key on each path; key order makes them sufficient.')
p('P47', 'Inserted variable data is stored completely, in order, with its key',
  'A successful insert with variable data places its length and then all of its bytes, in order, in the variable-data pages, never past the end of a page or of the data given, and no page with '
  'variable data is written without the key of the record in its header.',
  ['inputs', 'configurations', 'histories'],
  'all data lengths, page sizes and fill levels, including data that spans pages and ends at a page end',
  'The tests use a handful of lengths.',
  [('copy loop of variable data', DB + ' embedDBPutVar')],
  note='Decides offsets, bounds and completeness of the copies by loop analysis with linear relations.')

p('P48', 'Every data page written gets one bitmap index entry and one spline point',
  'For each data page written to storage by embedDBPut, embedDBPutVar or embedDBFlush, its bitmap is copied once behind the last entry of the index page being filled (which has room for it) and '
  'counted, and its first key and page number are added once to the spline (unless binary search is configured), before the page buffer is cleared, another page is written or success is returned. '
  'No other entry or point is added. When an index page is written its buffer is cleared and names the next data page as its first page before the next entry is added.',
  ['inputs', 'configurations', 'histories'],
  'all insert and flush paths with and without index, binary search and variable data, all page counts and failures',
  'The tests check the index on few data sets; a missing entry shifts all later entries of the page only for bitmap queries.',
  [('entries and points', DB + ' embedDBPut, embedDBFlush, indexPage, makeSpaceInIndexPage')],
  note='The spline and the search structure itself are not decided here.')

p('P49', 'A lookup gives up only after excluding every place the key could be',
  'embedDBGet returns failure only if a storage operation failed or the comparisons made exclude the key from everywhere: every logical page from the oldest live page (or from the range given '
  'by the spline, which is asked for this key) to the newest one, every record of the page chosen, and the write buffer. With keys in order, a page is excluded by comparing the key with the first or last '
  'record of that or a neighbouring page; the page and record searches may not step over one, stop early, or read a physical page other than the one searched.',
  ['inputs', 'configurations', 'histories'],
  'all paths of the lookup including both page searches and the record search, all page counts, wraps of the data file, records per page and contents of the write buffer',
  'A search that stops a page or record early fails only for keys at the edge of its range with particular page counts; the tests look up few sizes.',
  [('lookup', DB + ' embedDBGet, searchBuffer, binarySearch, splineSearch, linearSearch, embedDBSearchNode')],
  note='Takes the bounds of the spline estimate as correct and the comparator as a consistent order; no overflow of page arithmetic is assumed.')

p('P45', 'Reopening a data file takes over exactly its live pages',
  'When a database without record-level consistency is opened on an existing data file, the pages are scanned from the first page (or, if that is not valid, the first page of the second block) as long as each page has the number '
  'after the one before it and the number that belongs at its position; a first page is valid only if its record count is one a page can have. The next page number then follows the last page accepted; the first page '
  'number is the one at the next block boundary if that page is in its place and otherwise the one the scan began with; the number of free pages follows from the two; a block at whose boundary the scan stopped is erased '
  'before it is given up; each page from the first to the last is added to the spline once, in order, with its first key; a file without valid pages is empty.',
  ['crash_points', 'configurations', 'histories'],
  'all contents of the data file, file sizes, block sizes and stops of the scan, with storage failures at every read',
  'The tests reopen a few files; where the scan stops relative to the blocks and the end of the file depends on the number of pages written before the crash.',
  [('recovery of the data file', DB + ' embedDBInitDataFromFile')],
  note='Decides which pages are read, accepted and reported for every outcome of the page checks; that the numbers on storage are those written is P05 and P07.')

p('P50', 'Reopening with record-level consistency restores the records saved',
  'When a database with record-level consistency is opened on an existing data file, the pages are scanned as without it (with four candidates for the first page); the two temporary blocks then begin at the next block '
  'boundary (modulo the file), all of their pages up to one that cannot be read are looked at, and of those numbered as the page that comes next the first one with the most records is put into the write buffer whole. '
  'The next temporary page goes behind it, and the other temporary block is erased (both if there is no such page), never the one that holds it, and never outside the file; a block given up at a boundary is erased. The first page number is the one '
  'behind the temporary blocks if that page is in its place; free pages exclude the two blocks.',
  ['crash_points', 'configurations', 'histories'],
  'all contents of the data file, file sizes, block sizes and crash points, with storage failures at every read and erase',
  'The tests reopen a few files; a wrong choice shows only for particular positions of the last temporary page and the end of the file.',
  [('recovery with record-level consistency', DB + ' embedDBInitDataFromFileWithRecordLevelConsistency')],
  note='Decides which pages are read, taken, erased and reported for every outcome of the page checks. Page numbers are taken not to reach their limit.')

p('P51', 'Reopening a variable data file takes over exactly its live pages',
  'When a database is opened on an existing variable data file, the pages are scanned from the first page, or, if that one is not in its place, from the first page of the second block, as long as each has the number after the one before it and is in its '
  'place; a page whose number and key are both 0 counts only if the page after it has the next number. The next page number follows the last page accepted and the write position is the start of the data area of that page; '
  'the first page is the one at the next block boundary if that is in its place, and otherwise the one the scan began with; the number of free pages follows from the two. If no page was overwritten (the first page has number 0), the first key with data is the '
  'first key stored (on the first data page, or in the write buffer if only that was recovered), and otherwise one more than the key in the header of the first page. A block at whose boundary the scan stopped is erased; a file without valid pages is empty.',
  ['crash_points', 'configurations', 'histories'],
  'all contents of the variable data file, file sizes, block sizes and stops of the scan, with storage failures at every read and erase',
  'The tests reopen a few files; where the scan stops relative to the blocks and the end of the file depends on the amount of variable data written before the crash.',
  [('recovery of the variable data file', DB + ' embedDBInitVarDataFromFile')],
  note='Decides which pages are read, accepted and reported for every outcome of the page checks. Page numbers are taken not to reach their limit.')
p('P52', 'Reopening an index file takes over exactly its live pages',
  'When a database is opened on an existing index file, the pages are scanned from the first page, or, if that one is not valid (number in its place, count of bitmaps one a page can have), from the first page of the second block, as long as each has the number after '
  'the one before it. The next page number follows the last page accepted; the first page is the page the scan stopped at if its number shows that it is the oldest one and the file is full, otherwise the page at the next block boundary if that is in its place and older, '
  'and otherwise the one the scan began with; the number of free pages follows from the two; a file without valid pages is empty.',
  ['crash_points', 'configurations', 'histories'],
  'all contents of the index file, file sizes, block sizes and stops of the scan, with storage failures at every read',
  'The tests reopen a few files; where the scan stops relative to the blocks and the end of the file depends on the number of index pages written before the crash.',
  [('recovery of the index file', DB + ' embedDBInitIndexFromFile')],
  note='Decides which pages are read, accepted and reported for every outcome of the page checks. Page numbers are taken not to reach their limit.')
p('P53', 'Stored data is dropped only when a reset is asked for',
  'Initialisation opens an existing file with its contents unless the configuration asks for a reset, and never takes contents over when it does; a file is created empty only if a reset is asked for, or opening it with its contents failed, or, for variable data, no record is stored '
  '(no data page, and no record-level consistency whose temporary pages may hold records). Success means that the file is open.',
  ['configurations', 'crash_points', 'fault_sequences'],
  'all configurations, contents of the data file and failures of every open',
  'The tests open files in a few configurations; emptying a file is noticed only where its contents are looked at afterwards.',
  [('opening of the files', DB + ' embedDBInitData, embedDBInitIndex, embedDBInitVarData')],
  note='Decides the mode of every open of the three storage files.')
p('P14', 'Nothing that a configuration does not have is ever used',
  'No call uses the index file, the variable data file, the pages of the buffer that only the index or variable data need, the spline, or the bitmap functions, unless the configuration has them: '
  'without an index, variable data, bitmaps or the spline the corresponding pointers may be unset and the buffer may have only two pages (four with one of index and variable data).',
  ['configurations', 'inputs'], 'all configurations and all arguments of the calls',
  'Each test configures what it uses; that a part is touched although it is not configured shows only as damage to memory behind a small buffer or with unset pointers.',
  [('guards of options', DB + ' all public functions and the page functions they call'), ('preparation of the options', DB + ' embedDBInit and its parts')],
  note='The pointers that a configuration does need are taken to be set; P13 decides which of them are refused when missing.')
p('P54', 'Statistics count every page transfer exactly once',
  'The counters of page reads, page writes, index page reads and index page writes grow by one for each transfer of a page of the data and variable data files, respectively of the index file, that succeeded, and by nothing else: not for pages found in the buffer, '
  'not for transfers that failed, not twice. Temporary pages of record-level consistency are not counted. The counter of buffer hits grows in steps of one. All counters are zero after a reset and after initialisation.',
  ['histories', 'fault_sequences'], 'all histories, buffer contents and failures of transfers',
  'No test compares the counters with the transfers that took place; users size buffers and indexes by them.',
  [('counters', DB + ' readPage, readIndexPage, readVariablePage, writePage, writeIndexPage, writeVariablePage, embedDBResetStats')],
  note='Which pages are buffered is P03.')
p('P55', 'Only the sign of a comparison counts',
  'Wherever the database uses the result of a comparison function of the user, for keys or for data, all positive results mean the same, and so do all negative ones: functions that return a difference work like those that return -1, 0 and 1.',
  ['inputs', 'configurations'], 'all 256 results of every comparison',
  'The comparison functions of the tests and examples return only -1, 0 and 1.',
  [('tests of results', DB + ' embedDBPut, searches, iterators, minimum and maximum of a page'), ('search for a spline segment', 'src/spline/spline.c splineFind, pointsBinarySearch')],
  note='Which way each test must go is decided by P07, P08, P16 and P19.')
p('P43', 'Nothing is ever divided by zero',
  'No call divides an integer by zero, or takes a remainder by zero, whatever the configuration: page counts, erase size, page size, record size, records per page, bitmap size and the size of the spline are refused by initialisation when they would be zero where they are divided by, '
  'are not divided by before that, and are never set to zero afterwards; sizes of features that are not used are not divided by at all.',
  ['configurations', 'inputs'], 'all configurations and all arguments of the calls',
  'A division by zero needs one particular configuration value, which the tests never use, and then stops the program.',
  [('divisors in page arithmetic', DB + ' embedDBPut, embedDBFlush, embedDBPutVar, writePage, writeIndexPage, writeVariablePage, searches'),
   ('checks and divisions while initialising', DB + ' embedDBInit and its parts'), ('size of the spline', 'src/spline/spline.c splineInit, splinePointLocation')],
  note='Integer divisions only; divisions of floating point numbers do not stop the program.')
p('P13', 'Configurations that cannot work are refused and the layout fits',
  'Initialisation succeeds only if the key has 1 to 8 bytes and the data size is not negative, the erase size is not 0, each file used has a number of pages that is a multiple of the erase size and large enough (two erase blocks; four of data pages with an index or record-level consistency; '
  'at least one of variable data), the record and the header fit into their fields and together into a page, the bitmap has at least one byte and does not reach the minimum and maximum, an index page holds at least one bitmap, the buffer has enough pages for the features used, '
  'the spline has at least 4 points, the files needed are given, and every part was initialised without failure. The record size, header size, records per page, bitmaps per index page and the starting values of the page counters are those of the layout.',
  ['configurations'], 'all values of all configuration members and flags',
  'The tests try a few invalid configurations; an unchecked one corrupts memory or storage only in combination with particular sizes.',
  [('configuration checks', DB + ' embedDBInit'), ('checks of the parts', DB + ' embedDBInitData, embedDBInitIndex, embedDBInitVarData')],
  note='Decides which conditions hold at every success exit. Files that exist already are P45 and P50 to P53.')

AQ = 'src/query-interface/advancedQueries.c'
QF = [AQ, 'src/query-interface/schema.c', DIST]
NOQ = 'No reliable test runs the query interface.'
p('P27', 'Selections return exactly the records that satisfy the condition',
  'A selection operator returns exactly those records of its input whose selected column stands in the given relation (less, greater, equal, their negations) to the given value, comparing the '
  'column as signed or unsigned little-endian number as its schema says and over all of its bytes; each is returned once, unchanged, in the order of the input, until the input ends.',
  ['inputs', 'programs'], 'all schemas, columns, relations, values and inputs', NOQ,
  [('selection step and byte-wise comparison', AQ + ' nextSelection, compare, compareUnsignedNumbers, compareSignedNumbers')], files=QF,
  note='Decides the step for every outcome of input and comparison, and the comparison functions byte by byte; initialised operators with valid schemas assumed.')
p('P28', 'Aggregation covers every record of each group exactly once',
  'Each call of an aggregate operator returns one group of consecutive input records: all functions are reset at its start, fed every record of the group exactly once, in particular the first and the last '
  'record, and no record of another group, and computed at its end into the output record; no group is dropped, split or returned twice, and the operator ends after the last group. An aggregation of more functions than a schema can have columns is refused.',
  ['inputs', 'programs', 'histories'], 'all inputs, groupings and numbers of functions', NOQ,
  [('group step', AQ + ' nextAggregate, isLastRecordUsable')], files=QF,
  note='Decides the protocol between input, grouping and functions on all paths, across calls through the state kept; what the functions compute is P29.')
p('P29', 'Aggregate functions read their column and write their result in place',
  'The count, sum, minimum, maximum and average functions start each group afresh, take each value from their column of the record with the width and sign of the schema (for sums and averages the number added is the value of the column, for every width and sign), update '
  'only their state with it (count by one; minimum and maximum replaced exactly when the new value is smaller or larger), and write the result into their own column of the output record with its size.',
  ['inputs', 'programs'], 'all schemas, columns and records', NOQ,
  [('aggregate functions', AQ + ' createCountAggregate, createSumAggregate, createMinAggregate, createMaxAggregate, createAvgAggregate')], files=QF,
  note='Decides addresses, sizes, signs and updates on each path; rounding of the floating-point average and overflow of sums are not decided.')
p('P30', 'Key joins return every pair of records with equal keys, once',
  'The key join of two inputs sorted by key returns, for each key that occurs in both, the record of the first followed by the record of the second; it moves forward the input with the smaller '
  'key and both after a match, reads the first record of each input once, and ends only when one input has ended. A join whose inputs have more columns together than a schema can have is refused.',
  ['inputs', 'programs', 'histories'], 'all pairs of sorted inputs and schemas', NOQ,
  [('join step', AQ + ' nextKeyJoin, firstCall')], files=QF,
  note='Decides the step for every outcome of the inputs and comparisons, and its state between calls.')
p('P31', 'Projections and table scans pass on the right columns and records',
  'A projection outputs, for each input record, exactly the chosen columns in the order given, each with its size from its place in the input record, under a schema that '
  'says so; a table scan outputs exactly the records of its iterator, key first and data behind it, in a buffer as large as the record. Both end only with their input.',
  ['inputs', 'programs'], 'all schemas, column choices and iterators', NOQ,
  [('projection and scan steps', AQ + ' nextProjection, initProjection, nextTableScan, initTableScan')], files=QF,
  note='Decides positions, sizes and schema of each column by loop analysis; valid column numbers assumed.')

SPL = 'src/spline/spline.c'
DESK, SDI, DFI = 'lib/Desktop-File-Interface/desktopFileInterface.c', 'lib/SD-File-Interface/SDFileInterface.c', 'lib/Dataflash-File-Interface/dataflashFileInterface.c'
p('P33', 'File interfaces keep each page in its place and report failures',
  'In the desktop, SD card and data flash interfaces, read and write transfer exactly one page between the buffer and the place pageNum * pageSize of the file given (page startPage + pageNum within numPages on the data flash), without overflow for large desktop files, '
  'and return non-zero exactly if the place was reached and the whole page transferred; a desktop erase changes only the pages from startPage up to endPage and reports failures; open creates an empty file for W_PLUS, opens an existing one for R_PLUS, refuses other modes, and returns non-zero '
  'exactly if it got a handle, which it keeps; flush returns non-zero exactly if the file was flushed; close and tear-down close the file, a closed file is not kept; a file that is set up has its own copy of the whole name and no handle; each function is in the slot of the interface it serves.',
  ['inputs', 'fault_sequences'], 'all page numbers and sizes and all failures of the library calls', FAULT,
  [('desktop files', DESK + ' FILE_READ, FILE_WRITE, FILE_OPEN, FILE_FLUSH, FILE_CLOSE, MOCK_FILE_ERASE, setupFile, tearDownFile'), ('SD card files', SDI), ('data flash', DFI)], files=[DESK, SDI, DFI],
  note='The behaviour of the C library and of the SD and data flash drivers is taken as documented; the data flash and SD sources are analysed with stand-ins for the board headers.')
p('P34', 'Heap memory is checked, used within bounds, freed once and never lost',
  'In the storage core, the spline, the query interface and the file interfaces, no function uses the result of an allocation that failed, reads or writes outside the bytes allocated (including the points of the spline, for every number of points and key size), '
  'uses or frees memory again after freeing it, or frees anything but the start of an allocated object; whatever a function allocates is released by it or can be reached from its result or arguments when it returns, on failures too, '
  'and no object that lives on is left pointing to memory that was freed.',
  ['inputs', 'histories', 'fault_sequences'], 'all inputs, configurations, spline fill levels and combinations of failing allocations within each call',
  'Allocations never fail in the tests, which run without memory checking.',
  [('spline set-up, points and closing', SPL + ' splineInit, splineAdd, splineErase, splineFind, splineClose'), ('query operators', AQ + ' create*, init*, next*, close*, embedDBFreeOperatorRecursive'),
   ('streams, iterators and set-up', DB + ' embedDBSetupVarDataStream, embedDBInitIterator, embedDBInit')], files=[DB, SPL, DESK, SDI, DFI] + QF,
  note='Decided within each call, with objects of unknown size (caller buffers, the page buffer) not bounded; products of sizes are taken not to overflow. What outlives the call is P42.')
p('P32', 'Schemas describe exactly the columns given',
  'embedDBCreateSchema accepts exactly the schemas whose column sizes are positive and whose signedness is one of the two constants, and the schema it returns has that many columns with the size of each, '
  'negated for signed columns; copySchema returns a separate equal schema; a column offset is the sum of the sizes before it, and the record size and the buffer of createBufferFromSchema are the sum of all.',
  ['inputs'], 'all sizes and signs of 0 to 6 columns (creation 1 to 3, the sums also 255 columns)',
  'The tests use a few fixed schemas; a wrong offset, sign or width shows only for other numbers or sizes of columns.',
  [('schemas', 'src/query-interface/schema.c')], files=QF,
  note='The number of columns is bounded, the sizes are not: they are intervals. The loops treat every column alike.')

p('P24', 'Counts, positions and page numbers are never cut off',
  'No record count or position in a page and no page or record number is converted to a type too narrow for all of its values, and no loop over them counts in a narrower type, so pages with more than 127 or 255 '
  'records and databases with more than 32767 or 65535 pages work like small ones.',
  ['inputs', 'configurations', 'histories'], 'all page sizes, record sizes and numbers of pages',
  'The tests use small pages and few of them.',
  [('declared types count_t and id_t', 'src/embedDB/embedDB.h, embedDB.c, src/spline/spline.c')],
  note='Decides conversions of values whose declared type tells what they are; values that wrap around in the full width are P12 and P02.')
p('P26', 'Discarding spline points keeps every remaining page reachable',
  'When the oldest pages are overwritten, a point of the spline is discarded only if the point after it belongs to the oldest page left or one before it, so a segment covering every remaining page stays; '
  'at least two points always remain, and discarding advances the start of the ring and lowers the count by exactly the number discarded, or changes nothing and reports failure.',
  ['histories', 'inputs'], 'all splines, page numbers and wrap-around positions of the ring',
  'The tests clean the spline a few times with regularly spaced keys.',
  [('cleanSpline', 'src/embedDB/embedDB.c'), ('splineErase', 'src/spline/spline.c')],
  note='That points are ordered by page is part of P15.')
p('P35', 'No state is kept outside the objects that functions are given',
  'What a function of the library or of a file interface does depends only on its arguments and the objects they lead to: nothing is kept in global or function-level static variables from call to '
  'call, and no random number, clock or other hidden state is consulted, so several databases, iterators and queries can be used side by side in any order.',
  ['histories', 'programs'], 'all interleavings of calls on different objects',
  'The tests use one database after the other, rarely two in turn.',
  [('all functions', 'src/, lib/EmbedDB-Utility, lib/Distribution, lib/*-File-Interface')],
  note='State of the file system and of the C library streams is outside the claim.')
p('P37', 'Turning on error messages changes nothing else',
  'With PRINT_ERRORS defined every function computes the same results, makes the same calls in the same order and writes the same memory as without; only messages are added.',
  ['configurations', 'inputs', 'programs'], 'all inputs, both settings of PRINT_ERRORS',
  'The tests are built with one setting.',
  [('error messages', DB + ', src/query-interface, lib/Desktop-File-Interface: #ifdef PRINT_ERRORS')],
  note='Printing itself is taken to have no effect on the program.')
p('P39', 'Comparators order numbers by value',
  'int32Comparator and int64Comparator return a negative, zero or positive number as the first value is less than, equal to or greater than the second, for every pair of values and without overflow; '
  'compareSignedNumbers and compareUnsignedNumbers do so for little-endian numbers of any column size, and compare() is true exactly when the operation asked for holds.',
  ['inputs'], 'all pairs of values; column sizes 1 to 8, 16 and 127 bytes',
  'The order of keys decides where every record is found; the tests compare small values of similar size.',
  [('key comparators', 'lib/EmbedDB-Utility/embedDBUtility.c'), ('column comparisons', AQ + ' compareUnsignedNumbers, compareSignedNumbers, compare')], files=QF + ['lib/EmbedDB-Utility/embedDBUtility.c'],
  note='Both values are treated as intervals with an order relation between them; byte-wise comparisons byte by byte from whichever end the code chooses.')

p('P40', 'Bitmap helpers never exclude a value that is in range',
  'For each of the bitmap helpers: updating sets at least one bit for every value, keeps the others and stays inside the bitmap; the bitmap built from a range has in common with every value between min and '
  'max a bit that updating sets for it, also when min or max is missing, and all of it is set; a value is reported as in a bitmap exactly when its bit is set there.',
  ['inputs'], 'all values (16-bit for the 8-bit bitmap, 32-bit for the others), ranges and bitmaps',
  'A record outside the bitmap built for a query is skipped without a trace; the tests use values in few of the buckets.',
  [('bitmap helpers', 'lib/EmbedDB-Utility/embedDBUtility.c' + ' updateBitmapInt*, inBitmapInt*, buildBitmapInt*FromRange')], files=['lib/EmbedDB-Utility/embedDBUtility.c'],
  note='The loops over the buckets are followed with the value as an interval, so all values are covered. That a bitmap excludes as much as possible is not required.')

p('P42', 'Closing releases everything that initialising acquired',
  'embedDBClose closes each file that embedDBInit opened under the same flags and frees the spline; closing an iterator, a spline, a schema or an operator, and tearing down a file, frees every object that its initialisation or creation left in its members, closing an '
  'operator also closes each input it initialised, and embedDBFreeOperatorRecursive frees the operator and what its creation allocated; closing leaves the link to the input for it. Initialising an operator again does not lose what it still holds.',
  ['configurations', 'histories'], 'all flag combinations and all success paths of the initialising functions',
  'The tests do not look for leaks or for files left open.',
  [('closing', DB + ' embedDBClose, embedDBCloseIterator'), ('spline', SPL + ' splineClose'), ('operators and schemas', AQ + ' close*, embedDBFreeOperatorRecursive; schema.c embedDBFreeSchema'), ('files', DESK + ' setupFile, tearDownFile')], files=[DB, SPL, DESK, SDI, DFI] + QF,
  note='The members to release are computed from the initialising functions on every run. The file handles themselves belong to the file interface; the second input of a join to the caller.')

p('P15', 'No outcome depends on a local variable that was never set',
  'On every path of initialisation, insertion, flushing, lookup, iteration, streaming, the spline, the query operators, the bitmap helpers and comparators and the file interfaces, no branch, address, '
  'divisor, size, argument, stored value or result depends on a local variable that the path did not set, and a number that receives a key or a data value of keySize or dataSize bytes had all of its '
  'bytes set before.',
  ['inputs', 'configurations'], 'all paths and configurations, whatever the stack held before',
  'The value of a variable that was not set depends on what the stack held, so a test passes or fails by the compiler and by what ran before it.',
  [('database', DB + ' all functions'), ('operators and aggregates', AQ + ' all functions'), ('helpers', 'lib/EmbedDB-Utility/embedDBUtility.c'), ('files', DESK)], files=[DB, SPL, DESK, SDI, DFI] + QF,
  note='Loops are analysed until nothing changes, so a variable set only in some iterations counts as not set. Arrays and structures on the stack are followed member by member where the offset is constant.')

p('P41', 'Initialising sets every member that later calls rely on',
  'After embedDBInit has returned success, every member of the state that insertion, lookup, flushing, iteration, streaming or closing may read in that configuration has been given a value by the '
  'caller or by embedDBInit, whatever the structure held before; the same holds for an iterator after embedDBInitIterator, a spline after splineInit, a variable-data stream handed out, an operator '
  'after its creation and after its init, and an aggregate function after its creation and after each reset.',
  ['configurations', 'histories'], 'all flag combinations, whatever memory held before',
  'Whether an unset member happens to be zero depends on what the memory held before, which in the tests is mostly fresh or cleared.',
  [('initialisation', DB + ' embedDBInit, embedDBInitData, embedDBInitIndex, embedDBInitVarData, embedDBInitIterator, embedDBSetupVarDataStream'), ('spline', SPL + ' splineInit'),
   ('operators and aggregates', AQ + ' create*, init*, *Reset')], files=[DB, SPL] + QF,
  note='What is read is computed from the later functions on every run. Members the caller sets by the documentation (sizes, files, callbacks, bounds of an iterator) are listed in the rule. Members of array elements are not followed.')

# --------------------------------------------------------------- not applicable
na('P90', 'Every stored record is found by its key',
   'Looking up the key of any record that is still on storage or buffered returns that record.',
   ['inputs', 'histories', 'configurations'], 'all histories of inserts and all keys stored', 'The tests look up sampled keys in sampled data sets.',
   [('spline estimate, search within the error bound, binary search', DB + ' searchNode, linearSearch, splineFind')],
   'The truth depends on the numeric error bound of the learned index for the actual keys; no static argument in reach bounds it. Its structural clauses are P16 and P19.')
na('P91', 'Reopening restores exactly the state before closing',
   'After flushing, closing and initialising again from the same files, all records, ranges and free-space figures are what they were.',
   ['histories', 'crash_points', 'configurations'], 'all histories and sizes', 'The tests reopen after a few histories.',
   [('recovery scans', DB + ' embedDBInitDataFromFile, embedDBInitIndexFromFile, embedDBInitVarDataFromFile')],
   'Recovery derives the state from page contents by a loop whose result depends on run-time page numbers; relating two executions through storage is beyond a static rule. Its structural clauses are P01, P44 and P45.')
na('P92', 'The learned index stays within its configured error',
   'Estimates of the spline differ from the true page by at most the configured error.',
   ['inputs', 'histories'], 'all key sequences', 'The tests sample a few distributions.',
   [('greedy spline corridor', 'src/spline/spline.c')],
   'Numeric property of floating-point and unsigned arithmetic over unbounded key sequences.', files=['src/spline/spline.c'])
na('P93', 'Both forms of the source behave the same',
   'The amalgamated distribution and the modular sources give the same results for the same calls.',
   ['programs', 'inputs'], 'all programs using the library', 'Each test runs in one form.',
   [('amalgamation', 'scripts')],
   'Equivalence of two programs is not decided by a static rule here; instead every other property is decided for both forms.')
na('P94', 'Lookups take a bounded number of page reads',
   'A lookup reads at most a number of pages determined by the error bound and configuration.',
   ['inputs', 'histories'], 'all data sets', 'Reads are counted only in benchmarks.',
   [('linear search around the estimate', DB + ' linearSearch')],
   'A quantitative bound over run-time key distributions.')
