"""The registry: which rule decides which property, over which entry points."""
from .runner import Prop, EngineJob, PlainJob
from .rules import memory as mem
from .rules import storage as st
from .rules import records as rc
from .rules import reads as rd
from .rules import query as q
from .rules import recovery as rv
from .rules import config as cf
from .rules import adapters as ad
from .rules import initial as ini
from .rules import module as mo
from .rules import splines as sp
from .rules import unset as un
from .rules import helpers as hp
from .rules import division as dv
from .rules import statistics as sx
from .rules import sign as sg
from .rules import provided as pv

PUTS = ['embedDBPut', 'embedDBPutVar']
FLUSHES = ['embedDBFlush', 'embedDBFlushVar']
WRITERS = PUTS + FLUSHES
READERS = ['embedDBGet', 'embedDBGetVar', 'embedDBNext', 'embedDBNextVar']
ALL = ['embedDBInit'] + WRITERS + READERS
STREAM = ['embedDBVarDataStreamRead']

PROPS = {}


def P(pid, jobs, what, **kw):
    PROPS[pid] = Prop(pid, jobs, what, **kw)


def E(rule, entries, flavours=None):
    return [EngineJob(rule, e, flavours=flavours) for e in entries]


P('P01', E(st.FailureReported, ALL + STREAM),
  'Every path of each API function through every storage operation (each forked into success and failure) is followed in the '
  'inlined IR; the typestate remembers the first failed operation and every exit is checked: the value returned must be provably '
  'outside the success values of that function.',
  minimum={'storage operations': 40})
P('P02', E(st.PageIds, WRITERS),
  'The symbolic change of each next-page counter along every path is compared with the number of page writes that succeeded on it.',
  minimum={'permanent page writes': 6, 'counter updates': 9})
P('P03', E(st.CacheCoherent, ALL + STREAM),
  'Typestate per read buffer: every write, erase and failed read leaves an obligation to forget or re-establish the remembered page '
  'number, discharged by the branch facts; no exit may be reached with an open obligation.',
  minimum={'reads': 10, 'writes and erases': 12, 'cache id updates': 10})
P('P04', E(st.Placement, WRITERS),
  'Every page write and erase reachable from the writers is matched, as a normal-form expression over the state, with the physical '
  'page, header number, buffer and size it must have, and with the preceding erase when free space may be zero.',
  minimum={'writes': 6, 'erases': 5, 'reclaims': 5})
P('P05', E(st.FlushDurable, FLUSHES),
  'Every success exit of the flush functions must be preceded by a successful write and then a successful sync of each file with buffered data, and '
  'by the reset of the buffer that was written.',
  minimum={'page writes': 3, 'file flushes': 3})
P('P06', E(st.VarBeforeData, WRITERS),
  'At every permanent data-page write the typestate must show that variable data buffered earlier was written successfully first.',
  minimum={'permanent data page writes': 2})
P('P07', E(rc.KeyOrder, PUTS),
  'Each comparison of the new key is forked into its three results; which record it was compared with is checked as a normal-form address, '
  'and no path may copy the key into the write buffer, or report success, unless the key compared greater or no record exists.',
  minimum={'comparisons with the previous key': 3, 'record copies': 2})
P('P08', E(rc.RecordStored, PUTS),
  'On every success path each copy and store into the write buffer is matched with the place, source and size the record layout '
  'prescribes; at success exits every mandatory piece must have been written, under all comparison results and option flags.',
  minimum={'key copies': 3, 'data copies': 3, 'variable data pointers': 3, 'record count updates': 3, 'success exits': 2})
P('P09', E(rc.RecordLevel, PUTS),
  'Typestate over the inlined insert paths: with record-level consistency enabled no success exit may be reached while the write buffer '
  'or the variable-data buffer holds something not yet written to storage.',
  minimum={'temporary page writes': 2, 'success exits': 2})
P('P10', E(rc.RlcMove, PUTS),
  'At every temporary page write and every move of the blocks, the erased ranges, the new start, the freed pages and the condition of the '
  'move are compared with their prescribed normal forms on each path, including all unrolled iterations of the erase loop.',
  minimum={'temporary page writes': 2, 'block moves': 2})
P('P11', E(rc.RlcInside, PUTS),
  'At every temporary page write the page number is shown to lie in the two blocks by the branch facts on the path, and the other block to have '
  'been erased when the second page of a block is written.',
  minimum={'temporary page writes': 2})
P('P46', E(rc.VarCursor, WRITERS),
  'Typestate linking the variable-data cursor with page writes: every copy must land at the cursor, every step must equal the bytes copied, and after '
  'a page write the cursor must move to the data area of the next page before more data or a success exit.',
  minimum={'variable data page writes': 8, 'cursor updates': 6, 'variable data copies': 2})
P('P12', E(st.FreeSpace, WRITERS),
  'The symbolic change of each free-page counter, first-valid-page counter and the erased blocks along every path must balance.',
  minimum={'permanent page writes': 6, 'counter updates': 9})
P('P44', E(st.FailedReadUnused, ALL + STREAM),
  'Typestate per page buffer: after a failed read into it no load, copy or comparison may use it until it is filled again.',
  minimum={'read operations': 10})
P('P16', E(rd.SearchNode, ['embedDBSearchNode']) + E(rd.Lookup, ['embedDBGet', 'embedDBGetVar']),
  'The page search is analysed on its own with every comparison forked into its three results: the record number it returns must be that of the last record '
  'compared equal. The lookups are then analysed with the search as an oracle that finds or does not find: the data must be copied from the record found.',
  minimum={'key comparisons': 1, 'page searches': 4, 'data copies': 3})
P('P17', E(rd.IterMatch, ['embedDBNext']),
  'Every comparison with a bound is forked into its three results; at each exit that returns a record, the record copied must have passed every bound that is set, '
  'and key and data must come from the same record of the page in the buffer.',
  minimum={'key copies': 1, 'bound comparisons': 4, 'record exits': 1})
P('P18', E(rd.IterBitmap, ['embedDBNext']),
  'At every bitmap test the address, size and the validity of the index entry compared are matched with the page the iterator is at, by the branch facts on the path.',
  minimum={'bitmap tests': 1, 'page steps': 1})
P('P19', E(rd.IterComplete, ['embedDBNext']) + E(rd.IterInit, ['embedDBInitIterator']),
  'Typestate of the iterator position: every record and page step moves by one, pages are left only behind their last record, records are passed over only '
  'after failing a bound, and the end is reported only behind the last page, above the largest key or after a failure.',
  minimum={'record steps': 1, 'page steps': 1, 'end exits': 1, 'exits': 1})
P('P20', E(rd.ReadOnly, ['embedDBGet', 'embedDBGetVar', 'embedDBNext', 'embedDBNextVar', 'embedDBInitIterator', 'embedDBVarDataStreamRead', 'embedDBSearchNode']),
  'Effect analysis over the inlined read functions: every store, copy, fill and storage operation is classified by the member, page buffer or file it changes.',
  minimum={'storage operations': 8, 'state updates': 10, 'page buffer writes': 2})
P('P21', E(rd.VarStreamStart, ['embedDBGetVar', 'embedDBNextVar']) + E(rd.StreamRead, ['embedDBVarDataStreamRead']),
  'The position and length of a new stream are matched with normal forms over the reference in the record; each copy of a stream read is bounded by branch facts '
  'against the buffer, the page and the data left, and the position must advance by what was copied.',
  minimum={'variable data pointers read': 2, 'lengths read': 2, 'copies': 1, 'exits': 1})
P('P22', E(rd.VarLive, ['embedDBGetVar', 'embedDBNextVar']) + E(rd.VarSource, ['embedDBGetVar', 'embedDBNextVar']) + E(rc.VarReclaim, WRITERS) + E(rc.VarNotEmpty, WRITERS),
  'Lookups: on each path the reference and the comparison with the first key that still has data decide what may be returned. Writers: each erase of variable data is '
  'paired with an update of that key from the last page erased.',
  minimum={'success exits': 2, 'erases': 2, 'first key updates': 2, 'comparisons with the first key with data': 2})
P('P47', E(rc.VarContent, ['embedDBPutVar']),
  'Loop analysis with linear relations: bytes placed, bytes left and the source offset stay related, each copy is bounded by the page and the data left, and all bytes '
  'are placed at every success exit; page writes need the key in the page header.',
  minimum={'variable data page writes': 2, 'header keys': 2, 'lengths placed': 1, 'variable data copies': 1, 'success exits': 1})

P('P48', E(rc.PageIndexed, ['embedDBPut', 'embedDBPutVar', 'embedDBFlush']) + E(rc.PageIndexedBitmap, ['embedDBPut', 'embedDBPutVar', 'embedDBFlush']),
  'Typestate from each data page write: its bitmap must be copied behind the last entry of an index page that has room, counted once, and its first key and number given to '
  'the spline before the write buffer is cleared, another page written or success returned; a new index page must name the next data page.',
  minimum={'permanent data page writes': 2, 'index entries': 2, 'index entries counted': 2, 'spline points': 2, 'success exits': 2})

P('P49', E(rd.SearchComplete, ['embedDBGet']),
  'Symbolic search ranges (pages, records of the page read, records of the write buffer) are narrowed by each comparison with the key; every exit without the '
  'record must come after a storage failure or with all ranges empty, decided by linear entailment.',
  minimum={'key comparisons': 3, 'exits without the record': 1, 'pages read': 1, 'spline estimates': 1})

# ---------------------------------------------------------------- recovery
P('P45', E(rv.RecoverData, [rv.part('embedDBInitData')]),
  'Ghost positions follow the recovery scan: each page read must be the one the prescribed order asks for, be accepted or refused by the prescribed tests (known from the '
  'branch facts), and the counters, the first page number, the block erased and the spline points at success are compared with normal forms over them.',
  minimum={'pages read': 2, 'first page numbers set': 1, 'success exits': 1})
P('P50', E(rv.RecoverRlc, [rv.part('embedDBInitData')]),
  'As P45, with the two temporary blocks behind the scan: which of their pages are read, compared and taken, which block is erased, what is copied into the write buffer and where '
  'the next temporary page goes are compared with ghosts on each path.',
  minimum={'pages read': 4, 'erases': 1, 'pages restored': 1, 'first page numbers set': 1, 'success exits': 1})
P('P51', E(rv.RecoverVar, [rv.part('embedDBInitVarData')]),
  'As P45: the scan of the variable-data file is followed with ghost positions, an ambiguous first page being decided by the one after it; each value concluded is compared, where it is stored, '
  'with a normal form over the pages accepted and the page that must be in the buffer.',
  minimum={'pages read': 2, 'first page numbers set': 1, 'success exits': 1})
P('P52', E(rv.RecoverIndex, [rv.part('embedDBInitIndex')]),
  'As P45 for the index file, with the page that ended the scan compared with the oldest page number before it is given up.',
  minimum={'pages read': 2, 'first page numbers set': 1, 'success exits': 1})
P('P53', E(rv.RecoverOpen, [rv.part('embedDBInit' + x) for x in ('Data', 'Index', 'VarData')]),
  'At every open of a storage file the mode is matched with what the branch facts say about the reset flag, earlier failed opens and the data already stored.',
  minimum={'opens': 3, 'success exits': 1})
P('P13', E(cf.Config, ['embedDBInit']) + E(cf.PartConfig, [rv.part('embedDBInit' + x) for x in ('Data', 'Index', 'VarData')]),
  'At every success exit the branch facts taken on the path must entail each condition of a workable configuration, and each layout value must be the normal form prescribed for the flags of the path.',
  minimum={'success exits': 2})

P('P43', E(dv.Division, ['embedDBPut', 'embedDBPutVar', 'embedDBGet', 'embedDBGetVar', 'embedDBNext', 'embedDBNextVar', 'embedDBVarDataStreamRead', 'embedDBFlush',
                         'splineErase', 'splineAdd', 'splineFind'])
  + E(dv.DivisionInit, ['embedDBInit']) + E(dv.DivisionPart, [rv.part('embedDBInit' + x) for x in ('Data', 'Index', 'VarData')]) + E(dv.DivisionSpline, ['splineInit']),
  'At every integer division and remainder the branch facts must exclude a zero divisor, or the divisor is a size that, by the same rule applied to initialising, is positive in the configuration at hand and never set to zero later.',
  minimum={'divisions': 10, 'success exits': 2})

P('P14', E(pv.Provided, ALL[1:] + STREAM + ['embedDBInitIterator', 'embedDBClose', 'embedDBPrintStats'] + [rv.part('embedDBInit' + x) for x in ('Data', 'Index', 'VarData')])
  + E(pv.ProvidedInit, ['embedDBInit']),
  'Every file operation, access to the page buffer, use of the spline and call of a bitmap function must be under branch facts that imply that the configuration has the file, page, spline or bitmap.',
  minimum={'operations on files of options': 5, 'uses of page buffers of options': 5, 'uses of the spline': 3, 'bitmap functions': 1})

P('P54', E(sx.Statistics, ALL[1:] + STREAM) + E(sx.ResetStatistics, ['embedDBResetStats', 'embedDBInit']),
  'Along every path through every page transfer (each forked into success and failure) the transfers that succeeded are weighed against the changes of each counter; at every return they must balance, and every change must be by one.',
  minimum={'transfers': 6, 'counter updates': 6, 'resets': 2})

# ---------------------------------------------------------------- query interface
OPER, AGGF = 'embedDBOperator', 'embedDBAggregateFunc'
AGGS = ['Count', 'Sum', 'Min', 'Max', 'Avg']


def O(creator, member):
    return q.slot(creator, member, OPER)


P('P27', E(q.Select, [O('createSelectionOperator', 'next')]) + E(q.CompareBytes, ['compareUnsignedNumbers', 'compareSignedNumbers'])
  + E(q.InitSelection, [O('createSelectionOperator', 'init')]) + E(q.Create, ['createSelectionOperator']),
  'The selection step is analysed with its input and the comparison as oracles, each result forked, and with each operator code: records are returned exactly on the results '
  'the code stands for, unchanged. The comparisons are analysed separately by a loop analysis: bytes from the most significant down, equal only if all are.',
  minimum={'comparisons': 1, 'bytes loaded': 2, 'exits': 3, 'record copies': 1})
P('P28', E(q.Aggregate, [O('createAggregateOperator', 'next')]) + E(q.InitAggregate, [O('createAggregateOperator', 'init')]) + E(q.Create, ['createAggregateOperator'])
  + [PlainJob(mo.counters(O('createAggregateOperator', 'next')), 'counters')],
  'The group step is analysed with input, grouping and functions as oracles; ghost counters follow which functions were reset, fed and computed for each record, and typestate '
  'which record starts, continues and ends a group. A counter of records narrower than the input must not wrap around.',
  minimum={'add calls': 1, 'group tests': 1, 'compute calls': 1, 'reset calls': 1})
P('P29', [j for c in AGGS for t, mm in ((q.RESET, 'reset'), (q.ADD, 'add'), (q.COMPUTE, 'compute')) for j in E(t[c.lower()], [q.slot('create%sAggregate' % c, mm, AGGF)])]
  + E(q.Create, ['create%sAggregate' % c for c in AGGS]) + [PlainJob(hp.guarded(hp.sums), 'sums')],
  'Each aggregate function is found through the slot its creator fills and analysed on its own: effects on its state and the bytes read and written are matched with normal '
  'forms over the column and schema on every path.',
  minimum={'exits': 15, 'results': 5, 'values read': 2, 'created': 5})
P('P30', E(q.Join, [O('createKeyJoinOperator', 'next')]) + E(q.InitJoin, [O('createKeyJoinOperator', 'init')]) + E(q.Create, ['createKeyJoinOperator']),
  'The join step is analysed with both inputs and the comparison as oracles, all results forked: which input may move after which comparison, which pairs are output and when the '
  'join may end are decided on every path, including the state kept between calls.',
  minimum={'input steps': 2, 'key comparisons': 1, 'record copies': 2})
P('P31', E(q.Project, [O('createProjectionOperator', 'next')]) + E(q.InitProjection, [O('createProjectionOperator', 'init')])
  + E(q.Create, ['createProjectionOperator', 'createTableScanOperator']) + E(q.Scan, [O('createTableScanOperator', 'next')]) + E(q.InitScan, [O('createTableScanOperator', 'init')]),
  'Loop analysis of the projection with a ghost column and position; the scan is checked against the contract of the iterator; the init and create functions for '
  'what the steps need.',
  minimum={'input reads': 1, 'column copies': 1, 'iterator reads': 1, 'created': 2})

# ---------------------------------------------------------------- file interfaces
ROLES, IFACE = ('read', 'write', 'erase', 'open', 'close', 'flush'), 'embedDBFileInterface'
ADAPTERS = [(['desktop', 'desktop+errors'], 'getFileInterface', 'long', 'setupFile', 'tearDownFile'),
            (['desktop', 'desktop+errors'], 'getMockEraseFileInterface', 'long', 'setupFile', 'tearDownFile'),
            (['sd'], 'getSDInterface', True, 'setupSDFile', 'tearDownSDFile'),
            (['dataflash'], 'getDataflashInterface', False, 'setupDataflashFile', 'tearDownDataflashFile')]
P('P33', [j for fl, get, kind, su, td in ADAPTERS for j in [j for r in ROLES for j in E(ad.adapter(r, kind, su), [q.slot(get, r, IFACE)], fl)]
          + E(ad.adapter('teardown', kind, su), [td], fl) + E(ad.Setup if kind else ad.SetupDirect, [su], fl)],
  'Each function is found through the slot of the interface it fills and analysed on its own: handle, place, size and buffer of each transfer are matched with normal forms over the parameters, and at every exit '
  'the result is evaluated under both outcomes of the transfer, flush or open.',
  also={'desktop': {'positions': 4, 'transfers': 4, 'exits': 12, 'files opened': 2, 'files closed': 2, 'flushes': 1},
        'sd': {'positions': 2, 'transfers': 2, 'exits': 7, 'files opened': 2, 'files closed': 1, 'flushes': 1}, 'dataflash': {'transfers': 2, 'exits': 7}})

# ---------------------------------------------------------------- memory
OPS = ['createTableScanOperator', 'createProjectionOperator', 'createSelectionOperator', 'createAggregateOperator', 'createKeyJoinOperator']
ENTRIES = ([rv.part('embedDBInit' + x) for x in ('Data', 'Index', 'VarData')] + ['embedDBPut', 'embedDBPutVar', 'embedDBFlush', 'embedDBGet', 'embedDBGetVar', 'embedDBNext', 'embedDBNextVar',
                  'embedDBInitIterator', 'embedDBVarDataStreamRead', 'embedDBClose', 'splineAdd', 'splineErase', 'splineFind', 'splineBuild',
                  'embedDBCreateSchema', 'embedDBFreeSchema', 'copySchema', 'createBufferFromSchema', 'exec', 'embedDBFreeOperatorRecursive']
      + ['create%sAggregate' % c for c in AGGS] + OPS + [O(c, s) for c in OPS for s in ('init', 'next', 'close')]
      + [q.slot('create%sAggregate' % c, s, AGGF) for c in AGGS for s in ('reset', 'add', 'compute')])
P('P34', E(mem.HeapInit, ['embedDBInit']) + E(mem.HeapSpline, ['splineInit'])
  + E(mem.Heap, ENTRIES)
  + E(mem.HeapEnd, ['splineClose', 'embedDBCloseIterator'])
  + [j for fl, get, kind, su, td in ADAPTERS for j in E(mem.Heap, [get, su] + [q.slot(get, r, IFACE) for r in ROLES], fl) + E(mem.HeapEnd, [td], fl)],
  'Typestate of every object allocated or released on each path (malloc forked into success and failure); accesses are compared with the size allocated by linear entailment; at each exit '
  'every object must be released or reachable from the result or the arguments, and nothing may point to released memory.',
  minimum={'allocations': 8, 'releases': 8, 'accesses to allocated memory': 20, 'exits': 20, 'objects': 5})
P('P42', E(mem.releases('embedDBInit'), ['embedDBClose']) + E(mem.releases('embedDBInitIterator'), ['embedDBCloseIterator']) + E(mem.releases('splineInit'), ['splineClose'])
  + E(mem.releases('embedDBCreateSchema', 'copySchema', prefix=(0,)), ['embedDBFreeSchema'])
  + E(mem.releases(*OPS, prefix=(0,)), ['embedDBFreeOperatorRecursive']) + [j for c in OPS for j in E(mem.releases(O(c, 'init')), [O(c, 'close')])]
  + E(mem.Reinit, [O(c, 'init') for c in OPS]) + E(mem.KeepInput, [O(c, 'close') for c in OPS])
  + [j for fl, get, kind, su, td in ADAPTERS for j in E(mem.releases(su), [td], fl)],
  'The members that hold allocated objects, opened files or initialised inputs are collected, with the configuration flags, at every success exit of the initialising function; '
  'every exit of the closing function with matching flags must have released, closed or found null each of them.',
  minimum={'objects to release': 10, 'files to close': 3, 'inputs to close': 2, 'members set again': 4, 'operators closed': 3})

# ---------------------------------------------------------------- initialisation
LATERDB = ['embedDBPut', 'embedDBPutVar', 'embedDBFlush', 'embedDBFlushVar', 'embedDBGet', 'embedDBGetVar', 'embedDBNext', 'embedDBNextVar', 'embedDBInitIterator', 'embedDBVarDataStreamRead', 'embedDBClose']
P('P41', (E(ini.initialised('embedDBState', 'embedDBState', ini.CONFIG, LATERDB), ['embedDBInit'])
  + E(ini.initialised('embedDBIterator', 'embedDBIterator', ini.BOUNDS, ['embedDBNext', 'embedDBNextVar', 'embedDBCloseIterator']), ['embedDBInitIterator'])
  + E(ini.initialised('spline', 'spline', (), ['splineAdd', 'splineFind', 'splineErase', 'splineClose'], later=['lastLoc']), ['splineInit'])
  + E(ini.initialised('embedDBVarDataStream', 3, (), ['embedDBVarDataStreamRead']), ['embedDBGetVar'])
  + E(ini.initialised('embedDBVarDataStream', 4, (), ['embedDBVarDataStreamRead'], truth=True), ['embedDBNextVar'])
  + [j for c in OPS for j in E(ini.initialised(OPER, OPER, (), [O(c, 'next'), O(c, 'close')], [(c, 'result')], done='recordBuffer'), [O(c, 'init')])]
  + [j for c in OPS for j in E(ini.initialised(OPER, 'result', (), [O(c, 'init')]), [c])]
  + [j for c in AGGS for j in E(ini.initialised(AGGF, 'result', (), [q.slot('create%sAggregate' % c, 'reset', AGGF)]), ['create%sAggregate' % c])]
  + [j for c in AGGS for j in E(ini.initialised(AGGF, AGGF, ('colNum',), [q.slot('create%sAggregate' % c, s, AGGF) for s in ('add', 'compute')], [('create%sAggregate' % c, 'result')]), [q.slot('create%sAggregate' % c, 'reset', AGGF)])]),
  'The members of a structure that the later functions read without having set them are collected from their code, with the configuration in which they are read; at every success exit of the '
  'initialising function in a compatible configuration each of them must have been stored to, in the structure itself or in the object the initialising function allocated for it.',
  minimum={'members relied on': 60})
UTIL = [f % t for t in ('8', '16', '64') for f in ('updateBitmapInt%s', 'inBitmapInt%s', 'buildBitmapInt%sFromRange')] + ['int32Comparator', 'int64Comparator']
P('P15', E(un.UnsetInit, ['embedDBInit']) + E(un.Unset, ['splineInit', 'splineClose', 'embedDBCloseIterator'] + ENTRIES)
  + E(un.Unset, UTIL, ['src', 'src+errors'])
  + [j for fl, get, kind, su, td in ADAPTERS for j in E(un.Unset, [get, su, td] + [q.slot(get, r, IFACE) for r in ROLES], fl)],
  'Value analysis in which a variable without a value is a value of its own, kept at joins; branches, addresses, divisors, stored values, arguments and results must not contain it.',
  minimum={'branches': 100, 'stores': 100, 'exits': 50})

# ---------------------------------------------------------------- helpers
PARTS = ('Partition analysis: the inputs start as whole intervals, conditions on them split the intervals or the order relation of two inputs, and everything else in the function is a constant, an affine '
         'expression of the inputs or a vector of known and unknown bits; the result claimed for each part is compared with the one required.')
P('P32', [PlainJob(hp.guarded(hp.schemas), 'schemas')], PARTS, minimum={'schema results': 60})
P('P39', [PlainJob(hp.guarded(hp.comparators), 'comparators'), PlainJob(hp.guarded(hp.numbers), 'numbers')], PARTS, minimum={'outcomes': 300})
P('P40', [PlainJob(hp.bitmap_job(s), 'bitmaps ' + s) for s in hp.BITMAPS], PARTS, minimum={'value ranges': 60, 'membership tests': 60, 'ranges': 1000})

P('P26', E(sp.Erase, ['splineErase']) + E(sp.Clean, ['cleanSpline']) + E(sp.Caller, ['writePage', 'shiftRecordLevelConsistencyBlocks']),
  'Removal of spline points by linear relations: the number handed to splineErase is at most the number of leading points whose next point was read and found to be before the oldest page, and leaves two; '
  'splineErase moves start and count by exactly that number in the ring, or changes nothing and fails.',
  minimum={'exits': 1, 'removals': 1, 'points found superfluous': 1, 'clean-ups': 1})

# ---------------------------------------------------------------- whole modules
P('P35', [PlainJob(mo.hidden_state, 'hidden state')] + [PlainJob(mo.hidden_state, 'hidden state', flavours=(fl,)) for fl in ('desktop', 'sd', 'dataflash')],
  'Every global and function-level static variable of the linked modules is followed through address arithmetic to its uses; one that is written and whose value is used for anything but its own '
  'update, and every call of a library function with hidden state, is a violation.',
  minimum={'functions': 60})
P('P37', [PlainJob(mo.same_with_errors, 'same with errors')] + [PlainJob(mo.same_with_errors, 'same with errors', flavours=('desktop',))],
  'Each function is compiled with and without PRINT_ERRORS, the calls that print are removed, dead computations and empty branches eliminated in both, and the canonical texts compared.',
  minimum={'functions compared': 60, 'calls that print': 60})
P('P55', [PlainJob(sg.signs, 'signs')],
  'Every result of a comparison function of the user (members compareKey and compareData of the state, comparison parameters) is followed over the SSA form through joins, conversions, arithmetic with constants, arguments and returns; for each '
  'test and switch the outcomes for all 256 values of the result are tabulated, and must be the same for all positive and the same for all negative values.',
  minimum={'comparisons of keys and data': 4, 'tests of results': 8})
P('P24', [PlainJob(mo.narrowing, 'narrowing'), PlainJob(mo.counters(), 'counters')],
  'Width analysis over the SSA form: the bits that values stemming from record counts, positions, page and record numbers need are propagated through arithmetic, joins and calls by their declared '
  'types; each conversion to a narrower type and each comparison with a narrower counter is a violation.',
  minimum={'comparisons': 40, 'functions with counts or numbers': 15, 'conversions': 10})
