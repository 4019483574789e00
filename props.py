"""what decides each property: contracts (proved), harness (replay and bounded search)"""
PROPS = {}
def P(id, contracts, harness=None, **k): PROPS[id] = dict(contracts=contracts, harness=harness, **k)
P('C01', [('bucket', ['Update', 'UpdateAlias', 'ExpUpdate', 'CollatedUpdate', 'CopyTime', 'Make', 'Clear', 'SetCount'])], 'bucket', secs=(5, 60), oracle='the field-by-field merge rules evaluated in IEEE arithmetic; folds of exactly representable samples against plain sums',
  note='Every field of every merge, blend and collated update equals the stated formula, for all bit patterns. The rounding of single float operations is the machine\'s own: + - * are uninterpreted in the proof, so the claim is that exactly these operations are applied to these operands.')
P('C02', [('bucket', ['GetTime', 'GetSum', 'GetSumSq', 'GetMin', 'GetMax', 'GetCount', 'Avg', 'Sdev'])], 'bucket', secs=(5, 60), oracle='IEEE evaluation of the formulas',
  note='All getters proved for all bit patterns; sqrt is assumed to return NaN or a non-negative number.')
P('C03', [('statfile', ['MapTime', 'MapIndexToTime', 'InFile', 'ToSlot', 'SlotLemma'])], 'statfile', oracle='128-bit integer arithmetic of the interval/slot rules',
  note='Proved for all file geometries with interval >= 1, 256 <= capacity < 2^47 and |time| <= 2^61. Times before the creation time that are not on an interval boundary are the known finding (truncation toward zero).')
HISTORY = 'a model of the file (slots, window, totals, pending intervals) replayed next to random histories of updates, reads, flushes, reopenings and mapping failures'
P('C04', [('statfile_upd', ['RawUpdate', 'RawUpdateReadOnly', 'UpdateBucket']), ('statfile', ['InFile', 'ToSlot', 'SlotLemma'])], 'statfile', secs=(8, 120), oracle=HISTORY,
  note='rawUpdateBucket proved against a ghost array holding all buckets of the file, for every state with first <= last and every mode; the bucket accessors it uses are contracts, proved at page level under C05.')
P('C05', [('statfile_pages', ['ReplaceMap', 'MapSinglePage', 'MapBucketPage', 'WritableBucketLow', 'PageOffsets', 'PageOfSlot', 'FlushPages', 'Destroy'])], 'statfile', secs=(8, 120), oracle=HISTORY,
  note='Accesses made for writing (all accesses inside StatFile are). The mapping layer is its contract (C38). readBuckets is C06.')
P('C09', [('statfile_pages', ['FlushPages', 'Destroy']), ('statfile_upd', ['FlushOneExp'])], 'statfile', secs=(8, 120), oracle=HISTORY,
  note='The mapping layer is its contract (C38).')
P('C10', [('statfile_upd', ['FlushOneExp', 'GetTrailing', 'RawUpdateTrailing']), ('bucket', ['ExpUpdate', 'CopyTime', 'Update'])], 'statfile', secs=(8, 120), oracle=HISTORY,
  note='Pending intervals and both slots for all states; exception paths included.')
P('C07', [('statfile_hdr', ['WriteNewHeader', 'WriteNewHeader8K', 'WriteNewHeader16K', 'WriteNewHeader32K', 'WriteNewHeader64K', 'SeasonLemma'])], 'statfile', secs=(8, 120), oracle='the creation rules, recomputed from the settings',
  note='Proved for every system page size from 4 to 64 KB, fewer than 2^32 samples and intervals below 2^30 s; the header is checked at the moment it is written.')
P('C08', [('statfile_hdr', ['OpenExisting', 'OpenOrCreate'])], 'statfile', secs=(8, 120), oracle='the acceptance rules applied to the bytes of the file, and the bytes before and after',
  note='For every header content and file length; what a new header contains is C07. Geometry fields of an accepted header are not validated by the code.')
P('C38', [('mmap', ['Map', 'Unmap', 'Flush', 'Truncate', 'Close', 'OpenFd', 'ReadFd', 'WriteFd', 'SeekFd'])], 'statfile', secs=(8, 120), oracle='a byte image of the file kept next to random mappings, writes, flushes and unmappings',
  note='The operating system calls (read, write, lseek, ftruncate) are assumed to behave as documented.')
COUNTER = 'an independent model of the counter (levels, slots, accepted samples), replayed next to random histories'
P('C06', [('statfile_read', ['CopyAliased']), ('statfile', ['ToSlot', 'SlotLemma', 'InFile'])], 'statfile', secs=(25, 240), oracle=HISTORY, bounded=['istat::StatFile::readBuckets'],
  note='The copying of consecutive slots and the slot arithmetic are proved; readBuckets itself, which combines them, is covered by the bounded search only.')
P('C11', [('counter', ['RecordPlain', 'FindCollation'])], 'counter', daemon=True, secs=(12, 120), oracle='the acceptance rule in IEEE arithmetic, and one reference file per level fed with the accepted samples',
  note='Plain counters: every level of a policy of any length receives an acceptable sample exactly once, unchanged, and a refused one never. Event counters: bounded search, and C12.')
P('C12', [('counter', ['FindCollation', 'Shift', 'AlignLemma', 'MaybeShift', 'RecordEventsFirst', 'RecordEventsPast'])], 'counter', daemon=True, secs=(15, 120), oracle='per-interval sums of accepted events kept next to random histories', bounded=['StatCounter::record for events inside or after a full window'],
  note='What leaves the window, in which order and for which level, and where the window stands afterwards are proved for any interval and any policy length; recording into an open slot is proved only for an empty window and for late samples, the other cases are bounded search.')
P('C13', [('query', ['NormalizeOne'])], 'counter', daemon=True, secs=(15, 120), oracle='the normalisation rules recomputed in 64-bit integers', bounded=['StatCounter::normalizeRange with a limit other than one'],
  note='Single-sample requests proved for all ranges; the choice among the standard intervals is bounded search.')
P('C14', [('reduce', ['Reduce', 'ReduceCollated']), ('bucket', ['Update', 'Make', 'CopyTime'])], 'counter', daemon=True, secs=(12, 120), oracle='grouping of the input by coarse interval, done independently',
  note='For any number of input buckets: every bucket is combined exactly once, into its own coarse interval, results in order of time at coarse starts, counts conserved (or the fixed count). Sums follow from Bucket::update (C01), which is a contract here. Input as readBuckets delivers it.')
P('C15', [('query', ['PickFile', 'PickTrailing'])], 'counter', daemon=True, secs=(12, 120), oracle='a linear search over the levels', bounded=['StatCounter::select (default ranges)'],
  note='For any number of levels and any contents; StatFile accessors are their contracts (C03).')
P('C31', [('retention', ['AddLevel', 'AddText', 'Get', 'Count'])], 'counter', daemon=True, secs=(10, 100), oracle='an independent parser of level descriptions',
  note='The rules are proved for every policy and level; splitting (C21), durations (C23) and strtod are contracts or assumed.')
STRN = 'independent re-implementations of each helper on plain loops, on random texts'
P('C18', [('strs', ['ExtractCtrs'])], 'strings', secs=(6, 60), oracle='a splitter at carets written independently', note='For texts of any length: every character of every part, the base of every name, and the number of names.')
P('C19', [('strs', ['MungeChar', 'PromChar', 'Munge', 'PromMunge', 'FileName'])], 'strings', secs=(6, 60), oracle='the character rules applied one by one', bounded=['istat::is_valid_settings_name'], note='Every character of names of any length, and the lengths.')
P('C21', [('strs', ['Split', 'SplitRight', 'Splitn2', 'Splitn3', 'Splitn4', 'Splitn5', 'Splitn6', 'Splitn2Alias', 'Splitn3Alias', 'Explode', 'Trim', 'Stripext', 'Combine'])], 'strings', secs=(6, 60), oracle=STRN, note='For texts of any length and any separator, including a target that is the source. isspace is an arbitrary predicate.')
P('C22', [('strs', ['Quote', 'QuoteJs', 'Unquote', 'UnquoteJs'])], 'strings', secs=(6, 60), oracle='quoting and unquoting random bytes', note='quote is proved to produce the escapes one after the other (OFF: their positions), unquote to give back the text from any such sequence, for any length.')
P('C23', [('strs', ['FromInterval'])], 'strings', secs=(6, 60), oracle='an independent parser of durations, and writing followed by reading', bounded=['istat::seconds_to_interval', 'the group parser split(string, vector)'], note='That a duration is the sum of its groups and that unknown units are refused is proved for any number of groups; cutting the text into groups and writing durations are bounded search.')
P('C16', [('proto', ['InputData', 'UdpRecv'])], 'proto', daemon=True, secs=(6, 60), oracle='a splitter at line ends fed with the same bytes in reads of random sizes', bounded=['EagerConnection::peekIn, readIn, consume (what is handed to the framing)'], note='For inputs and datagrams of any length, and every answer of the handler: lines handled, in order, each once, and bytes consumed. Handlers that throw are outside the contract.')
P('C28', [('net', ['TryLater', 'ResetBackoff', 'UdpBackoff'])], 'delays', daemon=True, secs=(5, 50), oracle='the rules of the delay applied to random histories', bounded=['timers and sockets of boost::asio (assumed)'], note='Every step of the delay from every delay, hence every history.')
P('C29', [('net', ['AfrAdd', 'AfrDone', 'AfrWritten'])], 'net', daemon=True, secs=(5, 50), oracle='a table of outstanding bytes per agent', bounded=['StatServer::syncAgent', 'AgentFlushRequest in a map of more than one agent: the map is its contract'], note='A request object completes exactly when the bytes of every agent it lists are written; which writes reach it (StatServer) is not under contract.')
P('C30', [('net', ['BzUpdate', 'BzMake', 'BzMakeWith', 'BzGet', 'BzLemma'])], 'net', daemon=True, secs=(5, 50), oracle='five sums kept next to the samples of a fixed window', note='For every time and every window; sums follow from Bucket::update (C01).')
NA = {
 'C17': 'the field table is an array of strings filled at symbolic positions, and the values go through boost::lexical_cast and iostreams: the engine has no model of either, and a contract that assumed them would assume the property',
 'C20': 'decoding happens in place through raw character pointers into the string; the contract of the result needs a recursive description of the decoded text that the solvers did not discharge in time (hexdig alone says little)',
 'C24': 'containment of paths is a property of what the file system makes of a path; the code relies on boost::filesystem and string searches spread over request handlers, none of which has a specification the verifier could use',
 'C25': 'the buffers are std::list/std::vector operations inside boost::asio handlers; without verified models of those containers every obligation would rest on assumed contracts',
 'C26': 'messages are assembled in a std::list of buffers by raw casts of wire bytes to structures; the verifier has no model of the container and of the casts',
 'C27': 'parsing is built on strcpy-like scans of a request buffer and a case-insensitive std::map; not brought under contract',
 'C32': 'state lives in a std::multimap of strings and doubles guarded by locks and printed through iostreams; no model of these in the verifier',
 'C33': 'matching is recursive backtracking over two strings; its meaning needs an inductively defined match relation, which the back ends cannot unfold for arbitrary lengths (one defect was found by hand and repaired, see DESIGN.md)',
 'C34': 'saving and loading go through iostreams and files, whose contents have no specification here; the quoting they rely on is C22',
 'C35': 'a property of thread schedules and of boost::asio strands: function contracts speak about one call at a time',
 'C36': 'an eventuality over schedules and failures: contracts prove what a call does if it returns, not that it is eventually made',
 'C37': 'a property of crash points between system calls, and of the kernel: function contracts speak about states at return',
}
