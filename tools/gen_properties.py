#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
      quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- storage
p('C01', 'Merging samples into a bucket is exact',
  """Folding a sample (or an already aggregated batch) into a bucket yields sum, sum of squares and count equal to the
  arithmetic sums, and the extreme min and max, of both; an empty bucket becomes an exact copy of what was folded in, and a
  non-empty one keeps its own time. The exponential blend gives every field history*old + (1-history)*new, with a rounded count
  of at least 1 and the new time; the collated (event counter) update adds to the sum, keeps count 1, min = max = sum and the square of the sum.""",
  ['inputs', 'histories'], 'all bucket contents (including empty, negative, infinite, NaN fields) and all samples, hence all sequences of updates',
  'test_Bucket folds three fixed samples; equality must hold for every pair of contents and any history of folds.',
  ['lib/Bucket.cpp', 'include/istat/Bucket.h'],
  [('Bucket::update', 'lib/Bucket.cpp:83'), ('Bucket::expUpdate', 'lib/Bucket.cpp:99'), ('Bucket::collatedUpdate', 'lib/Bucket.cpp:121')],
  [('time_,sum_,sumSq_,min_,max_,count_', 'the aggregate held in one interval', 'include/istat/Bucket.h')],
  ['the values read back from the bucket'])

p('C02', 'Derived statistics of a bucket are sane',
  """For every stored aggregate the average is sum/count (0 for an empty bucket), the standard deviation is never negative, is 0 for
  fewer than two samples and otherwise sqrt(max(0, n*sumSq - sum^2) / (n*(n-1))). None of the reported sum, sum of squares, min, max,
  average and deviation is ever infinite: an infinite value is reported as the largest finite value of the same sign, and values that fit are reported unchanged in single precision.""",
  ['inputs'], 'all bit patterns of sum, sumSq, min, max, count',
  'The tests evaluate a handful of small exact numbers; cancellation, overflow and infinities need all bit patterns.',
  ['lib/Bucket.cpp'], [('Bucket::avg', 'lib/Bucket.cpp:133'), ('Bucket::sdev', 'lib/Bucket.cpp:138'), ('stabilizeFloat', 'lib/Bucket.cpp:11')],
  observe=['JSON/CSV values sent to a client'])

p('C03', 'Every timestamp has exactly one interval and one slot in a file',
  """A timestamp belongs to exactly the one aligned interval that contains it: mapping a time to its interval number and back gives the
  start of that interval, and asking for the interval end (rounding up) gives the next number unless the time is aligned. An interval
  is reported as held by the file exactly when it is not older than the file's capacity back from the newest interval and not newer than
  the newest one (a collated file also answers for elapsed intervals that have not been written yet), and any two different intervals
  held by the file occupy different slots, each inside the file. (Known finding: times before the creation time of the file are rounded towards it.)""",
  ['inputs', 'configurations'], 'all timestamps after the epoch on either side of the file creation time, all interval lengths, capacities and file positions',
  'test_StatFile checks a few aligned times after file creation; wrap-around, rounding and times before the creation time need all values.',
  ['lib/StatFile.cpp'], [('mapTimeToBucketIndex', 'lib/StatFile.cpp:635'), ('mapBucketIndexToTime', 'lib/StatFile.cpp:646'), ('isBucketIndexInFile', 'lib/StatFile.cpp:655'), ('mapBucketIndexToFileIndex', 'lib/StatFile.cpp:685'), ('numBucketsBetween', 'lib/StatFile.cpp:704')],
  observe=['which samples a range query returns'])

p('C04', 'A recorded sample changes exactly the interval of its own timestamp',
  """Recording a sample either is refused, because its interval is older than everything the file still holds, and then changes no stored
  interval and no running total; or it changes exactly the one interval containing its timestamp and the running totals (sum, sum of squares, count)
  by exactly the sample's reported (single-precision) values. In a plain or collated file the stored interval is started afresh if its slot held another time, then merged into or overwritten
  according to the requested mode and the kind of file (trailing files keep the interval pending, see C10); the newest interval of the file only ever moves forward, and never past the sample.""",
  ['inputs', 'histories', 'configurations'], 'all file states, kinds of file, update modes and samples, in any order of time',
  'Tests record short monotone sequences; slot reuse after wrap-around, old samples and mode combinations need every state.',
  ['lib/StatFile.cpp', 'lib/Bucket.cpp'], [('rawUpdateBucket', 'lib/StatFile.cpp:444'), ('writableBucket', 'lib/StatFile.cpp:535')],
  [('first_bucket,last_bucket,last_time', 'the window of held intervals', 'include/istat/Header.h'), ('cumulative_*', 'running totals', 'include/istat/Header.h')],
  ['a later range read of the file'])

p('C05', 'Bucket page cache is coherent with the file',
  """Whatever order pages are touched in, access to a bucket for writing yields the current content of exactly its own page: the same page is never live
  in two different copies that can be written, evicting a page writes its changes back before the memory is reused, and after a failed mapping no
  released page remains reachable.""",
  ['histories', 'inputs', 'fault_sequences'], 'all cache states, page numbers, read/write intents and mapping failures',
  'Three cached pages and a handful of touched pages in the tests; the invariant must survive any access history and map failures.',
  ['lib/StatFile.cpp', 'lib/Mmap.cpp'], [('mapSinglePage', 'lib/StatFile.cpp:395'), ('replaceMap', 'lib/StatFile.cpp:410'), ('mapBucketPage', 'lib/StatFile.cpp:359')],
  [('pages[3]', 'cached pages', 'include/istat/StatFile.h')], ['content of the file after flush'])

p('C06', 'Range reads return consecutive intervals and stay in bounds',
  """Reading n intervals starting at a given one fills at most n entries of the caller's buffer and returns how many were filled; entry k is the
  slot of the start interval + k, wrapping at the end of the file, and includes changes not yet written back to disk. A start older than everything held begins at the
  oldest held interval with the count reduced accordingly, and a start newer than the newest interval returns nothing.""",
  ['inputs', 'histories'], 'all starts, counts, capacities, wrap positions, short reads and dirty cached pages',
  'Tests read small ranges inside one page; page boundaries, wrap-around and short reads are not covered.',
  ['lib/StatFile.cpp'], [('readBuckets', 'lib/StatFile.cpp:262'), ('copyAliasedBuckets', 'lib/StatFile.cpp:315')], observe=['the returned buckets'])

p('C07', 'New statistics files have a consistent, sufficient geometry',
  """Creating a file writes a header whose interval is at least one second, whose creation time is aligned to the interval, and whose capacity is at
  least the number of samples asked for (and, for a trailing file, at least a whole season), with the file sized to hold header and all pages.
  Requests with undefined flags, or trailing parameters outside blend (0,1] and season [10 s, 373 days], are refused with an error.""",
  ['inputs', 'configurations'], 'all creation settings',
  'Tests create a few default files; arithmetic on sizes and the validation must hold for every setting.',
  ['lib/StatFile.cpp', 'include/istat/Header.h'], [('writeNewHeader', 'lib/StatFile.cpp:181')], observe=['the header on disk'])

p('C08', 'Opening a file refuses foreign or incompatible content',
  """Opening accepts a file only if it carries the istat magic, a readable version, a page size of at least the system page and a matching header size;
  anything else is refused with an error, and a refused file is left exactly as it was. An accepted older version is upgraded by
  filling in defaults without touching stored data, and the file is only ever extended, never cut.""",
  ['inputs', 'configurations'], 'all header contents and file lengths, old and new versions',
  'Tests open files they just created; arbitrary existing content is the dangerous case.',
  ['lib/StatFile.cpp'], [('open', 'lib/StatFile.cpp:90'), ('refreshHeader', 'lib/StatFile.cpp:168')], observe=['the file content after a refused open'])

p('C09', 'Flush writes the header and every cached page',
  """After a flush everything recorded so far (header and each cached page of buckets) has been handed to the file, nothing is dropped or flushed to a wrong place, and
  for trailing files at most the oldest pending interval is moved into the file.""",
  ['histories'], 'all cache states and file kinds',
  'Tests flush at a few points and compare a few values.',
  ['lib/StatFile.cpp', 'lib/Mmap.cpp'], [('flush', 'lib/StatFile.cpp:594')], observe=['calls to the mapping layer; file content'])

p('C10', 'Trailing averages blend exactly one season back',
  """In a trailing file, a finished interval is stored as the exponential blend of the value stored for exactly the interval one season earlier with the interval's own samples, or
  as the samples alone if that interval is not held (any more) or its slot belongs to another time; pending intervals are kept apart by time, and each leaves the pending set exactly once, oldest first.""",
  ['histories', 'inputs'], 'all pending sets, seasons, positions of the two slots (same page, different page, evicted page)',
  'The tests use one small file where both slots share a page.',
  ['lib/StatFile.cpp'], [('flushOneExpBucket', 'lib/StatFile.cpp:567'), ('getTrailingBucket', 'lib/StatFile.cpp:547')], observe=['the stored interval'])

# ---------------------------------------------------------------- counters
p('C11', 'Samples are accepted by plausibility and reach every retention level',
  """A sample for a plain counter is refused iff it lies more than 60 s in the future, has count 0, or its min, average and max are out of order by more than the 0.01%
  tolerance; a sample for an event counter is refused iff it is more than one interval in the future or older than the collation window. An accepted plain
  sample is handed unchanged, exactly once, to every retention file of the counter.""",
  ['inputs', 'configurations', 'histories'], 'all samples, clock values and numbers of retention files',
  'Tests use a few samples; the boundary comparisons and the delivery to each file need every input.',
  ['daemon/StatCounter.cpp'], [('record', 'daemon/StatCounter.cpp:145')], observe=['buckets handed to the files', 'rejection counters'])

p('C12', 'Event-counter collation conserves events',
  """The five collation slots always cover five consecutive intervals; an accepted event adds value/interval to exactly the slot containing its time. When
  the window advances, every slot's content is stored in the finest file and the slot that leaves the window is handed exactly once to each coarser file, slots move by exactly one
  interval, and a fresh empty slot is opened: no accepted event is lost, doubled or moved to another interval. Coarser levels report the fixed count of one sample per finest interval.""",
  ['histories', 'inputs'], 'all window states and event times',
  'Tests replay a few short sequences; conservation must hold for any order of events and any gap.',
  ['daemon/StatCounter.cpp'], [('record', 'daemon/StatCounter.cpp:145'), ('findCollationIndex', 'daemon/StatCounter.cpp:277'), ('shiftCollated', 'daemon/StatCounter.cpp:306'), ('maybeShiftCollated', 'daemon/StatCounter.cpp:290')],
  [('collations_[5]', 'collation window', 'daemon/StatCounter.h')], ['buckets handed to the files'])

p('C13', 'Query ranges are normalised to an aligned, enclosing, bounded range',
  """For any requested range 0 <= start <= end, interval and sample limit, the normalised range is aligned to the resulting interval, encloses the requested range (for a
  single-sample request up to one interval of slack), without a limit the interval is the native one. With a limit it is the finest standard reduction that is a multiple of the native interval and keeps the number of samples within the
  limit; if none is coarse enough, the coarsest such reduction; if none is a multiple of the native interval, the range divided by the limit when that is at least two native intervals, else the native one. No request can divide by zero or crash.""",
  ['inputs'], 'all 0 <= start <= end, intervals (including 0) and sample limits',
  'Tests try about twenty ranges; the arithmetic must hold for all, including start == end.',
  ['daemon/StatCounter.cpp'], [('normalizeRange', 'daemon/StatCounter.cpp:543')], observe=['start, end, interval in the query result'])

p('C14', 'Reducing resolution conserves samples',
  """Combining buckets into coarser intervals conserves total count and total sum of the input, each output bucket aggregates only inputs of its own coarse interval and carries its
  start time, and outputs are in increasing time order, with no output for coarse intervals without data; for event counters the count is the fixed number of samples of the interval and min is 0 when samples were missing.""",
  ['inputs'], 'all bucket sequences in time order, ranges and intervals',
  'Tests reduce a few short fixed series.',
  ['daemon/StatCounter.cpp'], [('reduce', 'daemon/StatCounter.cpp:746'), ('appendReduced', 'daemon/StatCounter.cpp:729')], observe=['the returned series'])

p('C15', 'Queries use the finest data that covers the range',
  """A range query is answered from the finest retention file that still holds the start of the range, a trailing query from the shortest season not shorter than the one asked for;
  inverted ranges give no data, and missing start or end default to a 15 minute range.""",
  ['inputs', 'configurations'], 'all sets of retention files, positions and ranges',
  'Tests have one fixed set of files.',
  ['daemon/StatCounter.cpp'], [('pickStatFile', 'daemon/StatCounter.cpp:497'), ('pickTrailingStatFile', 'daemon/StatCounter.cpp:515'), ('select', 'daemon/StatCounter.cpp:788')], observe=['interval of the query result'])

# ---------------------------------------------------------------- text, names, protocol
p('C16', 'Stat input is framed by line, independent of packet boundaries',
  """However the incoming byte stream is cut into reads, the commands executed are exactly the newline-terminated lines, in order, each once, and exactly the bytes of
  those lines are consumed from the connection. A datagram yields exactly its lines of at least two characters. After a command reveals a blacklisted peer no further command of that read is executed.""",
  ['inputs', 'schedules'], 'all byte streams and all ways of cutting them',
  'The test feeds one two-line string in one piece.',
  ['daemon/StatServer.cpp'], [('handle_inputData', 'daemon/StatServer.cpp:34'), ('on_udp_recv', 'daemon/StatServer.cpp:838')], observe=['record calls made'])

p('C17', 'A stat command records exactly what it says',
  """A command with 2, 3 or 7 whitespace-separated fields records name, value (and time, sum of squares, min, max, count) exactly as given for each counter
  the name expands to; any other number of fields records nothing and is counted as bad; no command line can crash or hang the server or write outside its field table.""",
  ['inputs'], 'all command lines',
  'The tests send some well-formed commands.',
  ['daemon/StatServer.cpp'], [('handle_counter_cmd', 'daemon/StatServer.cpp:446')], observe=['record calls made'])

p('C18', 'Hierarchical counter names expand to one counter per suffix',
  """A name base^a^b records base.a and base.b: expansion always terminates and yields, in order, one counter for each non-empty part after the first caret, prefixed by the base and a dot (if the base, the text before the first caret, is not empty), with no empty components; a caret at the end yields the base itself, and a name without caret expands to itself.""",
  ['inputs'], 'all names, including empty and repeated carets',
  'Tests try a few names; repeated carets hang the original code.',
  ['lib/strfunc.cpp'], [('extract_ctrs', 'lib/strfunc.cpp:339')], observe=['record calls made'])

p('C19', 'Counter names map to safe file names',
  """After cleaning, a name contains only printable ASCII characters that are neither separators, colons, backslashes nor quotes, in lower case, has the same length, and cleaning again changes
  nothing; the file name replaces each dot by exactly one directory separator. The Prometheus form contains only [a-z0-9_] and does not start with a digit.""",
  ['inputs'], 'all strings, including bytes >= 128 and NUL',
  'The test cleans a couple of names.',
  ['lib/strfunc.cpp'], [('munge', 'lib/strfunc.cpp:107'), ('counter_filename', 'lib/strfunc.cpp:112'), ('prom_munge', 'lib/strfunc.cpp:847')], observe=['file paths opened'])

p('C20', 'URL decoding is exact and memory safe',
  """Decoding replaces each plus by a space, each %XY by the byte with that hexadecimal value and copies all else; an escape truncated by the end of the text yields a percent sign and ends the text, nothing is read or written outside the string, and the result is never longer
  than the input.""",
  ['inputs'], 'all strings, including truncated escapes (the byte for malformed digits is unspecified)',
  'Tests decode a few well-formed strings.',
  ['lib/strfunc.cpp'], [('urldecode', 'lib/strfunc.cpp:137'), ('hexdig', 'lib/strfunc.cpp:121')], observe=['query parameters'])

p('C21', 'String helpers split, trim and join without losing bytes',
  """Splitting at a separator gives the text before the first and after the first separator (so joining restores the input) and reports how many parts there are, for every number of output parts; exploding drops only an empty last part; trimming removes exactly
  leading and trailing white space; joining paths and stripping an extension change nothing else.""",
  ['inputs'], 'all strings and separators, including aliasing of input and output (except the left part of a two-way split)',
  'Tests try a few strings, never six parts.',
  ['lib/strfunc.cpp'], [('split', 'lib/strfunc.cpp:57'), ('trim', 'lib/strfunc.cpp:79'), ('splitn', 'lib/strfunc.cpp:748'), ('combine_paths', 'lib/strfunc.cpp:312'), ('stripext', 'lib/strfunc.cpp:297')], observe=['the parts returned'])

p('C22', 'Quoting is reversible and leaves no raw special character',
  """Unquoting a quoted string gives back the original for every byte string, and a quoted string contains no unescaped quote, newline, carriage return, or NUL, and every backslash in it starts an escape.""",
  ['inputs'], 'all byte strings',
  'Tests quote a few strings.',
  ['lib/strfunc.cpp'], [('sql_quote', 'lib/strfunc.cpp:384'), ('sql_unquote', 'lib/strfunc.cpp:432'), ('js_quote', 'lib/strfunc.cpp:485')], observe=['JSON output and stored settings'])

p('C23', 'Durations convert both ways without loss',
  """Every duration written as text names the same number of seconds when read back, durations without a unit or with an unknown one are refused with an error, and each unit is worth exactly its seconds (s=1, m=60, h=3600, d=86400, y=365 d).""",
  ['inputs'], 'all non-negative numbers of seconds, all strings whose groups have at most nine digits',
  'The tests convert durations with a single unit.',
  ['lib/strfunc.cpp'], [('seconds_to_interval', 'lib/strfunc.cpp:653'), ('interval_to_seconds', 'lib/strfunc.cpp:620')], observe=['retention settings shown'])

p('C24', 'Settings and static files cannot escape their directories',
  """A settings-set name is accepted only if it consists of letters, digits, underscore, dash and dot, a counter key or static file path that could leave its directory is refused, and nothing outside the configured directories is read or written on
  behalf of a client.""",
  ['inputs'], 'all names sent by a client',
  'Tests use valid names.',
  ['lib/strfunc.cpp', 'daemon/Settings.cpp', 'daemon/RequestInFlight.cpp'], [('is_valid_settings_name', 'lib/strfunc.cpp:735'), ('serveFile', 'daemon/RequestInFlight.cpp')], observe=['paths opened'])

# ---------------------------------------------------------------- network
p('C25', 'Connection input is delivered in order, once; output is cut only at lines',
  """Bytes received on a connection can be looked at without being consumed, are handed out in order, each exactly once, and never more than are there. When the unsent backlog exceeds the limit, only a prefix ending at a line end (or everything if there is no
  line end in the second half) is dropped, and the newest message is always kept whole and last.""",
  ['histories', 'inputs'], 'all buffer contents, read sizes and messages',
  'Tests use a fake connection; the real buffers are never driven to their limits.',
  ['daemon/EagerConnection.cpp'], [('peekIn', 'daemon/EagerConnection.cpp:165'), ('consume', 'daemon/EagerConnection.cpp:181'), ('readIn', 'daemon/EagerConnection.cpp:156'), ('writeOut', 'daemon/EagerConnection.cpp:205')], observe=['bytes handed to the protocol layer'])

p('C26', 'Replication messages are reassembled exactly',
  """However the byte stream of replication messages is cut, each message is delivered exactly once, complete, in order, with its type and payload; a message longer than its declared maximum is never written beyond its buffer, and a message whose payload
  is shorter than its type requires is never read beyond its end.""",
  ['inputs', 'schedules'], 'all message sequences, sizes and fragmentations',
  'The tests use two messages and a few cuts.',
  ['daemon/PduProtocol.cpp', 'daemon/PduProtocol.h', 'daemon/ReplicaPdus.cpp', 'daemon/ReplicaPdus.h'], [('PduReaderActor::on_data', 'daemon/PduProtocol.cpp'), ('PduWriter', 'daemon/PduProtocol.h')], observe=['messages delivered'])

p('C27', 'HTTP request parsing is memory safe and splits header fields exactly',
  """Any bytes sent as an HTTP request are parsed without reading outside the received data: the request line is split into method, URL and version, each header line at its first colon with a case-insensitive name, and parsing stops at the first empty line.""",
  ['inputs'], 'all request bytes',
  'Tests use a fake request object.',
  ['daemon/HttpServer.cpp'], [('HttpRequest::on_header', 'daemon/HttpServer.cpp')], observe=['method, URL, headers'])

p('C28', 'Retry delays are bounded and recover',
  """After any sequence of failures the delay before the next connection attempt is between 1 and 195 seconds and the delay before reading UDP again between 5 ms and 2 s, growing by half (TCP, up to three minutes plus less than sixteen random seconds) or doubling (UDP) with each failure, with at most one attempt pending; success
  resets them (a connection at the third successful write in a row, UDP at once).""",
  ['histories', 'fault_sequences'], 'all sequences of failures and successes',
  'No test drives the retry logic.',
  ['daemon/EagerConnection.cpp', 'daemon/StatServer.cpp'], [('tryLater', 'daemon/EagerConnection.cpp:295'), ('resetBackoffOnSuccessfulWrites', 'daemon/EagerConnection.cpp:395'), ('reschedule_udp_recv', 'daemon/StatServer.cpp:812')], observe=['timer settings'])

p('C29', 'A flush request completes exactly when all forwarded data was written',
  """A flush request lists, per upstream agent, the bytes pending on it when the request was made. It is complete exactly when every agent listed has reported writing at least that many bytes; bytes written by one
  agent never count for another, never below zero, and completion is reported exactly once, when the request ends.""",
  ['histories'], 'all numbers of connections, pending sizes and write reports',
  'The test uses two connections and two write reports.',
  ['daemon/StatServer.cpp', 'daemon/StatServer.h'], [('AgentFlushRequest', 'daemon/StatServer.cpp:885'), ('on_forwardWrite', 'daemon/StatServer.cpp:330')], observe=['completion callback'])

p('C30', 'The forwarding agent aggregates each sample into its own second-bucket',
  """Each sample received by a forwarding agent is merged into exactly the forwarding bucket whose ten-second interval contains its time, if that lies in the window of the agent, and otherwise changes nothing and is reported; the
  other buckets are untouched and reading a bucket never goes outside the window.""",
  ['histories', 'inputs'], 'all window starts, sample times (after the epoch) and histories',
  'Tests update a few times.',
  ['daemon/Bucketizer.cpp', 'daemon/Bucketizer.h'], [('Bucketizer::update', 'daemon/Bucketizer.cpp'), ('Bucketizer::get', 'daemon/Bucketizer.cpp')], observe=['forwarded lines'])

p('C31', 'Retention levels are validated and kept in order',
  """A retention policy accepts a level only if its interval and length are positive, a trailing blend lies strictly between 0 and 1, a regular level's interval is longer than that of the previous level, and it does not follow a trailing level; the policy then reports exactly the
  levels accepted, in order, with the interval, number of samples and blend written in the description (length divided by interval). Descriptions with an unknown shape or with durations without units are refused with an error, and refusing changes nothing.""",
  ['configurations', 'inputs'], 'all retention configurations',
  'Tests parse one or two configurations.',
  ['daemon/Retention.cpp'], [('RetentionPolicy::addInterval', 'daemon/Retention.cpp')], observe=['files created for a counter'])

p('C32', 'Prometheus export accumulates counters and keeps metric time',
  """An exported counter equals the sum of the samples recorded since it was created, a gauge the last value, with timestamps in milliseconds of the sample's second; metrics not updated for the expiry time are removed and others are not.""",
  ['histories', 'inputs'], 'all sequences of samples',
  'Tests use few samples.',
  ['daemon/PromExporter.cpp', 'daemon/PromExporter.h'], [('PromMetric::accumulate', 'daemon/PromExporter.cpp'), ('PromExporter::storeMetrics', 'daemon/PromExporter.cpp')], observe=['exported text'])

p('C33', 'Wildcard patterns match like the documented globs',
  """A counter pattern without wildcards matches exactly itself, ? matches any run without a dot and * any run, matching always terminates and never reads outside the strings.""",
  ['inputs'], 'all names and patterns',
  'Tests match some pairs.',
  ['lib/strfunc.cpp', 'daemon/AllKeys.cpp'], [('str_pat_match', 'lib/strfunc.cpp:193')], observe=['counters listed or deleted'])

p('C34', 'Settings survive being saved and loaded',
  """Whatever key and value are set, saving and reloading the settings gives the same value for the same key, and for no other.""",
  ['inputs', 'histories'], 'all keys and values, any number of saves',
  'Tests save a few simple values.',
  ['daemon/Settings.cpp', 'lib/strfunc.cpp'], [('RealSettings::save/load', 'daemon/Settings.cpp')], observe=['settings file'])

p('C35', 'Operations on one counter never interleave',
  """Records, flushes, reads and deletions of the same counter take effect one at a time in the order they were accepted, whatever the number of threads, and operations on different counters do not affect each other.""",
  ['schedules'], 'all thread schedules',
  'Tests run single schedules.',
  ['daemon/StatStore.cpp', 'daemon/StatStore.h'], [('AsyncCounter strand', 'daemon/StatStore.h')], observe=['stored values'])

p('C36', 'Every accepted asynchronous request completes exactly once',
  """Each client request (query, flush, delete, settings change) is eventually answered, and its completion callback runs exactly once, even if the connection is lost or the store fails.""",
  ['schedules', 'fault_sequences'], 'all schedules and failures',
  'Tests drive one schedule without failures.',
  ['daemon/RequestInFlight.cpp', 'daemon/StatStore.cpp', 'daemon/IComplete.h'], [('IComplete', 'daemon/IComplete.h')], observe=['responses'])

p('C37', 'Data recorded and flushed survives a crash',
  """After a flush returned, a crash at any point loses none of the data recorded before it, and a crash during a write leaves every file openable.""",
  ['crash_points'], 'all crash points',
  'Tests never crash the process.',
  ['lib/Mmap.cpp', 'lib/StatFile.cpp'], [('MmapImpl::flush', 'lib/Mmap.cpp')], observe=['files after restart'])

p('C38', 'The mapping layer never loses or misplaces a written page',
  """Unmapping or flushing a writable mapping writes back exactly its bytes at exactly its file offset, memory is released once with the size it was obtained, and a short read yields zeroes, never stale data.""",
  ['inputs', 'histories', 'fault_sequences'], 'all mappings, offsets, sizes and short reads',
  'Tests map few pages.',
  ['lib/Mmap.cpp', 'include/istat/Mmap.h'], [('MmapImpl::map/unmap/flush', 'lib/Mmap.cpp')], observe=['file content'])

with open(OUT, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
