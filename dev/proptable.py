W = "mabel/data/writers/"
PROPS = [
 dict(id="C01", rule=("buffering", "run"), title="Accepted records stay buffered until storage has taken all of them",
  statement="Every record BlobWriter.append accepts ends up exactly once: either still in the writer's pending buffer, or in a payload made of the whole pending buffer that the inner writer's commit accepted. Rolling over at blob_size, committing, and failing commits never drop, truncate or duplicate pending records, and the pending indicator commit() consults is on whenever something is buffered. After a successful commit the buffer is empty; after a failed one it still holds everything.",
  over=["inputs", "histories", "fault_sequences"], qtext="all records, all formats, every reachable buffer state, commit failing or succeeding at every call",
  why="the loss needs a particular buffer size, format, or a storage failure in the middle of a rollover; tests commit small batches to storage that always works",
  files=[W + "internals/blob_writer.py"], mech=[("append/rollover", "BlobWriter.text_append, BlobWriter.arrow_append"), ("commit/clear", "BlobWriter.commit, BlobWriter.open_buffer")],
  note="All paths of append and commit for each of the five formats from an arbitrary-history buffer state, with every external call also failing; the record and the prior content are tracked by provenance into the payload handed to storage. Assumes pyarrow/orso/zstandard preserve what they are given."),
 dict(id="C02", rule=("completion", "run"), title="frame.complete tells the truth about a batch frame",
  statement="BatchWriter.finalize writes frame.complete only after every accepted record was successfully committed, only if no failure has been reported to this or any earlier finalize call, and only if a record was accepted or always_complete is set. When all of that holds and finalize returns normally the marker has been written, in the folder of the frame's own blobs.",
  over=["histories", "fault_sequences"], qtext="all sequences of append/finalize with and without has_failure, with storage failing at any commit",
  why="wrong markers only appear for particular histories (failure then retry, nothing written, storage fault during finalize) that unit tests do not enumerate",
  files=[W + "batch_writer.py", W + "writer.py"], mech=[("completion marker", "BatchWriter.finalize"), ("flush", "Writer.finalize, BlobWriter.commit")],
  note="Histories append / finalize(failure) / finalize on top of both a fresh and an arbitrary-history writer are interpreted abstractly; at every marker commit the trace must contain the commit of the accepted record and no reported failure."),
 dict(id="C03", rule=("failures", "run"), title="A storage failure always reaches the caller",
  statement="If storing data fails - in the storage adapter, in BlobWriter, or through Writer, BatchWriter, StreamWriter, WriterPool or DatabaseWriter append/commit/finalize - the call that triggered it raises instead of returning normally, unless the same payload was stored by a retry within the call. This includes the frame.complete marker and writers committed while a StreamWriter or its pool is being finalized or closed.",
  over=["fault_sequences", "histories"], qtext="storage failing at any commit, for every writer and format, from any reachable writer state",
  why="tests run on storage that works; the swallowed failure only shows when a specific commit fails",
  files=[W + "writer.py", W + "batch_writer.py", W + "stream_writer.py", W + "database_writer.py", W + "internals/blob_writer.py", W + "internals/writer_pool.py", "mabel/adapters/disk/disk_writer.py", "mabel/adapters/google/google_cloud_storage_writer.py", "mabel/adapters/minio/minio_writer.py"],
  mech=[("failure propagation", "Writer.finalize, StreamWriter.finalize, WriterPool.remove_writer, BlobWriter.commit, DatabaseWriter.finalize"), ("adapter errors", "DiskWriter.commit, GoogleCloudStorageWriter.commit, MinIoWriter.commit")],
  note="Exception-flow analysis: every path of every writer entry point with each storage call failing; a path that contains a failed store and ends in a normal return is reported. Pool members and the pool are analysed against opaque blob writers (assume/guarantee with the BlobWriter obligations)."),
 dict(id="C08", rule=("adapters", "run"), title="A storage adapter stores exactly the given bytes under the name it reports",
  statement="When the disk, Google Cloud Storage or MinIO writer's commit returns, exactly the bytes it was given (all of them, replacing any previous content, with the right declared length) were handed to the storage under the requested override_blob_name, or under the name generated from the frame's template if none was requested, and that name is what it returns. The adapter's filename template is the same before and after a commit.",
  over=["inputs", "configurations"], qtext="all byte strings (including empty), all names, requested or generated, all adapters",
  why="the cloud adapters are not reachable in the test environment and unusual payloads (empty, repeated names) are not sampled",
  files=["mabel/adapters/disk/disk_writer.py", "mabel/adapters/google/google_cloud_storage_writer.py", "mabel/adapters/minio/minio_writer.py", "mabel/adapters/google/bigquery_writer.py", W + "internals/base_inner_writer.py"],
  mech=[("commit", "DiskWriter.commit, GoogleCloudStorageWriter.commit, MinIoWriter.commit"), ("name template", "BaseInnerWriter.__init__, BaseInnerWriter._build_path")],
  note="Every concrete subclass of BaseInnerWriter (NullWriter is documented as storing nothing) is interpreted with symbolic bytes and name, each external call also failing; provenance of payload, target, declared length, open mode and returned name is compared on every returning path. The storage client libraries are trusted."),
 dict(id="C09", rule=("adapters", "fresh"), title="Every commit gets a blob name of its own",
  statement="A generated blob name contains a full-resolution clock reading or random component taken afresh for that commit (not cached, not truncated) together with components identifying the host and the process, so neither a later commit nor another process or host overwrites a blob already written.",
  over=["histories", "schedules"], qtext="all sequences of commits by any number of writers, processes and hosts (up to clock resolution)",
  why="collisions depend on timing and on other processes and hosts",
  files=[W + "internals/base_inner_writer.py"], mech=[("name generation", "BaseInnerWriter._build_path, BaseInnerWriter._get_node")],
  note="The term of the generated name on the second of two consecutive commits is inspected for every adapter: its entropy sources must be read during that commit, at full resolution, outside memoised functions. Uniqueness of nanosecond clock readings within a process is assumed."),


 dict(id="C04", rule=("stream", "backout"), title="A streamed record is never dropped and goes to the partition it belongs in",
  statement="StreamWriter.append that returns normally has handed the record (in its dict form) to at least one pooled blob writer. With a schema set, the record was validated first, in the form in which it is written; a record that passes goes to the partition named by the dataset template, one that fails goes to that partition's BACKOUT folder and never into the normal partition. Values taken from the record become part of a partition path only after being sanitised, each in the place of its own placeholder. Records whose partition field is missing or an empty list are still written.",
  over=["inputs"], qtext="all records (valid or not, pydantic or dict, with missing, scalar, list or empty-list partition values), with and without a schema",
  why="misrouted or dropped records leave no trace; tests only send well-formed records with scalar partition values",
  files=[W + "stream_writer.py"], mech=[("append/validation", "StreamWriter.append"), ("partition combinations", "StreamWriter.append placeholder loop")],
  note="All paths of append from an arbitrary-history writer with validation passing and failing, blob writers and pool opaque; routing is decided on the provenance of the identity each record's writer was requested under. The blob writer's own refusal of a record (parquet with a non-conforming record) propagates as an exception."),
 dict(id="C05", rule=("stream", "validate_first"), title="Validation and expectations come before buffering",
  statement="Writer, BatchWriter and DatabaseWriter buffer a record (count it, hand it on) only after the value being buffered was validated against the schema (Writer/BatchWriter) and evaluated against the expectations, whenever those are configured. A record that fails is neither buffered nor counted and the failure reaches the caller; a record that passes is buffered exactly once and counted.",
  over=["inputs", "histories"], qtext="all records and reachable writer states, with validation and expectations passing or failing",
  why="a check skipped on some path, or made on a different value than the one written, is invisible to tests with conforming records",
  files=[W + "writer.py", W + "batch_writer.py", W + "database_writer.py"], mech=[("gate", "Writer.append, BatchWriter.append, DatabaseWriter.append")],
  note="Path-sensitive ordering check from arbitrary-history writers: at each hand-over the trace must contain the successful validate/evaluate call on the same value. The validators themselves (orso, data_expectations) are trusted."),
 dict(id="C06", rule=("stream", "locking"), title="The writer pool is only touched under the one shared lock",
  statement="Every use StreamWriter.append, finalize and the background pool attendant make of the writer pool, and every append to a pooled writer, happens while holding the same module-level lock, so the attendant cannot evict a writer between its lookup and the write. Nobody waits (sleep, join) or acquires that lock again while holding it, and it is released on every normal and exceptional exit. Everything the attendant reads is set before its thread is started, and it stops touching the pool once finalize has run.",
  over=["schedules", "fault_sequences"], qtext="all interleavings of append, finalize and the attendant thread, with any pool operation failing",
  why="the lost write needs the attendant to run between two particular statements; tests do not control the schedule",
  files=[W + "stream_writer.py"], mech=[("lockset", "StreamWriter.append, StreamWriter.finalize, StreamWriter.pool_attendant"), ("start order", "StreamWriter.__init__")],
  note="Lockset analysis over all paths (including the never-ending attendant loop): every pool access event carries the set of locks held; they must share one lock. The pool is opaque here."),
 dict(id="C07", rule=("stream", "pool"), title="A pooled writer serves one identity and leaves the pool only once committed",
  statement="WriterPool.get_writer returns the writer pooled under exactly the requested identity and refreshes its last access time, or pools a new BlobWriter whose dataset is that identity. remove_writer lets go of exactly the requested writer and only after its commit succeeded; a failing commit leaves it in the pool. close, and StreamWriter.finalize that returns, commit every pooled writer. get_stale_writers reports exactly the writers idle longer than the limit, and nominate_writers_to_evict names only least recently used writers, and none unless the pool is over its capacity.",
  over=["histories", "fault_sequences"], qtext="all pools, identities and access histories, with commit succeeding or failing",
  why="evicting the wrong or a busy writer, or dropping an uncommitted one, needs particular pool contents or a storage failure",
  files=[W + "internals/writer_pool.py", W + "stream_writer.py"], mech=[("membership", "WriterPool.get_writer, remove_writer, close"), ("eviction policy", "WriterPool.get_stale_writers, nominate_writers_to_evict")],
  note="The pool methods are interpreted on pools of two and three symbolic entries (all equalities between identities explored) and, for nomination, of unbounded size; the representation of an entry is learned from create_writer."),
 dict(id="C11", rule=("reading", "frames"), title="Only the newest complete, non-ignored frame of a partition is read",
  statement="In every partition folder that holds as_at frames, get_list_of_blobs returns only blobs that belong (by whole name) to one frame: the newest whose frame.complete marker is present and whose frame.ignore marker is absent in that very folder. Frames are tried newest name first; when no frame qualifies, no blob of the folder is returned. Folders without frames are returned as they are.",
  over=["inputs", "histories"], qtext="all listings: any number of partitions, folders, frames and markers in any combination",
  why="a wrong frame is only picked for particular combinations of markers, frame names and partition folders",
  files=["mabel/data/readers/internals/base_inner_reader.py"], mech=[("frame choice", "BaseInnerReader.get_list_of_blobs")],
  note="get_list_of_blobs is interpreted over an unknown listing; for every group of blobs that reaches the result, the conditions its members satisfy and the existence facts established on the path are compared with the markers, the folder and the way the frame was taken from the sorted candidates. That frame names sort chronologically is C12."),
 dict(id="C13", rule=("reading", "dead_letters"), title="Dead letters are never listed as data",
  statement="No blob with BACKOUT in its path is in the list get_list_of_blobs returns, with or without a partition filter, partitions or frames.",
  over=["inputs"], qtext="all listings and all reader options",
  why="the dead letter partition only exists in production data sets with rejected records",
  files=["mabel/data/readers/internals/base_inner_reader.py"], mech=[("exclusion", "BaseInnerReader.get_list_of_blobs")],
  note="Every group of blobs that can reach the returned list, over an unknown listing, must carry the condition that excludes BACKOUT."),
 dict(id="C18", rule=("reading", "folders"), title="Every day's path is listed once and folders match by whole name",
  statement="get_list_of_blobs asks for the path built from the dataset template for every cycle from start_date to end_date, each distinct path once, and returns the blobs of all of them. Blobs are matched to partition folders by whole path components only. A partition_filter selects blobs of by_<field>/<field>=<value>/ exactly when the listing has a partitioning of exactly that name, and is not applied otherwise.",
  over=["inputs"], qtext="all listings, date ranges, dataset templates and partition filters",
  why="name prefixes (by_id / by_identity, hour=1 / hour=10) and repeated paths do not occur in the test data",
  files=["mabel/data/readers/internals/base_inner_reader.py"], mech=[("days", "BaseInnerReader.get_list_of_blobs"), ("partitions", "BaseInnerReader.get_list_of_blobs, BaseInnerReader._extract_by")],
  note="Conditions and provenance of every returned group over an unknown listing, with and without a partition filter; helpers that take one blob name apart are uninterpreted functions of their arguments."),
 dict(id="C14", rule=("readercall", "whitelist"), title="A dataset outside valid_dataset_prefixes is never opened",
  statement="When Reader is given a non-empty valid_dataset_prefixes, the storage reader is only constructed for a dataset whose name, exactly as it is passed to the storage reader, starts with one of the prefixes exactly as given; otherwise AccessDenied is raised before any storage reader exists. Without a whitelist (None or empty), and for a dataset with a valid prefix, AccessDenied is never raised.",
  over=["inputs"], qtext="all dataset names, whitelists and other reader options",
  why="a hole in the whitelist shows only for particular names and option combinations",
  files=["mabel/data/readers/reader.py"], mech=[("whitelist", "Reader")],
  note="Reader is interpreted with symbolic options; every path that constructs the storage reader must carry the fact that one of the prefixes matched the very term it passes as dataset, and every AccessDenied the opposite fact."),
 dict(id="C15", rule=("readercall", "parameters"), title="A Reader call with invalid parameters is rejected before anything is read",
  statement="validate(rules) calls the function only when every parameter is named by a rule (its own or those of the RULES of a parameter value, such as the storage reader), every parameter required by either is given, and no given truthy parameter is combined with one its rule declares incompatible; otherwise InvalidReaderConfigError is raised. A rejected call has one of these faults, the arguments are passed on and the result returned unchanged, and a call never alters the rules later calls are checked against. Reader is wrapped by it.",
  over=["inputs", "histories"], qtext="parameters and sequences of calls (decided for a grid of 40 rule sets, calls and earlier calls)",
  why="error flags overwritten by a later check and rules leaking between calls need particular combinations of faults or call sequences",
  files=["mabel/utils/parameter_validator.py", "mabel/data/readers/reader.py"], mech=[("gate", "validate.__call__.wrapper")],
  note="The wrapper is interpreted with a grid of known rule sets and calls, one for each kind of fault and their combinations, each alone and after an earlier call on the same wrapper; the wrapped function must be called exactly when the rules allow the call, and with the parameters as given."),
 dict(id="C36", rule=("storage", "storage"), title="Storage readers list every object below a path once and read it whole",
  statement="get_blobs_at_path of the disk, GCS and MinIO readers asks the storage for all objects below exactly the path given, recursively, and returns one name for each object, each once, leaving out nothing but folders; the name identifies the object (bucket/object name, or the file's path). get_blob_bytes returns all bytes of exactly the blob named, and read_blob hands the reader a stream of exactly those bytes. A failing fetch surfaces as the storage's own error.",
  over=["inputs"], qtext="all storage contents, paths and date ranges",
  why="the cloud adapters are not exercised offline at all, and sub-folders, large blobs and multi-cycle reads are not in the tests",
  files=["mabel/adapters/disk/disk_reader.py", "mabel/adapters/google/google_cloud_storage_reader.py", "mabel/adapters/minio/minio_reader.py", "mabel/data/readers/internals/base_inner_reader.py"],
  mech=[("listing", "DiskReader, GoogleCloudStorageReader, MinIoReader get_blobs_at_path"), ("content", "get_blob_bytes, BaseInnerReader.read_blob")],
  note="Each adapter method is interpreted with opaque storage clients; the loops a returned name is bound by, the conditions on it, and the arguments of the listing and fetch calls are checked against the API of the client."),
 dict(id="C16", rule=("resume", "cursor"), title="A saved cursor resumes reading at exactly the next record",
  statement="Whenever a record is handed out, the reader's cursor holds the blob being read and that record's position in it. Saving and loading a cursor restores which blobs were read, the blob being read and the position (for the same set of blobs, kept in one sorted order). A resumed reader stays in a partly read blob, skips exactly the records up to and including the saved position and counts on from there; finishing a blob marks exactly that blob as read, the next blob is an unread one started before its first record, and reading ends only when every readable blob was read.",
  over=["histories", "inputs"], qtext="all sets of blobs, positions and interruption points",
  why="an off-by-one or a lost blob only shows when reading is interrupted at particular positions, in particular blobs",
  files=["mabel/data/readers/internals/cursor.py", "mabel/data/readers/reader.py"], mech=[("cursor", "Cursor.next_blob, skip_to_cursor, get, load_cursor"), ("reading loop", "_LowLevelReader._create_line_reader")],
  note="Each Cursor method is interpreted from an arbitrary cursor state over an unknown sorted list of blobs; the value stored by get is compared with what load_cursor takes from the same key; the reading loop is run with opaque blobs and the cursor's state inspected at every yield."),
 dict(id="C17", rule=("resume", "isolation"), title="An unreadable blob is reported and isolated; only data files are read",
  statement="An exception while fetching, decompressing, parsing, selecting from or filtering one blob never leaves the reader of that blob: it is logged with logger.error naming the blob, and the other blobs are still read. The reader reads only listed blobs whose extension is registered as DATA (never .complete, .ignore, .manifest or .idx files), each once, and raises DataNotFoundError when there are none instead of ending quietly.",
  over=["fault_sequences", "inputs"], qtext="a failure of any of the calls made while reading a blob; all listings",
  why="failures of individual stages and listings with only control files are not in the tests",
  files=["mabel/data/readers/internals/parallel_reader.py", "mabel/data/readers/reader.py"], mech=[("isolation", "ParallelReader.__call__"), ("selection", "_LowLevelReader._create_line_reader"), ("extensions", "KNOWN_EXTENSIONS")],
  note="Every opaque call made by the blob pipeline is given a raising outcome; the listing is unknown and the conditions of every group of blobs handed to Cursor or processed_reader are examined. The multi-process worker loop itself is outside (see not applicable)."),
 dict(id="C10", rule=("pipeline", "formats"), title="What a writer writes, a reader reads back with the matching decoder",
  statement="Every blob a BlobWriter commits, in each supported format and through each storage adapter, gets a file extension that readers know as data; the decoder registered for it undoes exactly the compression the writer applied, reads json, zstd and flat blobs record by record and parses them as JSON, and hands on parquet rows as they are. Each record of a text format is written with a newline behind it, and JSON records on one line.",
  over=["inputs", "configurations"], qtext="all records, all formats and storage adapters",
  why="the combination of writer format, adapter file name and reader table is only exercised for two formats on disk",
  files=[W + "internals/blob_writer.py", W + "internals/base_inner_writer.py", "mabel/data/readers/internals/parallel_reader.py", "mabel/data/readers/internals/decompressors.py", "mabel/data/readers/internals/parsers.py"],
  mech=[("writer", "BlobWriter.append, BlobWriter.commit"), ("table", "KNOWN_EXTENSIONS")],
  note="The name template of every adapter and the compression found in the committed bytes' term are compared, per format, with the table entry of that extension and the libraries its decoder's output term passes through."),
 dict(id="C19", rule=("pipeline", "filtering"), title="Reading yields exactly the records the filter accepts, each once",
  statement="The decoders hand on the whole content of a file, piece by piece, skipping nothing but empty pieces (and, in archives, files of unknown type). For every parsed record with its columns selected, the reader yields it once if the filter accepts it and not otherwise. The filter a reader is given (text, list or tuple) is the one applied; without one, nothing is dropped. DnfFilters.filter_dictset and DictSet.filter keep exactly the records the expression, predicate list or function accepts.",
  over=["inputs"], qtext="all files, records and filters",
  why="falsy records, rejected records in the middle and large files are not in the test data",
  files=["mabel/data/readers/internals/parallel_reader.py", "mabel/data/readers/internals/decompressors.py", "mabel/data/internals/dnf_filters.py", "mabel/data/internals/dictset.py", "mabel/data/readers/reader.py"],
  mech=[("pipeline", "ParallelReader.__call__"), ("decoders", "zstd, lzma, lines, block, parquet, csv, unzip"), ("filters", "DnfFilters, DictSet.filter, _LowLevelReader.__init__")],
  note="Each generator is drained symbolically over an unknown file or collection; in every loop turn the number of items handed out is compared with what the (uninterpreted) filter answered for that very item, and the item's provenance with the whole stream."),
 dict(id="C38", rule=("pipeline", "flattening"), title="Flattening keeps every leaf under the whole chain of keys leading to it",
  statement="records.flatten keeps every leaf value of a nested record unchanged under a key made, in order and joined by the separator, of the parent key and the leaf's key; nested dictionaries and lists are flattened with the same separator under the chain leading to them, list elements with their position in it. No value, falsy ones included, is dropped (an empty dictionary or list has no leaf).",
  over=["inputs"], qtext="all nested records and separators",
  why="lost or colliding leaves need particular nesting (lists below different fields, falsy leaves)",
  files=["mabel/data/internals/records.py"], mech=[("naming", "flatten")],
  note="flatten is interpreted over an unknown record with the recursive call left uninterpreted; each contribution to the result is checked for the leaf's provenance and for what its key is made of, and all truth assignments of the conditions on a value are enumerated for coverage."),
 dict(id="C20", rule=("dictsets", "storage"), title="Every storage class keeps all items, once and in order",
  statement="A MEMORY, DISK or COMPRESSED_MEMORY storage stores every item of the iterable it is given exactly once, whole and in order, and its length is their number (0 for none). Reading it, as often as wanted, hands out every stored item exactly once, whole and in order, whatever its value, from the first to the last; reading a storage of nothing hands out nothing. Asking for places hands out the items stored at those places.",
  over=["inputs"], qtext="all iterables, all batch and buffer boundaries",
  why="lost, repeated or shifted items show at batch sizes (250 records, 16 MB) and for falsy items, beyond the test data",
  files=["mabel/data/internals/storage_classes/storage_class_memory.py", "mabel/data/internals/storage_classes/storage_class_disk.py", "mabel/data/internals/storage_classes/storage_class_compressed_memory.py"],
  mech=[("storing", "StorageClass*.__init__"), ("reading", "StorageClass*._inner_reader, __iter__")],
  note="The constructor is interpreted over an unknown iterable: on every path on which an item is taken, exactly one write or append to the storage carries it. The readers are drained from an arbitrary stored state."),
 dict(id="C21", rule=("dictsets", "operations"), title="DictSet operations see every record and give its values",
  statement="For every storage class: iterating a DictSet hands out each record once from the first, as often as wanted; select, project and [] turn each record into exactly one record with exactly the columns asked for, holding the record's value or None where it has none, and keep the storage class; collect_list gives, in order, the value of each record that has the column (or all records); keys gives the keys of all records; count is their number, first the first; get_items the records at the places asked for; max, min, min_max, sum, mean, variance and standard_deviation are computed over all of the column's values.",
  over=["inputs", "configurations"], qtext="all records, columns and places; all four storage classes",
  why="falsy values, absent columns, repeated iteration and the storage classes are combined in ways the tests do not sample",
  files=["mabel/data/internals/dictset.py", "mabel/data/internals/dumb_iterator.py"], mech=[("operations", "DictSet.__iter__, select, collect_list, keys, count, first, get_items, max, min, sum, mean, ...")],
  note="Each operation is interpreted over a DictSet of unknown rows in each storage class; what comes out is matched, by provenance, against the rows and their conditions. Known finding: stored sets share one position between iterations."),
 dict(id="C25", rule=("dictsets", "taking"), title="Taking gives the first records; sort and take the first of all in order",
  statement="itake(n) and take(n) give the first n records as they are (all of them if there are fewer), none for n = 0. sort_and_take(column, n, descending) considers every record, sorts by the column's value in the direction asked for with records without a value apart (never compared with others), and gives the first n; records dropped early are always dropped from a sorted collection keeping at least n.",
  over=["inputs"], qtext="all records, columns and numbers",
  why="zero and boundary numbers, records without the column and more records than are kept at a time are not in the tests",
  files=["mabel/data/internals/dictset.py"], mech=[("taking", "DictSet.itake, take, sort_and_take")],
  note="The generators are drained over unknown rows with an unknown number; on every path the relation between the count of records taken and the number is read from the path's facts. Sort keys are interpreted over an unknown record."),
 dict(id="C22", rule=("grouping", "keys"), title="Distinct and group keys are equal exactly when the values are",
  statement="distinct(columns) hands out a record exactly when no earlier record had the same key and then keeps the key; the key is made of each asked column with its value (of all columns, in sorted order, without columns), the values kept apart and unchanged, so that different values never give the same text. group_by puts records in one group by such a key over its columns and keeps each column with its value for the group; groups() lists every group after all records. CollectedSet puts every record in exactly one collection, that of its value of the column, and selecting collections takes over each existing one.",
  over=["inputs"], qtext="all records and columns",
  why="colliding keys need values which read the same when joined or combined",
  files=["mabel/data/internals/dictset.py", "mabel/data/internals/group_by.py", "mabel/data/internals/collected_set.py"], mech=[("distinct", "DictSet.distinct"), ("groups", "GroupBy._map, groups"), ("collections", "CollectedSet.__init__, __getitem__")],
  note="The term of each key is taken apart: hashing and text conversion of a structure are injective, joining, combining and per-value text conversion are not; the structure must hold every column's value. (Hash collisions themselves are outside.)"),
 dict(id="C23", rule=("grouping", "aggregation"), title="Aggregations take every value that is not null into account once",
  statement="GroupBy hands on each record's value of each column once unless it is null. aggregate starts each group's SUM, MAX and MIN with the first value and combines it with every later one (+, max, min), COUNT counts every value (or record, for *), AVG is SUM by COUNT of the column, null for a group without values; zeros and other falsy values count like any value (blank texts only for COUNT), only values of that column and group are used, and an aggregation requested twice or needed by an average too is counted once. Each group gives one answer with every requested FUNC(column) and the group's columns. The caller's list is not changed; max, min, sum, average and count ask for that aggregation of every column given.",
  over=["inputs"], qtext="all records, columns and values for the requested combinations SUM, MAX, MIN, COUNT, AVG, COUNT(*), AVG with SUM or COUNT, a repeated SUM, MAX with MIN",
  why="zeros, blanks, nulls and repeated requests in a group are not in the test data",
  files=["mabel/data/internals/group_by.py"], mech=[("mapping", "GroupBy._map"), ("reducing", "GroupBy.aggregate, AGGREGATORS"), ("shorthands", "max, min, sum, average, count")],
  note="aggregate is interpreted over unknown mapped values; the update of the collector is compared, path by path, with what the path knows of the existing and the new value. Merged or unordered results of float arithmetic are outside."),
 dict(id="C26", rule=("shown", "html"), title="Data shown as HTML cannot become markup",
  statement="In the HTML table of a DictSet (html_table, to_html_table) every text that comes from the records - column names, values, the items of nested lists, the keys and values of nested dictionaries, values of any type turned to text - has each &, <, >, ' and \" replaced by its entity, & before the others, so that nothing in the data can become markup or leave an attribute.",
  over=["inputs"], qtext="records with any column names and values of any types, however nested, and any limit",
  why="one unescaped type, nesting or position is enough, and tests look at a few plain tables",
  files=["mabel/data/internals/display.py", "mabel/data/internals/dictset.py"], mech=[("html_table", "mabel/data/internals/display.py"), ("to_html_table", "mabel/data/internals/dictset.py")],
  note="Taint analysis on the text that html_table and DictSet.to_html_table give back, for every path: each piece of it is a constant, a number, or a value behind a chain of replacements (or html.escape, or a translation table) covering & < > ' \" with & first. A recursive escaping function is taken to escape and then shown to on each of its own paths."),
 dict(id="C27", rule=("filters", "simple"), title="Filters of (column, operator, value) keep exactly what they say",
  statement="A filter (column, operator, value) accepts a record exactly when the record has a value (not None) in the column and the operator - =, ==, is, !=, <>, <, >, <=, >=, like, matches, ~, in, !in, not in, contains, !contains, in any case - holds between the record's value, on the left, and the filter's value; like compares the whole text without regard to case, % standing for any text and _ for any one character, also across line breaks, and every other character for itself. A list of these accepts what all of them accept, a list of lists what any of the lists accepts, no filter everything; DnfFilters gives exactly the accepted records, unchanged and in order.",
  over=["inputs"], qtext="records, columns, values, texts and patterns, and any list or list of lists of filters",
  why="tests compare one or two values per operator; a swapped operand, a missing anchor, a pattern character which is not escaped or an operator bound to its neighbour passes them",
  files=["mabel/data/internals/dnf_filters.py", "mabel/utils/text.py"], mech=[("evaluate", "mabel/data/internals/dnf_filters.py"), ("DnfFilters", "mabel/data/internals/dnf_filters.py"), ("like", "mabel/utils/text.py"), ("matches", "mabel/utils/text.py")],
  note="For each operator and each path of `evaluate` on an unknown record, column and value, the term of the outcome (or the facts that decide it) must be that relation between record.get(column) and the value, through whatever operator module function, comparison, negation or regular expression expresses it; the regular expression made for like is judged by its parts (anchors at both ends, DOTALL, both sides folded, the text escaped before the wildcards are put in). Lists are judged by the facts about all/any over the elements; DnfFilters by the events of iterating its output."),
 dict(id="C28", rule=("filters", "meaning"), title="An expression evaluates to what its tree says",
  statement="Evaluating an Expression on a record: a constant is its value; a column (a name, with or without backticks) is the record's value, None when the record has none, and a text in the record is read as a boolean (true/false), integer, float or ISO date when it spells one; AND holds when both sides do, OR when either does, NOT when its side does not; an operator - <>, >=, <=, >, <, ==, !=, =, IS NOT, IS, NOT LIKE, LIKE, MATCHES, IN, CONTAINS - compares the left side with the right side, in that order, by its relation, and gives None where the values cannot be compared (a TypeError); IN looks for the left value among the items of the list on the right, each read as what it spells, text without its quotes.",
  over=["inputs"], qtext="records and trees of any depth, values of any types",
  why="tests evaluate a few expressions over a few planets; a swapped operand, an absent column, a value of another type, or an outcome for a pair of truth values can be wrong and never met",
  files=["mabel/data/internals/expression.py", "mabel/utils/token_labeler.py", "mabel/utils/text.py"], mech=[("Expression.evaluate", "mabel/data/internals/expression.py"), ("OPERATORS", "mabel/utils/token_labeler.py"), ("function_in", "mabel/utils/token_labeler.py"), ("like", "mabel/utils/text.py")],
  note="One step of evaluation for each kind of node (constants from TOKENS) with unknown sides whose own outcomes stand for themselves, by induction over the tree: every path's outcome term, with the facts of the path, is compared with the relation or truth table of that kind. Every operator is also followed along the path on which its comparison raises TypeError. Column and list items: the int/float/parse_iso/plain chain with the failures that lead to each."),
 dict(id="C29", rule=("syntax", "shape"), title="Expressions are parsed as written, whole, AND before OR",
  statement="The parser turns a list of tokens into: conditions joined by AND, joined by OR, so AND binds tighter than OR; NOT applies to the one condition after it; what is in parentheses is one condition; a condition is two values with an operator between, left and right as written (a function or aggregate with its parentheses is the column of that text); integers, floats, booleans, nulls, texts, dates and lists of them are their values. Every token is read once, in order, none is skipped, and an expression with tokens left over is refused. Splitting into tokens keeps the case of names and texts.",
  over=["inputs"], qtext="expressions of any length and nesting",
  why="tests parse short expressions; a token swallowed behind a NULL, a lost last term or a precedence error needs one particular sequence of tokens",
  files=["mabel/data/internals/expression.py", "mabel/utils/token_labeler.py"], mech=[("parse_expression", "mabel/data/internals/expression.py"), ("parse_and_term", "mabel/data/internals/expression.py"), ("parse_condition", "mabel/data/internals/expression.py"), ("parse_terminal", "mabel/data/internals/expression.py"), ("_case_correction", "mabel/utils/token_labeler.py")],
  note="Grammar obligations per parsing method on an unknown token list: the other methods stand for themselves and leave the reader at an unknown later position, so each path gives the sequence of sub-parses with the positions they start at, the kinds the tokens in between are known to have, the tree returned and the position left. Loops are judged for an arbitrary turn. Not decided: how text is cut into tokens by the regular expression."),
 dict(id="C30", rule=("sql", "named_data"), title="FROM only names datasets with a safe name",
  statement="SqlReader refuses a statement unless it has a SELECT and a FROM clause, and reads a dataset only when the name after FROM (dots read as /) starts with a letter, has no `..`, `//` or `--`, and has only letters, digits and `.`, `/`, `-`, `_`; every other name is refused before anything is read. A FROM in parentheses is read as a statement of its own, under the same rule.",
  over=["inputs"], qtext="statements of any length, clauses in any order and number",
  why="the name becomes a path in the storage: tests try a few names, a name which escapes needs a character or an order of clauses nobody tried",
  files=["mabel/data/readers/internals/sql_reader.py"], mech=[("SqlParser.validate_dataset", "mabel/data/readers/internals/sql_reader.py"), ("SqlParser.parse", "mabel/data/readers/internals/sql_reader.py"), ("SqlReader", "mabel/data/readers/internals/sql_reader.py")],
  note="The parser is followed over an unknown list of tokens (any clause after any others): at every exit which accepts, the facts known of the final name must entail each of the five conditions, or the name must not be text. SqlReader's read must take exactly that name. Not decided: the cutting of text into tokens; Reader's own whitelist is C14."),
 dict(id="C31", rule=("sql", "clauses"), title="Each SQL clause is read as written; other text is refused",
  statement="From the tokens of a statement the SQL parser keeps, for each of SELECT, FROM, WHERE, GROUP BY, HAVING, ORDER BY and LIMIT, the text after the keyword up to the next keyword, as written, as that clause and no other; DISTINCT right after SELECT and DESC after ORDER BY are noticed, and only these; LIMIT is a whole number; the parts of a subquery are all those between its own parentheses, nested ones included. Text which belongs to no clause is refused; each turn reads on, so parsing ends.",
  over=["inputs"], qtext="statements of any length, clauses in any order and number",
  why="tests parse a few dozen statements; a clause which swallows the next one, hangs or is dropped needs one particular combination",
  files=["mabel/data/readers/internals/sql_reader.py"], mech=[("SqlParser.parse", "mabel/data/readers/internals/sql_reader.py"), ("SqlParser.collector", "mabel/data/readers/internals/sql_reader.py")],
  note="An arbitrary turn of the parser's loop on an unknown token list, after arbitrary turns before it: which of the parser's attributes change under which keyword, and to what; collector and the loop over a subquery's parentheses are judged for an arbitrary turn as well. Not decided: comments and the regular expression which cuts text into tokens."),
 dict(id="C32", rule=("sql", "pipeline"), title="SQL clauses are all applied, in their order",
  statement="For every combination of clauses SqlReader gives the rows of FROM (a dataset, or a subquery), with the selected functions evaluated and WHERE applied, then grouped when there is a GROUP BY or an aggregation (by the columns of GROUP BY, with exactly the aggregations selected), then HAVING, then AS names, then DISTINCT over the selected columns, then ORDER BY by its column in its direction (all rows up to LIMIT; 10000 without LIMIT), then only the selected columns, then the first LIMIT rows, LIMIT 0 included. No step is applied without its clause. Selecting a column which is not grouped, in a statement which groups, is refused.",
  over=["inputs"], qtext="all 128 combinations of subquery, WHERE, GROUP BY, HAVING, DISTINCT, ORDER BY and LIMIT with unknown texts, any rows",
  why="there are 128 combinations of clauses, tests run a few; a clause ignored or applied too early in one of them gives plausible but wrong rows",
  files=["mabel/data/readers/internals/sql_reader.py"], mech=[("SqlReader", "mabel/data/readers/internals/sql_reader.py")],
  note="SqlReader is followed for each of the 128 combinations with unknown texts and unknown selected tokens; the steps of DictSet, GroupBy and Reader stand for themselves, so each path's result is a chain of steps whose order and arguments are compared with the clauses. What the steps do is C15, C19-C23, C25, C27-C29."),
 dict(id="C33", rule=("select", "columns"), title="Each SELECT column has its own name and value",
  statement="A SELECT's tokens become columns one for one, in order: a column name (in back quotes or not) has the record's value for that name or null, an integer, decimal, text, date, boolean or null constant has its value, and a function has the value of that function of all its parameters, in order, which are what is written between its parentheses. AS names the column written before it, and no other; naming columns loses no column and gives each the value of its own column, also when names are swapped or a column is named twice. `*` gives every column of the record. fields() gives the names of the columns, in order. A SELECT whose tokens end too early is refused. Evaluating does not change the record.",
  over=["inputs"], qtext="any tokens of each type, with and without AS, nested functions, any record",
  why="a type of token, a name which is another column's name, or a column selected twice only shows with statements which have it; tests have a few",
  files=["mabel/data/readers/internals/inline_evaluator.py", "mabel/data/readers/internals/sql_reader.py"],
  mech=[("evaluate_field", "mabel/data/readers/internals/inline_evaluator.py"), ("get_fields", "mabel/data/readers/internals/inline_evaluator.py"), ("build", "mabel/data/readers/internals/inline_evaluator.py"), ("Evaluator.__call__", "mabel/data/readers/internals/inline_evaluator.py"), ("_perform_renames", "mabel/data/readers/internals/sql_reader.py")],
  note="evaluate_field and get_fields are followed for a token of each type with unknown text, with and without AS; Evaluator.__call__ over any tokens; build over any list of tokens, a turn of its loops at a time; what SqlReader maps over rows to name columns on any row. What the functions themselves compute is not decided here."),
 dict(id="C34", rule=("database", "run"), title="A database writer hands each record to its inner writer once, by batch",
  statement="Every record DatabaseWriter.append accepts is either still in the pending batch or in a whole batch handed to the inner writer's commit, exactly once. Filling a batch, committing and finalizing never drop, cut or repeat pending records; a failing commit leaves the batch pending. finalize hands over what is pending first and then finalizes the inner writer once. The finalizer given to a database inner writer is run once however often finalize is called, and again only if it failed.",
  over=["histories", "fault_sequences"], qtext="all records and append/commit/finalize histories, from every reachable writer state, with the inner writer or the finalizer failing at any call",
  why="tests write to an inner writer that prints and never fails; a lost or repeated batch needs a failing commit, a batch of a particular size or a second finalize",
  files=[W + "database_writer.py", "mabel/adapters/database/base_database_writer.py"], mech=[("batch", "DatabaseWriter.append, DatabaseWriter.commit"), ("flush and finalize", "DatabaseWriter.finalize, BaseDatabaseWriter.finalize")],
  note="All paths of append, commit and finalize from an arbitrary-history writer, each call also failing; record and pending batch tracked by provenance into the argument of the inner writer's commit. Assumes orso's DataFrame keeps appended rows and that its length is its rowcount; that a failing inner commit stored nothing is the inner writer's business."),
 dict(id="C41", rule=("inline", "run"), title="SQL functions give what their name says for every kind of argument",
  statement="YEAR, MONTH, DAY, QUARTER and ISO WEEK give that part of a timestamp, a plain date or text that reads as a date; DATE, TIME, HOUR, MINUTE and SECOND likewise, a plain date counting as its midnight; text that is no date and anything else give nothing. ADDDAYS adds days and DAYSDIFF gives the signed days between any mix of timestamps, dates and date text. TRUNC, INTEGER and DOUBLE convert every value but a missing one, which stays missing. LEFT, RIGHT (RIGHT of 0 is empty), MID, UPPER, LOWER, TRIM, LEN, BETWEEN, BOOLEAN, ISNONE, ROUND and MD5 give the named value, and no function remembers answers by argument equality.",
  over=["inputs"], qtext="every function of the table with each kind of argument (timestamp, plain date, text that is and is not a date, missing, other), all values of each kind",
  why="tests call each function on one or two typical strings; plain dates, missing values, zero counts and equal values of different types are not among them",
  files=["mabel/data/readers/internals/inline_functions.py"], mech=[("dates", "get_year ... get_week, add_days, diff_days"), ("values", "FUNCTIONS, parse_number, get_md5")],
  note="Each entry of FUNCTIONS is interpreted abstractly with an argument of each kind (isinstance, type and parse_iso answered by kind); the result term of every path is compared with the named part. parse_iso itself, the standard library's date arithmetic and whether an ill-typed argument raises are not decided."),
 dict(id="C24", rule=("hashing", "run"), title="A dataset's hash does not depend on the order of records or fields",
  statement="DictSet.__hash__ gives the same number for the same records in any order, and for the same record whatever the order of its top-level fields, and every record takes part in it.",
  over=["inputs"], qtext="all records; every order of two and of three records, each with any fields in any order",
  why="a test hashes one dataset and a shuffled copy; an order dependence can hide behind equal or few records",
  files=["mabel/data/internals/dictset.py"], mech=[("hash", "DictSet.__hash__")],
  note="The method is interpreted over one, two and three unknown records; the resulting term, with commuting operators normalised, must be the same for every order of the records, contain every record, and reach a record's fields only through a sort on the field names. A fold over more records is the same operator applied again. CityHash64 and orjson are trusted; fields of nested objects are hashed in the order they are held."),
 dict(id="C42", rule=("untouched", "run"), title="The caller's records and arguments are left as they were",
  statement="Reading, selecting, filtering, sorting, grouping, collecting, aggregating, flattening, displaying, evaluating and writing never change the records they are given, nor anything inside them; loading a schema never changes the dictionary or list describing it, and filters, column lists and aggregation lists are not changed either. Results are new objects.",
  over=["inputs", "histories"], qtext="all records and arguments, every operation of DictSet, GroupBy, CollectedSet, the record helpers, evaluators and writers",
  why="tests look at what an operation returns, not at what it left behind in records shared with others",
  files=["mabel/data/internals/records.py", "mabel/data/internals/dictset.py", "mabel/data/internals/group_by.py", "mabel/data/internals/collected_set.py", "mabel/data/internals/display.py", "mabel/data/internals/dnf_filters.py", "mabel/data/readers/internals/inline_evaluator.py", "mabel/data/validator/__init__.py", W + "writer.py", W + "stream_writer.py", W + "internals/blob_writer.py", W + "database_writer.py"],
  mech=[("records", "set_value, flatten, order, DictSet.*"), ("writers", "Writer.append, StreamWriter.append, BlobWriter.append"), ("schema", "schema_loader")],
  note="Effect analysis with aliasing by provenance: every store, deletion and mutating call on every path of each operation is checked to act on an object made by the operation, not on the argument, a part of it, or a part of a shallow copy of it. Functions supplied by the caller and library calls are trusted not to change their arguments. Rewriting with set_value passes its function a copy."),
 dict(id="C43", rule=("resume", "freshness"), title="With a freshness limit the newest day with data within the limit is read",
  statement="A reader with a freshness_limit looks for data on the day asked for and then one day at a time further back, both ends of the range moving together, and reads the first day that has any; a day further back than the limit is never read, and DataNotFoundError is raised when no day within the limit has data. Without a limit only the day asked for is read. A limit together with a range of days raises InvalidCombinationError, a limit for a single day does not, and the limit applied is the one the caller gave.",
  over=["inputs"], qtext="all listings; limits from none to several days, newest data 0-4 days back or nowhere",
  why="the tests look back over one particular layout; the day at the limit, the first day beyond it and days never reached differ only for other layouts",
  files=["mabel/data/readers/reader.py", "mabel/data/readers/internals/base_inner_reader.py"], mech=[("look back", "_LowLevelReader._create_line_reader, BaseInnerReader.step_back_a_day"), ("range", "Reader")],
  note="The look-back loop is followed turn by turn for a grid of limits and newest days, with the dates symbolic, timedelta as a number of seconds and the listing a function of how far the dates have moved; Reader with the limit and the dates unknown."),
 dict(id="C39", rule=("collection", "run"), title="Answers about collections are made from the whole of each collection",
  statement="For a CollectedSet, count() gives for every collection the number of its items and count(c) that of collection c (0 where there is none); apply(m) gives for every collection what m returns for all its items, kept as a list with and without dedupe; aggregate(f, m) what m returns for the list of the non-null values of field f of all its items; items() yields every item once with its collection's name; len() and `in` speak of the collections there are; [c] holds exactly the items of c. Of a sub collection, [f] gives the values of f, [f, g] the records of both fields, get(f) the values or None where there are none.",
  over=["inputs"], qtext="all sets of collections, fields and methods",
  why="falsy names and values, empty collections and collections without the field are not in the tests",
  files=["mabel/data/internals/collected_set.py"], mech=[("collections", "CollectedSet.count, aggregate, apply, items, __getitem__"), ("sub collection", "SubCollection.__getitem__, get")],
  note="Each method is interpreted over an unknown dictionary of collections; the frozen result must have one entry for every collection, built from the items of that very collection, and the conditions on the values given to a method must be exactly that they are not null."),
 dict(id="C44", rule=("parallel", "run"), title="Reading in several processes yields the same records as reading in one",
  statement="When blobs are read by several processes (multiprocess=True), every blob is handed to exactly one process, every record of every blob is yielded exactly once with the same values - null, numbers, booleans, text, lists and nested records unchanged - for any number of blobs and CPUs and whether or not replies keep the reader waiting, and reading ends. The processes read as the reader does without them: same blobs, columns, filters and format. With a cursor, blobs are not read this way.",
  over=["schedules", "inputs", "configurations"], qtext="more than four blobs, some without records, any JSON records, 1 to 16 CPUs, replies ready at once or late, a full reply queue, pauses between blobs",
  why="no test reads with several processes; what is lost depends on the number of CPUs, the order of replies and the kinds of values",
  files=["mabel/data/readers/internals/multiprocess_wrapper.py", "mabel/data/readers/reader.py"], mech=[("processes", "processed_reader, _inner_process, serialize, fix_dict"), ("choice", "_LowLevelReader._create_line_reader")],
  note="Both sides are interpreted abstractly with queues, processes, CPU count and clock as modelled environment, compress/decompress and dumps/loads as inverse pairs; what the processes run is what the reader starts, and their reply terms are what the reader is fed. Not covered: the 600 s time limit, a process that dies, order between blobs, values JSON cannot carry (dates of parquet blobs arrive as text)."),
 dict(id="C45", rule=("tables", "tables"), title="A displayed table shows each value below the name of its own column",
  statement="ascii_table, html_table and DictSet.to_ascii_table / to_html_table with a limit of one or more show exactly the first `limit` records, in order (all of them when there are fewer), under one heading that has each column of the records shown once. Each value is shown below the name of its own column, whatever the order of the columns in its record, and a record without a column is blank there.",
  over=["inputs"], qtext="text values; records that have the same columns in another order, other columns, or only some of them; limits below, at and above the number of records",
  why="the tests show records which all have the same columns in the same order",
  files=["mabel/data/internals/display.py", "mabel/data/internals/dictset.py"], mech=[("ascii_table", "mabel/data/internals/display.py"), ("html_table", "mabel/data/internals/display.py"), ("to_ascii_table, to_html_table", "mabel/data/internals/dictset.py")],
  note="The table functions are interpreted over five sets of up to three records with unknown text values; the resulting text is cut into rows and cells at its bars or tags, and the unknown in each cell is compared with the record. How a value is written is not decided here (C26 decides that it is escaped)."),
 dict(id="C47", rule=("dating", "iso"), title="parse_iso gives the date that is written, or None, and never an error",
  statement="parse_iso gives the date and time written in a text of the form YYYY-MM-DD, with a time to the minute, second or below (below a second is left out) after a T or a space, and a Z or +offset ignored; a date is its midnight, a date and time itself, a number of seconds its time; anything else - text that is not a date, a date or time that does not exist, null, booleans, and numbers that are no time, however large - is None. It never raises.",
  over=["inputs"], qtext="texts of each form and near misses of them, dates, numbers up to infinity, values of other types",
  why="filters, expressions and partitions call it with whatever the data holds; the tests have well-formed texts and a few others",
  files=["mabel/utils/dates.py"], mech=[("parse_iso", "mabel/utils/dates.py")],
  note="parse_iso is interpreted abstractly on 73 values, with the outcomes of int, datetime and fromtimestamp on constants folded, exceptions included; every path's result is compared. Not covered: objects with to_pydatetime, numpy values, offsets below zero."),
 dict(id="C46", rule=("tokens", "cut"), title="Statements and expressions are cut into tokens without losing anything",
  statement="The tokens of a statement or expression hold all of its text (but white space outside quotes), in its order. Text in single, double or back quotes is one token, unchanged, whatever keywords, operators, brackets, other quotes or white space it holds; each operator, keyword, bracket, comma, name and number is a token of its own, also with no space around the operators, and words that only contain a keyword or function name are not cut. Keywords are put in upper case, names and quoted texts keep their case. A quote that is never closed is an error, or kept; what follows it is never dropped. get_token_type labels each token as what it is: number, literal, date, name, operator, function, boolean, null, bracket.",
  over=["inputs"], qtext="statements and expressions with quoted texts, names and operators, in several spacings",
  why="a wrongly cut token changes which records a filter selects, or silently leaves out a condition, only for particular names and quoted texts",
  files=["mabel/utils/token_labeler.py"], mech=[("Tokenizer", "tokenize, _fix_special_chars, _case_correction, collapse_whitespace"), ("splitter", "build_splitter, OPERATORS"), ("labels", "get_token_type")],
  note="Tokenizer and get_token_type are interpreted abstractly on a grid of some 290 spellings made of known pieces (20 quoted texts, 7 back-quoted names, every operator), on 9 texts with an open quote and on 124 tokens; the regular expressions, whose text the interpretation builds from the source, are folded on constants. Each result is compared with the pieces. Not covered: names with a function name after a dot, dates in quotes (C47), two names in a row."),
 dict(id="C48", rule=("naming", "paths"), title="A dataset path becomes the same folder, filled with its date, everywhere",
  statement="date_format replaces every {yyyy}, {mm}, {dd}, {HH}, {MM} and {SS} of a path by the year, month, day, hour, minute and second of the date it is given, the last five with two digits; a date without a time is its midnight. Everything else of the path, other braces included, is as it was. build_path gives the folder a dataset path names, with one / at its end: all of the path, dots in folders and letter case included, but for a file name at its end; an empty path is an error. Writers name partitions and readers look for them by these, so both find the same folder.",
  over=["inputs"], qtext="templates with each placeholder in each place, dates with and without a time",
  why="a wrong part of the date only shows on days and hours where it differs, and then data is written where no reader looks",
  files=["mabel/utils/paths.py"], mech=[("placeholders", "date_format"), ("folders", "build_path, get_parts")],
  note="date_format is interpreted abstractly on 15 templates and build_path on 16 dataset paths, each with 5 dates, the datetime and pathlib modules folded on constants; the path returned is compared. Not covered: no date given (the present moment), {stem}, a single folder, a last folder with a dot and no / (taken for a file name)."),
 dict(id="C49", rule=("naming", "likes"), title="LIKE compares the whole text with its pattern, character by character",
  statement="like(x, pattern) is true exactly when the whole of x as text, in any case, is the pattern, where % stands for any characters, none and line breaks included, and _ for any single one; every other character stands for itself, those with a meaning in regular expressions included. Nothing is like null, and null is not like anything; not_like is the opposite.",
  over=["inputs"], qtext="texts and patterns",
  why="patterns with brackets, dots, line breaks or backslashes select other records without any error",
  files=["mabel/utils/text.py"], mech=[("like", "like, not_like, _sql_like_fragment_to_regex")],
  note="like and not_like are interpreted abstractly on 68 pairs of texts and patterns; the regular expression is built by the interpretation from the source and folded on the text. The result's truth is compared."),
]
NA = [
]
