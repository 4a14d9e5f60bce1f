"""property id -> (rule module, entry, what the check decides); generated by dev/props.py"""
RULES = {
    'C01': ('buffering', 'run',
            'All paths of append and commit for each of the five formats from an arbitrary-history buffer state, with every external call also failing; the record and the prior content are tracked by provenance into the payload handed to storage. Assumes pyarrow/orso/zstandard preserve what they are given.'),
    'C02': ('completion', 'run',
            'Histories append / finalize(failure) / finalize on top of both a fresh and an arbitrary-history writer are interpreted abstractly; at every marker commit the trace must contain the commit of the accepted record and no reported failure.'),
    'C03': ('failures', 'run',
            'Exception-flow analysis: every path of every writer entry point with each storage call failing; a path that contains a failed store and ends in a normal return is reported. Pool members and the pool are analysed against opaque blob writers (assume/guarantee with the BlobWriter obligations).'),
    'C08': ('adapters', 'run',
            'Every concrete subclass of BaseInnerWriter (NullWriter is documented as storing nothing) is interpreted with symbolic bytes and name, each external call also failing; provenance of payload, target, declared length, open mode and returned name is compared on every returning path. The storage client libraries are trusted.'),
    'C09': ('adapters', 'fresh',
            'The term of the generated name on the second of two consecutive commits is inspected for every adapter: its entropy sources must be read during that commit, at full resolution, outside memoised functions. Uniqueness of nanosecond clock readings within a process is assumed.'),
    'C04': ('stream', 'backout',
            "All paths of append from an arbitrary-history writer with validation passing and failing, blob writers and pool opaque; routing is decided on the provenance of the identity each record's writer was requested under. The blob writer's own refusal of a record (parquet with a non-conforming record) propagates as an exception."),
    'C05': ('stream', 'validate_first',
            'Path-sensitive ordering check from arbitrary-history writers: at each hand-over the trace must contain the successful validate/evaluate call on the same value. The validators themselves (orso, data_expectations) are trusted.'),
    'C06': ('stream', 'locking',
            'Lockset analysis over all paths (including the never-ending attendant loop): every pool access event carries the set of locks held; they must share one lock. The pool is opaque here.'),
    'C07': ('stream', 'pool',
            'The pool methods are interpreted on pools of two and three symbolic entries (all equalities between identities explored) and, for nomination, of unbounded size; the representation of an entry is learned from create_writer.'),
    'C11': ('reading', 'frames',
            'get_list_of_blobs is interpreted over an unknown listing; for every group of blobs that reaches the result, the conditions its members satisfy and the existence facts established on the path are compared with the markers, the folder and the way the frame was taken from the sorted candidates. That frame names sort chronologically is C12.'),
    'C13': ('reading', 'dead_letters',
            'Every group of blobs that can reach the returned list, over an unknown listing, must carry the condition that excludes BACKOUT.'),
    'C18': ('reading', 'folders',
            'Conditions and provenance of every returned group over an unknown listing, with and without a partition filter; helpers that take one blob name apart are uninterpreted functions of their arguments.'),
    'C14': ('readercall', 'whitelist',
            'Reader is interpreted with symbolic options; every path that constructs the storage reader must carry the fact that one of the prefixes matched the very term it passes as dataset, and every AccessDenied the opposite fact.'),
    'C15': ('readercall', 'parameters',
            'The wrapper is interpreted with a grid of known rule sets and calls, one for each kind of fault and their combinations, each alone and after an earlier call on the same wrapper; the wrapped function must be called exactly when the rules allow the call, and with the parameters as given.'),
    'C36': ('storage', 'storage',
            'Each adapter method is interpreted with opaque storage clients; the loops a returned name is bound by, the conditions on it, and the arguments of the listing and fetch calls are checked against the API of the client.'),
    'C16': ('resume', 'cursor',
            "Each Cursor method is interpreted from an arbitrary cursor state over an unknown sorted list of blobs; the value stored by get is compared with what load_cursor takes from the same key; the reading loop is run with opaque blobs and the cursor's state inspected at every yield."),
    'C17': ('resume', 'isolation',
            'Every opaque call made by the blob pipeline is given a raising outcome; the listing is unknown and the conditions of every group of blobs handed to Cursor or processed_reader are examined. The multi-process worker loop itself is outside (see not applicable).'),
    'C10': ('pipeline', 'formats',
            "The name template of every adapter and the compression found in the committed bytes' term are compared, per format, with the table entry of that extension and the libraries its decoder's output term passes through."),
    'C19': ('pipeline', 'filtering',
            "Each generator is drained symbolically over an unknown file or collection; in every loop turn the number of items handed out is compared with what the (uninterpreted) filter answered for that very item, and the item's provenance with the whole stream."),
    'C38': ('pipeline', 'flattening',
            "flatten is interpreted over an unknown record with the recursive call left uninterpreted; each contribution to the result is checked for the leaf's provenance and for what its key is made of, and all truth assignments of the conditions on a value are enumerated for coverage."),
    'C20': ('dictsets', 'storage',
            'The constructor is interpreted over an unknown iterable: on every path on which an item is taken, exactly one write or append to the storage carries it. The readers are drained from an arbitrary stored state.'),
    'C21': ('dictsets', 'operations',
            'Each operation is interpreted over a DictSet of unknown rows in each storage class; what comes out is matched, by provenance, against the rows and their conditions. Known finding: stored sets share one position between iterations.'),
    'C25': ('dictsets', 'taking',
            "The generators are drained over unknown rows with an unknown number; on every path the relation between the count of records taken and the number is read from the path's facts. Sort keys are interpreted over an unknown record."),
    'C22': ('grouping', 'keys',
            "The term of each key is taken apart: hashing and text conversion of a structure are injective, joining, combining and per-value text conversion are not; the structure must hold every column's value. (Hash collisions themselves are outside.)"),
    'C23': ('grouping', 'aggregation',
            'aggregate is interpreted over unknown mapped values; the update of the collector is compared, path by path, with what the path knows of the existing and the new value. Merged or unordered results of float arithmetic are outside.'),
    'C26': ('shown', 'html',
            'Taint analysis on the text that html_table and DictSet.to_html_table give back, for every path: each piece of it is a constant, a number, or a value behind a chain of replacements (or html.escape, or a translation table) covering & < > \' " with & first. A recursive escaping function is taken to escape and then shown to on each of its own paths.'),
    'C27': ('filters', 'simple',
            'For each operator and each path of `evaluate` on an unknown record, column and value, the term of the outcome (or the facts that decide it) must be that relation between record.get(column) and the value, through whatever operator module function, comparison, negation or regular expression expresses it; the regular expression made for like is judged by its parts (anchors at both ends, DOTALL, both sides folded, the text escaped before the wildcards are put in). Lists are judged by the facts about all/any over the elements; DnfFilters by the events of iterating its output.'),
    'C28': ('filters', 'meaning',
            "One step of evaluation for each kind of node (constants from TOKENS) with unknown sides whose own outcomes stand for themselves, by induction over the tree: every path's outcome term, with the facts of the path, is compared with the relation or truth table of that kind. Every operator is also followed along the path on which its comparison raises TypeError. Column and list items: the int/float/parse_iso/plain chain with the failures that lead to each."),
    'C29': ('syntax', 'shape',
            'Grammar obligations per parsing method on an unknown token list: the other methods stand for themselves and leave the reader at an unknown later position, so each path gives the sequence of sub-parses with the positions they start at, the kinds the tokens in between are known to have, the tree returned and the position left. Loops are judged for an arbitrary turn. Not decided: how text is cut into tokens by the regular expression.'),
    'C30': ('sql', 'named_data',
            "The parser is followed over an unknown list of tokens (any clause after any others): at every exit which accepts, the facts known of the final name must entail each of the five conditions, or the name must not be text. SqlReader's read must take exactly that name. Not decided: the cutting of text into tokens; Reader's own whitelist is C14."),
    'C31': ('sql', 'clauses',
            "An arbitrary turn of the parser's loop on an unknown token list, after arbitrary turns before it: which of the parser's attributes change under which keyword, and to what; collector and the loop over a subquery's parentheses are judged for an arbitrary turn as well. Not decided: comments and the regular expression which cuts text into tokens."),
    'C32': ('sql', 'pipeline',
            "SqlReader is followed for each of the 128 combinations with unknown texts and unknown selected tokens; the steps of DictSet, GroupBy and Reader stand for themselves, so each path's result is a chain of steps whose order and arguments are compared with the clauses. What the steps do is C15, C19-C23, C25, C27-C29."),
    'C33': ('select', 'columns',
            'evaluate_field and get_fields are followed for a token of each type with unknown text, with and without AS; Evaluator.__call__ over any tokens; build over any list of tokens, a turn of its loops at a time; what SqlReader maps over rows to name columns on any row. What the functions themselves compute is not decided here.'),
    'C34': ('database', 'run',
            "All paths of append, commit and finalize from an arbitrary-history writer, each call also failing; record and pending batch tracked by provenance into the argument of the inner writer's commit. Assumes orso's DataFrame keeps appended rows and that its length is its rowcount; that a failing inner commit stored nothing is the inner writer's business."),
    'C41': ('inline', 'run',
            "Each entry of FUNCTIONS is interpreted abstractly with an argument of each kind (isinstance, type and parse_iso answered by kind); the result term of every path is compared with the named part. parse_iso itself, the standard library's date arithmetic and whether an ill-typed argument raises are not decided."),
    'C24': ('hashing', 'run',
            "The method is interpreted over one, two and three unknown records; the resulting term, with commuting operators normalised, must be the same for every order of the records, contain every record, and reach a record's fields only through a sort on the field names. A fold over more records is the same operator applied again. CityHash64 and orjson are trusted; fields of nested objects are hashed in the order they are held."),
    'C42': ('untouched', 'run',
            'Effect analysis with aliasing by provenance: every store, deletion and mutating call on every path of each operation is checked to act on an object made by the operation, not on the argument, a part of it, or a part of a shallow copy of it. Functions supplied by the caller and library calls are trusted not to change their arguments. Rewriting with set_value passes its function a copy.'),
    'C43': ('resume', 'freshness',
            'The look-back loop is followed turn by turn for a grid of limits and newest days, with the dates symbolic, timedelta as a number of seconds and the listing a function of how far the dates have moved; Reader with the limit and the dates unknown.'),
    'C39': ('collection', 'run',
            'Each method is interpreted over an unknown dictionary of collections; the frozen result must have one entry for every collection, built from the items of that very collection, and the conditions on the values given to a method must be exactly that they are not null.'),
    'C44': ('parallel', 'run',
            'Both sides are interpreted abstractly with queues, processes, CPU count and clock as modelled environment, compress/decompress and dumps/loads as inverse pairs; what the processes run is what the reader starts, and their reply terms are what the reader is fed. Not covered: the 600 s time limit, a process that dies, order between blobs, values JSON cannot carry (dates of parquet blobs arrive as text).'),
    'C45': ('tables', 'tables',
            'The table functions are interpreted over five sets of up to three records with unknown text values; the resulting text is cut into rows and cells at its bars or tags, and the unknown in each cell is compared with the record. How a value is written is not decided here (C26 decides that it is escaped).'),
    'C47': ('dating', 'iso',
            "parse_iso is interpreted abstractly on 73 values, with the outcomes of int, datetime and fromtimestamp on constants folded, exceptions included; every path's result is compared. Not covered: objects with to_pydatetime, numpy values, offsets below zero."),
    'C46': ('tokens', 'cut',
            'Tokenizer and get_token_type are interpreted abstractly on a grid of some 290 spellings made of known pieces (20 quoted texts, 7 back-quoted names, every operator), on 9 texts with an open quote and on 124 tokens; the regular expressions, whose text the interpretation builds from the source, are folded on constants. Each result is compared with the pieces. Not covered: names with a function name after a dot, dates in quotes (C47), two names in a row.'),
    'C48': ('naming', 'paths',
            'date_format is interpreted abstractly on 15 templates and build_path on 16 dataset paths, each with 5 dates, the datetime and pathlib modules folded on constants; the path returned is compared. Not covered: no date given (the present moment), {stem}, a single folder, a last folder with a dot and no / (taken for a file name).'),
    'C49': ('naming', 'likes',
            "like and not_like are interpreted abstractly on 68 pairs of texts and patterns; the regular expression is built by the interpretation from the source and folded on the text. The result's truth is compared."),
}
