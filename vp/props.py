"""What each property's check consists of."""
def src(bin): return dict(name='src', bin=bin)
def srt(bin): return dict(name='srt', bin=bin)
import svc as _svc
def svc_(b): return dict(name='svc', bin=b, gen=_svc.service)
def nat_(b): return dict(name='nat', bin=b, gen=_svc.native)
def js_(b): return dict(name='jsn', bin=b, gen=_svc.js)
SVC = 'replays of the service crate compile its unedited sources against stand-ins for the dependencies that are missing offline (harness/svc/stubs), with the system clock replaced by a settable one'
PROPS = {
 'C01': dict(specs=['C01/spec.rs'], harness=[src('c01')],
   assumptions=['debugid / uuid / symbolic::common::split_path behave as their contracts in props/ids.rs say']),
 'C02': dict(specs=['C02/spec.rs'], harness=[srt('c02')],
   assumptions=['symbolic::debuginfo::Object answers as its contract in props/object.rs says; a PDB or portable PDB has no code id', 'CodeId and uuid texts contain no slash (theorem_distinct)', 'the identities left out by the precondition of the two theorems are exactly the recorded known findings']),
 'C03': dict(specs=['C03/spec.rs'], harness=[src('c03')],
   assumptions=['glob::Pattern::matches_with is uninterpreted (the options passed to it are specified)']),
 'C04': dict(specs=['C04/spec.rs'], harness=[src('c04')],
   assumptions=['the trait header `Iterator for SourceLocationIter` is dropped: next is verified as an inherent function of the same text', 'contracts of get_directory_paths, is_allowed and SourceIndex::contains are those discharged by C01, C03, C05']),
 'C05': dict(specs=['C05/spec.rs'], harness=[src('c05'), svc_('c05s')],
   assumptions=['BufRead::lines, str::split, str::split_terminator and BTreeSet behave as their contracts say', 'UTF-8 decoding inverts encoding', 'a Cacher answers a request with what an equal request computed (C08, C10-C12); the downloader delivers the file that was named (C15)', 'join_all yields the outcomes in order; the fallback of an error on a last id is verified as its match', SVC],
   uncovered=['the memoization of the last id: replay only (restarts, several sources)']),
 'C06': dict(specs=['C06/spec.rs'], support=['C01/spec.rs'], harness=[src('c06')],
   assumptions=['code ids, uuids and debug ids render as hexadecimal digits and dashes; Unicode case mapping creates neither separators nor dots', 'PathBuf::join and url::Url behave as documented (covered by the replay only)', 'the paths a layout generates are those of its contract (discharged by C01; the same contracts are re-checked here as support)'],
   uncovered=['SourceLocation::to_url and FilesystemRemoteFile::path (std PathBuf and url crate): replay only']),
 'C07': dict(specs=['C07/spec.rs'], support=['C01/spec.rs'], harness=[src('c07')],
   assumptions=['CodeId::new lower-cases hexadecimal text and uuids / GUID-based debug ids parse back from their own rendering (debugid, uuid crates)', 'Unicode lower-casing maps only ASCII letters and U+0130/U+212A to text containing ASCII letters (k and i are excluded from the marker prefixes or handled by ax_lower_prefix)', 'the paths the layout generates are those of its contract (discharged by C01)']),
 'C22': dict(specs=['C22/spec.rs'], harness=[srt('c22')],
   assumptions=['Regex::replace_all with the pattern [^a-zA-Z0-9.,-]+ replaces maximal runs of other characters', 'sort_files and process_file use the bundle id only as a path segment below the output directory (replayed)', 'RunConfig::configure in execute is dropped (R15); totals stay below the machine range'],
   uncovered=['sort_files, process_file: the use of the bundle id is replayed only']),
 'C23': dict(specs=['C23/spec.rs'], harness=[srt('c23')],
   assumptions=['std::fs creates exclusively, appends what it copies, and touches only the named file', 'object locations have no extension and no refs directory above them (identifiers are hexadecimal)', 'contracts of get_unified_id and get_target_filename are those discharged by C02', 'Archive::objects lists the objects of the file; zstd is lossless'],
   uncovered=['process_zip_archive, sort_files (rayon closures) and the printed totals: replay only']),
 'C24': dict(specs=['C24/spec.rs'], harness=[srt('c24')],
   assumptions=['wasmbin decodes a module to its list of sections and writes sections it did not change as the bytes it read', 'File::create / BufWriter / encode_into are modelled as a log of written modules', 'the command line parse and the final println are dropped (R15)']),
 'C29': dict(specs=['C29/spec.rs'], harness=[svc_('c29')],
   assumptions=['moka: a value read under a key was stored under an equal key', 'AWS SDK: a client uses the credentials, region and endpoint of its configuration; Google grants a token to the issuer and key of the assertion', 'derived PartialEq of S3Region, AwsCredentialsProvider and GcsSourceKey compares every field', SVC]),
 'C08': dict(specs=['C08/spec.rs'], support=['C09/spec.rs'], harness=[svc_('c08')],
   assumptions=['a Cacher hands out for a key what was computed for, or found under, that key (the item cache, moka and the files; replayed)', 'distinct scopes give distinct keys (discharged by C09, re-checked here as support)', 'Sentry debug file ids belong to the source they are listed by', 'Arc sharing is plain ownership; the futures of a join_all are evaluated in order (R20); sentry hub bindings are dropped', SVC],
   uncovered=['symcache, CFI and portable PDB caches reuse the key of the object they are derived from; JavaScript and Proguard requests always use the requesting scope: not under contract', 'the index of a private source (recorded finding)']),
 'C09': dict(specs=['C09/spec.rs', 'C09/uri.rs'], harness=[svc_('c09')],
   assumptions=['SHA-256 has no collisions', 'url::Url keeps the path segments it is given apart in its text, for ordinary segments (not empty, `.` or `..`, no control characters)', 'Debug of str is injective, starts with a quote and has no line break; decimal and hexadecimal rendering are injective', SVC],
   uncovered=['uris of filesystem and HTTP files are std Path::display and url crate text: replay only']),
 'C10': dict(specs=['C10/spec.rs'], harness=[svc_('c10')],
   assumptions=['durations and wall-clock times are numbers of nanoseconds, Duration::MAX the largest; the clock has one reading per call; an Instant can represent the next hundred years', 'file system calls report what is on disk or fail; contents and metadata files read back as stored (C11; serde_json)', 'moka holds an item in memory until its deadline', 'the closure of open_cachefile is verified as its body; catch_not_found, which it is passed to, has its own contract', SVC],
   uncovered=['lookups through memory.rs (fallback versions, refreshes): replay only']),
 'C11': dict(specs=['C11/spec.rs'], harness=[svc_('c11'), svc_('c11s')],
   assumptions=['a tokio File is its bytes and a cursor: rewind, write_all, stream_position, set_len and flush do what std::io documents, or fail', 'humantime reads every duration it formats back as that duration, and formats it without NUL', 'String::from_utf8_lossy keeps well formed text', 'a slice is split at the first byte its closure accepts', 'write_cache_file moves the temp file to the path of the key (C12)', 'a handle opened anew on the temp file and its mapping show the bytes of that file; an i/o error becomes an InternalError (C15)', SVC],
   uncovered=['a request computes into a blank file (for the kinds of requests: replay of the service)']),
 'C12': dict(specs=['C12/spec.rs'], harness=[svc_('c12')],
   assumptions=['decimal and hexadecimal rendering are injective', 'Path::join appends the path, the metadata path lies in the same version directory (set_extension)', 'an i/o error becomes an InternalError on `?`', 'open_cachefile reports what is stored at the path (C10)', SVC],
   uncovered=['what compute stores is the subject of C11, the refresh of an outdated item that of C33', 'static assertions against format versions of the symbolic crate']),
 'C13': dict(specs=['C13/spec.rs', 'C13/body.rs'], harness=[svc_('c13')],
   assumptions=['decimal rendering of a number is read back by str::parse', 'str::trim keeps text without white space at its ends', 'u64::div_ceil of a positive number lies between 1 and the number', 'reqwest, the runtime and the destination: answers carry the bytes their headers name; a request without a range gets no partial answer', SVC],
   uncovered=['try_into_streams, set_size and flush of the destination: replay only', 'a timeout is taken to happen before the transfer (it ends in an error either way)']),
 'C14': dict(specs=['C14/spec.rs'], harness=[svc_('c14')],
   assumptions=['the wall clock does not run backwards and shows less than 2^64 ms since 1970', 'moka drops the record of a host only when it was unused for the window, and a blocked host exactly after the block time (replayed with a stand-in of moka)', 'fewer than 2^64 failures are recorded per host', 'VecDeque behaves as its documentation says; SystemTime::duration_since(UNIX_EPOCH).unwrap_or_default() is the time since 1970', 'the guard of the queue is held for the whole of register_failure (std Mutex)', SVC],
   uncovered=['the spawning of the download on the runtime and its timeout (dispatch_download behind tokio::time::timeout): replay only', 'durations of more than a thousand years in the configuration (moka refuses them at startup)']),
 'C15': dict(specs=['C15/spec.rs'], harness=[svc_('c15')],
   assumptions=['reqwest, the AWS client and the file system report what their answers say; the conversion of an AWS error keeps its code', 'how the transfer of one body ends (SymResponse::download, download_stream) is an input of the contracts', 'the reading of Content-Range is the subject of C13', 'FuturesUnordered yields the outcome of every part; try_next stops at a failed one', 'in dispatch_download the attempt handed to retry is taken as its last one; a request keeps its address when headers are added (C32 has the exact headers)', SVC],
   uncovered=['content_length_timeout (floating point)']),
 'C16': dict(specs=['C16/spec.rs'], harness=[svc_('c16')],
   assumptions=['str::lines yields the lines of the text in order (the replay has a splitter of its own); UTF-8 lengths and boundaries are as the encoding says; a text is at most isize::MAX bytes long', 'a source bundle session answers every question for one name alike', 'usize has 64 bits'],
   uncovered=['that the text handed over is the source of that frame (try_set_source_context, build_source_file_name, the JS source map lookup)', 'str::lines itself']),
 'C19': dict(specs=['C19/spec.rs'], harness=[svc_('c19')],
   assumptions=['the contracts of the standard library: binary_search_by_key on a slice sorted by that key, sort_by_cached_key orders and keeps the elements, dedup_by_key keeps the first of equal neighbours', 'the derived order of SourceId and RemoteFileUri is the order of their texts', 'the set of source ids is modelled as a list up to membership', 'lookups and sources together fit usize'],
   uncovered=['the deserialization of AllObjectCandidates', 'derive_from_object_handle and select_meta: which file is picked and what its features are']),
 'C17': dict(specs=['C17/spec.rs'], support=['C18/spec.rs'], harness=[nat_('c17')],
   assumptions=['slice::binary_search_by_key finds an equal key or the place for it, depending on the keys alone', 'symbolic: InstructionInfo aligns, steps back and decides by signal, register and frame as documented; a symcache answers with the lines of an address', 'that the modules are sorted and complete is the contract of ModuleLookup::new (C18, re-checked here as support)', SVC],
   uncovered=['symbolicate_stacktrace: what a function name is demangled to and which frame looks like the start of a thread (replay only)', 'the lookup in portable PDBs (symbolicate_dotnet_frame)']),
 'C18': dict(specs=['C18/spec.rs'], harness=[nat_('c18')],
   assumptions=['slice::sort_by_key is stable and keeps the elements', 'the futures of a join_all are evaluated in order (R20); sentry hub bindings are dropped', 'the caches and the objects actor answer a query as a function of it; merging candidates is the subject of C19', 'the generic iterator of ModuleLookup::new is a vector', SVC],
   uncovered=['SymbolicationActor::symbolicate calls new, fetch_caches, fetch_sources and into_inner in this order: replay only', 'request parsing']),
 'C20': dict(specs=['C20/spec.rs'], harness=[nat_('c20')],
   assumptions=['the standard library formats and reads numerals to the bases 10 and 16 as defined in the specification (an optional plus sign, at least one digit, no overflow)', 'ToString writes what Display writes; serde passes strings and integers on unchanged', SVC],
   uncovered=['derived serde implementations (ObjectType serializes, FileType both ways) and the dispatch of Deserialize for HexValue, AddrMode and ObjectType: replay only (exhaustive in the types)']),
 'C25': dict(specs=['C25/spec.rs'], harness=[nat_('c25')],
   assumptions=['reading memory through a pointer into a buffer is defined when the value lies in the buffer, and needs alignment only for references (the contracts of `add`, `read_unaligned` and `slice_from_raw_parts`)', 'the compiler lays #[repr(C)] structs out as C does (R29)', 'a 64-bit usize', 'the minidump crate hands out the bytes of the stream'],
   uncovered=['merging the client-side stack traces with those of the minidump (process_minidump.rs does not build here)']),
 'C26': dict(specs=['C26/spec.rs', 'C26/query.rs'], harness=[js_('c26')],
   assumptions=['symbolic finds the reference and the debug id in a text and looks a bundle up by address or debug id; data-url decodes an embedded source map', 'the cache of files in bundles answers with what an earlier request found in one of these bundles for the same key', 'a BTreeMap is iterated in the order of its keys; HashMap::get finds what was inserted', 'the source file cache fetches the given remote file', 'what a bundle fetch yields is a function of the file for one run; a BTreeMap collects the last of two pairs with one name; what a lookup asks for is the subject of C32', SVC],
   uncovered=['artifact bundles: proof only (none can be built here)']),
 'C27': dict(specs=['C27/spec.rs'], harness=[js_('c27')],
   assumptions=['the regex crate decides the webpack namespace pattern as its text says; what replacing CLEAN_MODULE_RE removes is an uninterpreted function of the checked pattern text and the path (the replay interprets it)', 'the source map cache answers with the token of a position (symbolic)', 'the futures are evaluated in order (R19)', SVC],
   uncovered=['the rules inside CLEAN_MODULE_RE (folders, versions, commits): replay only', 'SourceMapLookup::get_module, get_source_file and get_context_lines are functions of their arguments here (C26, C16)']),
 'C28': dict(specs=['C28/spec.rs', 'C28/config.rs'], support=['C10/spec.rs'], harness=[svc_('c28')],
   assumptions=['nobody else changes the cache tree while a run goes over it; the tree is finite and without links to directories', 'std::fs removes the named file, directory or directory tree and nothing else, or fails; a directory is listed completely or fails', 'when a file has expired is the subject of C10 (re-checked here as support)', 'entries are judged one by one or in groups of any kind (rule R26 for the parallel fold); the statistics are dropped', 'a shuffled vector holds the same caches', 'the From conversions of the configuration of a kind of cache keep kind and values; std::fs::create_dir_all creates the directory or fails', SVC],
   uncovered=['the four From conversions into CacheConfig: replay only']),
 'C21': dict(specs=['C21/spec.rs'], harness=[svc_('c21')],
   assumptions=['the url crate takes an address apart; idna turns a domain name into its ASCII form or refuses it', 'ipnetwork compares the leading bits of two addresses; a client refuses what its address filter refuses, also after redirects', 'a range of the list is read from its text by the extraction (rule R27)', 'setting the fragment of an address leaves everything else as it is', SVC],
   uncovered=['ArtifactFetcher::scrape has no replay (contract only)', 'redirects of an allowed address to one that is not', 'source links of native modules: they are part of the debug file, and fetched from wherever it points to', 'connections to the Sentry API and to S3 are not restricted']),
 'C32': dict(specs=['C32/spec.rs'], harness=[js_('c32'), svc_('c32s')],
   assumptions=['the url crate keeps the base of an address when parameters are appended, and the text of an address names scheme, host and port in full up to a slash: an address that starts with another is at the same server', 'reqwest sends the headers a request was built with, to its address, and drops credentials on a redirect to another host', 'moka: what is read under a query was stored under an equal one; the derived comparison of SearchQuery compares address and token', 'Google grants a token to the issuer and key that asked for it (C29); retry runs the request it is given (C15)', 'a spawned task and its timeout hand over its outcome or an error (R19)', SVC],
   uncovered=['the token of the shared cache (always its own bucket), S3 (the AWS SDK signs requests; C29)', 'headers of scraping requests for JavaScript files are sent to the allowed origins of the request: C21 decides where to']),
 'C33': dict(specs=['C33/spec.rs', 'C28/config.rs'], harness=[svc_('c33')],
   assumptions=['the counter shows the limit less the places held by anybody (each caller is shown to hold one per refresh that runs and none otherwise); fetch_sub and fetch_add are atomic', 'the lock of the running keys is held from vp_lock to the drop of its guard; what others do in between is arbitrary', 'CallOnDrop runs its closure exactly once, when it is dropped (replayed, also with panics and runtimes that are shut down)', 'a spawned task runs its body once or is dropped; its body is checked in place (the sentry transaction is dropped)', 'what compute does is the subject of C11 and C12; for how long an entry is kept that of C10', 'clones of an Arc and of a moka cache are the same value', SVC],
   uncovered=['the coalescing of requests by moka (compute_memoized): replay only', 'CallOnDrop itself (a boxed closure): replay only']),
}
NOT_APPLICABLE = {
 'C30': 'a property of the interleavings of async tasks; a Verus contract speaks about one call, and the tokio/moka/futures-shared code that decides it is outside the verifier (and does not build here)',
 'C31': 'liveness of an async server under timeouts; deductive contracts over single calls cannot express eventual completion of scheduled tasks',
}
