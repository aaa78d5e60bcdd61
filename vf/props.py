"""The property list (source of properties.jsonl) - python3 -m vf.gen writes it out."""

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None))

T = 'srcs/toolbox/'
LIST = [
 P('P01', 'Priority queue evicts a maximal element and never loses or invents one',
   'After any sequence of pushes and evictions the queue holds exactly the (key, value) pairs pushed and not yet evicted; eviction and peek return a pair whose key is a maximum of those held, with its own value. A push on a full queue is refused with -2 and changes nothing; an eviction from an empty queue returns NULL; empty/full report the exact fill state.',
   ['histories', 'inputs'], 'every capacity, every finite interleaving of push/delmax/peekmax with arbitrary (non NaN) keys, duplicates included',
   'one test pushes and drains a few fixed keys; heap order and permutation must hold for every size and every interleaving',
   [T + 'pqueue.c'], [('bubble_up / bubble_down restore heap order', T + 'pqueue.c'), ('u_pq_push, u_pq_delmax', T + 'pqueue.c')],
   [('q[1..nelems]', 'implicit binary heap', T + 'pqueue.c')]),
 P('P02', 'Ring buffer is a byte FIFO of fixed capacity',
   'For every capacity and every sequence of writes, reads, fast reads and clears, the bytes read are exactly the bytes written, in order, each once; a write stores as many bytes as fit, a read returns as many as are there, and requests larger than the capacity are refused. ready() and avail() always add up to the capacity, and nothing outside the caller supplied range is touched.',
   ['histories', 'inputs', 'configurations'], 'every capacity, every implementation (wrapped or contiguous, malloc or mmap), every operation sequence and length, wrap-around positions included',
   'tests use a handful of sizes; the wrap-around, exactly-full and fragment-boundary cases are a matter of offsets the tests do not reach',
   [T + 'rb.c'], [('write_wrapped / read_wrapped fragment at the end of the buffer', T + 'rb.c'), ('write_contiguous + mirror keep the two halves equal', T + 'rb.c')]),
 P('P03', 'String objects hold exactly the text put into them',
   'After any sequence of create, set, append, copy, printf-style, trim, shorten and clear operations the content of a string object is exactly the text those operations denote, NUL terminated, and the reported length is its length. A failed operation leaves a valid NUL terminated string (the old content, or the empty string if the operation started by clearing) and leaks nothing.',
   ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations, every NUL-free text and length, every growth boundary, every allocation failure',
   'tests append a few fixed strings; the growth arithmetic and the in-place retry of printf depend on exact lengths',
   [T + 'str.c'], [('u_string_append growth loop', T + 'str.c'), ('u_string_do_vprintf retry', T + 'str.c'), ('u_string_reserve', T + 'str.c')],
   [('data/data_sz/data_len', 'len <= size, data[len] == 0', T + 'str.c')]),
 P('P04', 'Binary buffers hold exactly the bytes put into them',
   'After any sequence of append, set, printf, load, shrink, reserve and clear the buffer content is exactly the bytes those operations denote, its length never exceeds its capacity, and data added by append, set, printf or load is followed by a NUL. Loading yields the file content (also for an empty file), saving writes exactly the content, and a failed append or printf leaves the old content.',
   ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations, sizes and contents; every allocation or file failure',
   'no stable test touches the module; growth and retry depend on exact lengths',
   [T + 'buf.c', T + 'misc.c'], [('u_buf_append / u_buf_reserve', T + 'buf.c'), ('u_buf_printf retry', T + 'buf.c'), ('u_buf_load', T + 'buf.c')]),
 P('P05', 'Base64 encoding is the RFC 4648 text and stays within the output buffer',
   'Encoding any non-empty byte string produces exactly its RFC 4648 base64 text, NUL terminated whenever the buffer has room for the terminator. The call succeeds exactly when the text fits the output buffer, and no byte outside that buffer is ever written.',
   ['inputs'], 'every byte string of every length, every output buffer size',
   'tests encode a few fixed strings with a generous buffer',
   [T + 'b64.c'], [('u_b64_encode, chunk_encode', T + 'b64.c')]),
 P('P06', 'Base64 decoding inverts encoding and stays within the output buffer',
   'Decoding the base64 text of any byte string gives back exactly that byte string and its length. Text with a character outside the alphabet, misplaced padding or an incomplete final group is refused, an output buffer too small for the data is refused, and for any text whatever no byte outside the given output buffer is written and nothing outside the input is read.',
   ['inputs'], 'every byte string; every text over all 256 byte values; every output buffer size',
   'tests decode a few fixed texts with a generous buffer; bytes >= 0x80 and exact-size buffers are not tried',
   [T + 'b64.c'], [('u_b64_decode, chunk_decode, table D', T + 'b64.c')]),
 P('P07', 'Lists keep exactly the inserted items in positional order',
   'A list behaves as a finite sequence: add appends, insert at n places the item before the current n-th one, delete of n removes and hands back exactly that item, get of n and iteration show the sequence in order, and the count is its length. Positions out of range are refused and change nothing.',
   ['histories', 'inputs'], 'every sequence of add/insert/delete/get/iterate/clear with every position',
   'one test walks one fixed list',
   [T + 'list.c'], [('u_list_insert, u_list_del_n, u_list_get_n, iterators', T + 'list.c')]),
 P('P08', 'Dynamic arrays return what was last stored at each index',
   'For every element type, getting index i returns the value most recently set at i, growing the array never changes elements already stored, and set reports the previous value; slots never set read as zero. Indices beyond the end are refused by get and make set grow the array; sizes that cannot be represented are refused.',
   ['histories', 'inputs'], 'every sequence of set/get/resize, every index order and element type',
   'tests fill a few arrays with fixed patterns',
   [T + 'array.c'], [('u_array_resize, u_array_set_*/get_*', T + 'array.c')]),
 P('P09', 'Binary search trees are ordered multimaps',
   'After any sequence of pushes and deletions a tree holds exactly the pairs pushed and not deleted (equal keys are kept side by side): search returns one of the pairs with the given key and NULL for keys not present, delete removes exactly one matching pair, traversal and rank selection list every pair once in comparator order, and the count is their number. Holds for pointer, string and opaque keys and values, any insertion option and re-balancing; a failed push changes nothing.',
   ['histories', 'inputs', 'configurations'], 'every sequence of push/delete/find with every key type and comparator, any outcome of the random balancing',
   'tests sort and search one random set; deletion and balancing mixes are not reached',
   [T + 'bst.c'], [('rotations, root insertion, join', T + 'bst.c')]),
 P('P10', 'Hash maps are finite maps',
   'After any sequence of puts, deletions and lookups (no discard policy), a lookup returns exactly the value last stored under that key and not-found for absent keys, and the element count is the number of keys. This holds for chaining and linear probing, for custom hash and compare functions, with and without overwrite, across resizing, and when all elements are moved to an empty map (u_hmap_copy).',
   ['histories', 'inputs', 'configurations'], 'every operation sequence, every pattern of hash collisions, every initial size and probing type',
   'tests use keys that rarely collide; deletion followed by lookup over a collision run is not reached',
   [T + 'hmap.c'], [('_get / _put / _del probing', T + 'hmap.c'), ('_resize, u_hmap_copy', T + 'hmap.c')]),
 P('P11', 'Bounded hash maps discard exactly the element their policy names',
   'A hash map with a discard policy and maximum size M never holds more than M elements; when a new key is put into a full map, the element discarded is the one stored first (FIFO; overwriting a key stores it anew), the least recently stored or looked up (LRU), one with the fewest lookups (LFU), or the one of lowest priority under its custom policy, and every other element stays retrievable. Deleting an element and then filling the map again never touches freed memory.',
   ['histories', 'inputs', 'configurations'], 'every sequence of put/get/delete for every policy, size and probing type',
   'the test fills one map once per policy; deletions between insertions are not reached',
   [T + 'hmap.c'], [('_queue_push / discard queue', T + 'hmap.c')]),
 P('P12', 'Hash maps free what they own exactly once and nothing else',
   'When the map owns its data, every key and value it was given is released exactly once - on overwrite, deletion, discard, clear or free; when the user owns the data the map never releases or retains it, and freeing the map leaves no allocation behind.',
   ['histories', 'configurations'], 'every ownership mode, every operation sequence',
   'tests run a few fixed sequences without checking the allocator',
   [T + 'hmap.c'], [('u_hmap_o_free, data_del, clear', T + 'hmap.c')]),
 P('P13', 'The lexer walks its input byte by byte and never beyond its end',
   'For every input string the lexer delivers its characters in order, each once, skipping exactly the white space when asked to, reports the end with a failure and never reads past it; peeking does not consume, and the text between a bookmark and the cursor is exactly the consumed input, including in error messages of bounded size.',
   ['histories', 'inputs'], 'every input string over all byte values, every call sequence',
   'one test scans a fixed string',
   [T + 'lexer.c'], [('u_lexer_next / peek / record', T + 'lexer.c')]),
 P('P14', 'URIs are split into components as RFC 3986 prescribes',
   'Every string that is a URI with an authority per RFC 3986 (within the documented token sizes; the port may also be the wildcard *) is accepted and its scheme, user information, host, port, path, query and fragment are exactly those of the generic syntax. Strings the syntax rules out - bad scheme, bad characters, bad percent escapes - are refused; no input makes the parser read or write out of bounds.',
   ['inputs'], 'every string over all byte values up to and beyond the token limits',
   'tests parse a few dozen fixed URIs',
   [T + 'uri.c', T + 'lexer.c'], [('match_* recursive descent', T + 'uri.c')]),
 P('P15', 'Assembling a URI from its components and parsing it again gives them back',
   'For components valid for their position, with a non-empty host, assembling them and parsing the result yields the same components; parsing a URI with an authority and assembling it again yields an equivalent URI. Assembly never overruns the caller\'s buffer: it fails if the text does not fit.',
   ['inputs'], 'every combination of present/absent valid components, every buffer length',
   'tests assemble a handful of URIs',
   [T + 'uri.c'], [('u_uri_knead, u_uri_do_set', T + 'uri.c')]),
 P('P16', 'The JSON decoder accepts exactly JSON texts',
   'A text is accepted by the decoder and by the validator if and only if it starts with a JSON text that has an object or array on top (RFC 4627), within the documented nesting and token limits of the decoder; anything else - bad escapes, unescaped control characters, malformed numbers or literals, missing separators, unbalanced brackets - is refused. Tolerated by design, with a warning: text after the outermost container, one comma before a closing bracket; blanks are those of isspace() and UTF-8 is not checked. No input makes the decoder read or write out of bounds, loop or leak.',
   ['inputs', 'fault_sequences'], 'every byte string',
   'tests decode a few fixed documents',
   [T + 'json.c', T + 'lexer.c'], [('u_json_parse, match_* ', T + 'json.c')]),
 P('P17', 'Decoding and encoding JSON preserves the document',
   'Decoding a JSON text yields a tree with the same types, member names (also empty ones), order and values, strings being kept as written (escapes included), and encoding that tree yields a JSON text that decodes to an equal tree. Typed getters return exactly the integer or real number a numeral denotes if it is representable, or the boolean, and refuse other types.',
   ['inputs'], 'every accepted text',
   'tests compare a few encoded strings',
   [T + 'json.c'], [('u_json_do_encode, u_json_get_*', T + 'json.c')]),
 P('P18', 'JSON tree edits and indexed lookups see the same tree',
   'After any sequence of additions, removals and value changes, walking the tree, positional access, iteration and cached (indexed) lookup by dotted path all report the same children and values (member names distinct; a tree with a path too long for its index is refused by the indexing call). Values set with syntax checking are exactly the well-formed ones. Removing or freeing a node releases that node and its descendants only.',
   ['histories', 'inputs'], 'every edit sequence on every tree shape',
   'tests build one tree and index it once',
   [T + 'json.c', T + 'hmap.c'], [('u_json_add, u_json_remove, u_json_index, u_json_cache_get', T + 'json.c')]),
 P('P19', 'Numeric conversions return the denoted value or fail',
   'Converting a decimal string succeeds exactly when it starts with a numeral whose value fits the target type, and then yields exactly that value whatever happened before (an unsigned conversion accepts a minus sign as strtoumax does, negating modulo 2^64); otherwise it fails and leaves the result variable and errno alone.',
   ['inputs', 'histories'], 'every string, every value of errno on entry',
   'not covered by the stable tests; limits and stale errno are the interesting cases',
   [T + 'misc.c'], [('u_atoi, u_atol, u_atoumax, u_atof', T + 'misc.c')]),
 P('P20', 'Bounded string copies never overrun and report truncation',
   'Copying, concatenating, duplicating or formatting into a buffer of n bytes writes at most n bytes, always leaves it NUL terminated, reports success exactly when the complete text fits, and then the buffer holds exactly that text. Path formatting additionally collapses runs of the separator to one and changes nothing else.',
   ['inputs'], 'every source text, prefix and buffer size including zero and exact fit',
   'tests use fixed texts',
   [T + 'misc.c', T + 'memory.c'], [('u_strlcpy, u_strlcat, u_snprintf, u_path_snprintf, u_strndup', T + 'misc.c')]),
 P('P21', 'Tokenizing yields exactly the non-empty fields in order',
   'Splitting a string at a set of delimiters yields exactly its non-empty fields, in order, followed by a terminator; a fixed-size result vector receives the first fields that fit and is never overrun. Trimming removes exactly the leading and trailing blanks.',
   ['inputs'], 'every string, delimiter set and vector size',
   'one test splits a few fixed strings',
   [T + 'misc.c'], [('u_strtok, u_tokenize, u_trim', T + 'misc.c')]),
 P('P22', 'Complete I/O transfers every byte once despite short transfers and signals',
   'Reading or writing n bytes through the complete-I/O calls transfers exactly the bytes of the stream in order, resuming after short transfers and interruptions without loss or repetition; it stops only at the full count, end of file or a real error, and reports exactly the count transferred and which of these happened.',
   ['inputs', 'fault_sequences'], 'every sequence of short transfers, EINTR, errors and end of file from the underlying call',
   'the kernel never delivers these fault sequences in the tests',
   [T + 'misc.c', T + 'net.c'], [('u_io', T + 'misc.c')]),
 P('P23', 'Address parsing and socket setup report what happened and leak nothing',
   'An address URI with host and port is turned into exactly the socket address, type and options it denotes, or refused. Creating, connecting or accepting returns a usable descriptor in blocking mode or a failure with every descriptor it opened closed again, retrying interrupted calls and honouring the timeout, for every outcome of the system calls.',
   ['inputs', 'fault_sequences'], 'every address string; every outcome (success, error, EINTR, timeout) of each system call',
   'there is no network test among the stable ones',
   [T + 'net.c'], [('u_net_uri2addr, do_csock, do_ssock, u_connect_ex, u_accept_ex', T + 'net.c')]),
 P('P24', 'All memory goes through the installed allocator',
   'Once allocator hooks are installed every block the library hands out, resizes or releases goes through them with exactly the requested size; zeroed allocation returns zeroed memory and an overflowing element count is refused; duplicated memory equals its source.',
   ['inputs', 'configurations'], 'every size and count, every hook set',
   'no test installs hooks',
   [T + 'memory.c', T + 'misc.c'], [('u_malloc, u_calloc, u_zalloc, u_realloc, u_free', T + 'memory.c')]),
 P('P25', 'Configuration files are parsed into the tree they describe',
   'A configuration text yields exactly the tree of keys, values and nested groups it describes: comments and blanks are dropped, values reach to the end of the line whatever its length, ${variables} are replaced by the value found in the group of the key, else from the top (empty if there is none), a name directly followed by { opens a group, lookups by dotted path, by position and with defaults return those values, and unbalanced groups are refused (texts without include directives).',
   ['inputs'], 'every configuration text, line length and nesting',
   'the config tests are not among the stable ones and use small fixed files',
   [T + 'config.c'], [('u_config_do_load, cs_getline, u_config_do_set_key', T + 'config.c')]),
 P('P26', 'A configuration tree survives modification, saving and reloading',
   'Setting, adding and deleting keys changes exactly the named keys, and a failed change keeps the previous value. Saving a tree (groups without value, values without #, ${ or line breaks) into a buffer that is large enough and loading it again gives the same tree, and saving into one that is too small is refused without overrunning it.',
   ['histories', 'inputs'], 'every tree whose values need no quoting, every edit sequence, every buffer size',
   'not covered by the stable tests',
   [T + 'config.c'], [('u_config_save_to_buf, u_config_set_key, u_config_del_key', T + 'config.c')]),
 P('P27', 'Password files are looked up by exact user name',
   'For a file of name:password[:hint] lines (non-empty fields, each name once), looking up a user returns exactly the fields of the line whose name field equals the given name, with and without the in-memory snapshot, and not-found for any other name; authentication succeeds exactly when the (hashed) password matches. A reload reflects the new content, and a failed one keeps the old snapshot.',
   ['inputs', 'histories', 'fault_sequences'], 'every password file content, user name and reload sequence',
   'tests use one fixed file',
   [T + 'pwd.c', T + 'hmap.c'], [('u_pwd_load, u_pwd_retr, u_pwd_auth_user', T + 'pwd.c')]),
 P('P28', 'File copy and move preserve content or fail',
   'A copy that reports success produced a file with exactly the content of the source (a different file); a move that reports success additionally removed the source. When reading, writing or closing fails the operation fails, no stream stays open, and the source is kept',
   ['inputs', 'fault_sequences'], 'every content and size, every failure point of the underlying calls',
   'no stable test touches the module',
   [T + 'fs.c'], [('u_copy, u_move, u_remove', T + 'fs.c')]),
 P('P29', 'Log records are delivered complete or refused, within bounds',
   'Each log call hands the installed hook exactly one record: the label and location parts asked for followed by the formatted message; a message too long for the record buffer is reported as an error and never overruns it. errno is preserved by the logging calls.',
   ['inputs', 'configurations'], 'every message length and level, with and without hook',
   'no stable test observes log records',
   [T + 'log.c'], [('u_log_write_ex, u_log, u_lograw_ex', T + 'log.c')]),
 P('P30', 'Running out of memory is reported, never corrupts or leaks',
   'Whichever single allocation fails during a call, the call reports failure or completes its work; structures that existed before remain valid and usable, and what the call had allocated so far is released.',
   ['fault_sequences', 'histories'], 'every allocation of every operation failing, in every module that builds data structures',
   'tests never inject allocation failures',
   [T + 'list.c', T + 'hmap.c', T + 'array.c', T + 'bst.c', T + 'json.c', T + 'config.c', T + 'uri.c', T + 'str.c', T + 'buf.c', T + 'pqueue.c', T + 'rb.c', T + 'pwd.c', T + 'misc.c'],
   [('err: paths of each constructor', T)]),
]
NA = {}
