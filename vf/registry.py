"""What decides which property."""
import os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(pid):
    p = os.path.join(HERE, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d['property'] == pid and d.get('status') == 'known':
                    out.append('%s: %s' % (d['id'], d['what']))
    return out


def D(name, **k):
    return dict(dict(name=name, src=name, max_len=300), **k)


from . import props as _props
_T = {p['id']: p['title'] for p in _props.LIST}


def _p(level='proof', proofs=(), drivers=(), secs=12, trust=(), note='', **k):
    return dict(k, level=level, proofs=list(proofs), drivers=list(drivers), secs=secs, trust=list(trust), note=note)


UNB = 'Unbounded: every contract obligation is discharged by z3 for all inputs and iterations; the drivers only replay. '
JM = ['u_json_match_' + x for x in ('int', 'frac', 'exp', 'number', 'escaped_unicode', 'string', 'null', 'true', 'false', 'array', 'object', 'pair', 'value')] + ['u_json_do_parse']
UP = ['u_uri_' + x for x in ('query_first', 'fragment_first', 'port_first', 'path_first', 'ipliteral_first', 'regname_first', 'ipv4address_first', 'match_ups', 'match_pchar', 'match_pchar_minus_at_sign', 'pct_encoded_first',
                             'expect_colon', 'expect_segment_nz', 'expect_segment', 'expect_path_abempty', 'adjust_greedy_match', 'parse_regname', 'parse_ipv4address', 'parse_ipliteral', 'parse_scheme', 'parse_port', 'parse_query', 'parse_fragment',
                             'parse_abempty', 'parse_path', 'parse_host', 'crumble_user_password', 'parse_userinfo', 'parse_authority', 'parse_hier_part', 'new', 'free', 'parser', 'crumble', 'is_absolute', 'get_flags')] + \
     ['u_uri_get_' + x for x in ('scheme', 'userinfo', 'user', 'pwd', 'authority', 'host', 'port', 'path', 'query', 'fragment')]
UK = ['u_uri_knead', 'u_uri_knead_authority', 'u_uri_parser', 'u_uri_crumble'] + ['u_uri_%s_%s' % (g, x) for g in ('set', 'get') for x in ('scheme', 'userinfo', 'user', 'pwd', 'authority', 'host', 'port', 'path', 'query', 'fragment')]
HM = ['__get', '__linear_fill', 'u_hmap_get']
JT = ['u_json_' + x for x in ('add', 'remove', 'array_count', 'array_get_nth', 'it_next', 'it_prev', 'child_first', 'child_last', 'new')]
PROPS = {
    'P01': _p(proofs=[('pqueue', 'toolbox/pqueue', None)], drivers=[D('pqueue')],
              trust=['priorities are treated as real numbers (NaN excluded)'],
              note=UNB + 'Assumes malloc model, keys as reals without NaN.'),
    'P02': _p(proofs=[('rb', 'toolbox/rb', None),
                      ('rb_mmap', 'toolbox/rb', ['write_contiguous', 'read_contiguous', 'fast_read', 'u_rb_write', 'u_rb_read', 'u_rb_fast_read', 'u_rb_clear', 'create_mmap'])],
              drivers=[D('rb')],
              trust=['the two mappings of the mmap variant alias the same memory (twin-mapping model of mmap MAP_SHARED|MAP_FIXED)'],
              note=UNB + 'Assumes malloc/mmap models.'),
    'P03': _p(proofs=[('str', 'toolbox/str', None), ('misc', 'toolbox/misc', ['u_trim'])], drivers=[D('str')],
              trust=['strncpy, vsnprintf models (lvc/libc.py)', 'source text does not alias the string object and has no NUL within the given length'],
              note=UNB + 'Assumes strncpy/vsnprintf/malloc models, no aliasing of source and destination.'),
    'P04': _p(proofs=[('buf', 'toolbox/buf', None), ('misc', 'toolbox/misc', ['u_data_dump'])], drivers=[D('buf')],
              trust=['vsnprintf, stat, fopen, fread models (lvc/libc.py)', 'source bytes do not alias the buffer'],
              note=UNB + 'Assumes vsnprintf/stdio/malloc models.'),
    'P05': _p(proofs=[('b64', 'toolbox/b64', ['u_b64_encode'])], drivers=[D('b64_5', src='b64', defs=('-DMODE=5',))], trust=['input and output buffers do not overlap'], note=UNB + 'No external code involved.'),
    'P06': _p(proofs=[('b64', 'toolbox/b64', ['u_b64_decode'])], drivers=[D('b64_6', src='b64', defs=('-DMODE=6',))], trust=['input and output buffers do not overlap'], note=UNB + 'No external code involved.'),
    'P07': _p(proofs=[('list', 'toolbox/list', None)], drivers=[D('list')], trust=['fewer than 2^60 items'], note=UNB + 'Assumes the malloc model.'),
    'P13': _p(proofs=[('lexer', 'toolbox/lexer', None)], drivers=[D('lexer')],
              trust=['vsnprintf model; u_strdup contract (proved under P20)', 'ctype tables as in the C locale'], note=UNB + 'Assumes libc string models.'),
    'P08': _p(proofs=[('array', 'toolbox/array', None)], drivers=[D('array')],
              trust=['realloc/calloc/memset models', 'long double and complex values are moved as opaque units'], note=UNB + 'Assumes allocator and memset models.'),
    'P19': _p(proofs=[('misc', 'toolbox/misc', ['u_atol', 'u_atoi', 'u_atoumax', 'u_atof'])], drivers=[D('misc19', src='misc', defs=('-DMODE=19',))],
              trust=['strtol, strtoumax, strtod models: uninterpreted denotation of the text, C11 error reporting (lvc/libc.py, specs/misc.py)'],
              note=UNB + 'What a numeral denotes is the C library strto*; the drivers compare with an independent reading of it.'),
    'P20': _p(proofs=[('misc', 'toolbox/misc', ['u_strlcpy', 'u_strlcat', 'u_snprintf', 'u_path_snprintf', 'u_strndup', 'u_strdup', 'u_memdup'])],
              drivers=[D('misc20', src='misc', defs=('-DMODE=20',))],
              trust=['strlcpy, strlcat, vsnprintf models', 'source and destination do not overlap'], note=UNB + 'Assumes libc string models.'),
    'P21': _p(proofs=[('misc', 'toolbox/misc', ['u_trim', 'u_tokenize', 'u_strtok'])], drivers=[D('misc21', src='misc', defs=('-DMODE=21',))],
              trust=['strsep, strchr, strspn models', 'ctype tables as in the C locale'], note=UNB + 'Assumes libc string models.'),
    'P22': _p(proofs=[('misc', 'toolbox/misc', ['u_io', 'u_read', 'u_write'])], drivers=[D('misc22', src='misc', defs=('-DMODE=22',), wraps=('read', 'write'))],
              trust=['the underlying call transfers a prefix of what is left, or fails with errno set (every outcome allowed)'],
              note=UNB + 'The underlying call is an arbitrary function over short transfers, EINTR, errors and end of file.'),
    'P24': _p(proofs=[('memory', 'toolbox/memory', None), ('misc', 'toolbox/misc', ['u_memdup', 'u_strndup', 'u_strdup'])], drivers=[D('memory', max_len=120)],
              trust=['the installed hooks behave as an allocator'],
              note=UNB + 'That no module bypasses the hooks is checked by running every module on a tagging allocator (bounded).'),
    'P28': _p(proofs=[('fs', 'toolbox/fs', None)], drivers=[D('fs', wraps=('fopen', 'fread', 'fwrite', 'fclose', 'ferror', 'link', 'unlink'))],
              trust=['stream model of stdio: every call may fail or transfer a prefix; link(2) makes the same file appear under the new name', 'source and target are different files'],
              note=UNB + 'Assumes the stream model of stdio.'),
    'P29': _p(proofs=[('log', 'toolbox/log', None)], drivers=[D('log')],
              trust=['vsnprintf, snprintf, strerror_r, syslog models', 'the text denoted by a format and its arguments is uninterpreted'],
              note=UNB + 'Hook, lock and unlock are arbitrary functions that may clobber errno.'),
    'P27': _p(proofs=[('pwd', 'toolbox/pwd', None)], drivers=[D('pwd')],
              trust=['line-oriented resource model (the open/load/close/notify/hash callbacks are arbitrary functions of that shape; lines fit the line buffer)', 'u_strtok and u_hmap_easy_* as specified under P21 and P10-P12', 'strstr, strcspn, strcmp, strncmp models'],
              note=UNB + 'That the snapshot map returns the record pushed under a name is property P10.'),
    'P10': _p(proofs=[('hmapm', 'toolbox/hmap', HM)], drivers=[D('hmap_10', src='hmap', defs=('-DMODE=10',))],
              trust=['the hash function is a function of the key and the table size and names a bucket', 'the comparison function orders the keys totally (RANK)'],
              note=UNB + 'Proved: lookup (chains and probing) finds the element with the key if there is one; closing the hole a deletion leaves keeps every element where a search finds it; what a lookup may reorder.  Bounded: insertion, deletion as a whole, resizing and moving (driver).'),
    'P11': _p(proofs=[('hmap', 'toolbox/hmap', None), ('hmapm', 'toolbox/hmap', ['u_hmap_get'])], drivers=[D('hmap_11', src='hmap', defs=('-DMODE=11',))],
              trust=['the comparison function of the custom policy orders the values totally (PRIO)'],
              note=UNB + 'Proved: the discard queue names the element each policy prescribes at its discarding end, after every insertion, removal and lookup.  Bounded: that the map discards exactly when full (driver).'),
    'P12': _p(proofs=[('hmap', 'toolbox/hmap', None), ('hmapm', 'toolbox/hmap', ['__o_free'])], drivers=[D('hmap_12', src='hmap', defs=('-DMODE=12',))],
              trust=['the comparison function of the custom policy orders the values totally (PRIO)'],
              note=UNB + 'Proved: the discard queue (every insertion and removal, all four policies).  Bounded: that the map evicts exactly at its maximum and drops the evicted element (driver).'),
    'P09': _p(proofs=[('bst', 'toolbox/bst', None)], drivers=[D('bst')],
              trust=['the comparison function orders the keys totally (RK), a copied key like the key itself, and does not change the tree', 'a release function releases exactly the block it is given', 'fewer than 2^63 nodes', 'the function given to foreach leaves the tree alone'],
              note=UNB + 'Assumes the comparison and release functions of the tree behave as such.'),
    'P25': _p(level='exploration', drivers=[D('config_25', src='config', defs=('-DMODE=25',))], note='Bounded so far. '),
    'P26': _p(level='exploration', drivers=[D('config_26', src='config', defs=('-DMODE=26',))], note='Bounded so far. '),
    'P23': _p(proofs=[('net', 'toolbox/net', None)],
              drivers=[D('net', wraps=('socket', 'connect', 'select', 'bind', 'listen', 'accept', 'setsockopt', 'getsockopt', 'fcntl', 'gettimeofday', 'close', 'getaddrinfo', 'freeaddrinfo'))],
              trust=['models of the socket calls: each may fail with any errno; descriptors are tracked by a ghost open/blocking map'],
              note=UNB + 'Assumes the model of the socket calls.'),
    'P30': _p(proofs=[('list', 'toolbox/list', ['u_list_create', 'u_list_insert', 'u_list_add', 'u_list_free']), ('array', 'toolbox/array', ['u_array_create', 'u_array_resize', 'u_array_set_int', 'u_array_set_ptr']),
                      ('str', 'toolbox/str', ['u_string_create', 'u_string_reserve', 'u_string_append', 'u_string_set', 'u_string_copy', 'u_string_do_vprintf']),
                      ('buf', 'toolbox/buf', ['u_buf_create', 'u_buf_reserve', 'u_buf_append', 'u_buf_set', 'u_buf_printf', 'u_buf_load']), ('pqueue', 'toolbox/pqueue', ['u_pq_create', 'u_pq_free']),
                      ('rb', 'toolbox/rb', ['create_malloc', 'u_rb_free']), ('lexer', 'toolbox/lexer', ['u_lexer_new', 'u_lexer_free']),
                      ('misc', 'toolbox/misc', ['u_strndup', 'u_strdup', 'u_memdup', 'u_strtok', 'u_load_file']), ('pwd', 'toolbox/pwd', None), ('uri', 'toolbox/uri', ['u_uri_new', 'u_uri_parser', 'u_uri_crumble', 'u_uri_crumble_user_password', 'u_uri_free']),
                      ('bst', 'toolbox/bst', ['u_bst_new', 'u_bst_push', 'u_bst_free']), ('json', 'toolbox/json', ['u_json_new', 'u_json_do_parse'])],
              drivers=[D('oom', max_len=120)], secs=16, bounded=['hmap, json documents, config and net address constructors: fault-injecting runs only'],
              trust=['any call of the allocator may fail; what it returned earlier stays as it is'],
              note='For lists, arrays, strings, buffers, queues, trees, tokens, URIs and password snapshots every contract is discharged with an allocator that may fail at each call; the other modules run with one allocation of one call failing (bounded). '),
    'P14': _p(proofs=[('jlex', 'toolbox/lexer', None), ('uri', 'toolbox/uri', UP)], drivers=[D('uri_14', src='uri', defs=('-DMODE=14',))],
              trust=['the functions of specs/uri.py are the character classes and the generic syntax of RFC 3986 (their recursion advances, hence has one solution)', 'strspn, strpbrk, strchr, strncmp, strlen models', 'u_strlcpy as proved under P20'],
              note=UNB + 'Proved: the whole parser; a text is accepted exactly if it splits as the grammar says and every part fits its field, the fields hold exactly those parts, and nothing is read or written outside.'),
    'P15': _p(proofs=[('uri', 'toolbox/uri', UK)], drivers=[D('uri_15', src='uri', defs=('-DMODE=15',))],
              trust=['u_strlcpy, u_strlcat as proved under P20', 'strlen, strchr models'],
              note=UNB + 'Proved: the assembled text is the concatenation of the parts with their delimiters exactly if that fits the buffer, the setters store what they are given, the parser (P14).  Bounded: that parsing an assembled text gives the parts back, which follows from the two for parts that are valid where they stand (driver).'),
    'P16': _p(proofs=[('jlex', 'toolbox/lexer', None), ('json', 'toolbox/json', JM)], drivers=[D('json_16', src='json', defs=('-DMODE=16',))],
              trust=['the grammar functions of specs/json.py are RFC 4627 with the documented tolerances (their recursion advances, hence has one solution)', 'recursion depth of the validator (stack) is not bounded'],
              note=UNB + 'Proved: the validator (no tree built), every matcher and the whole text.  Bounded: the same matchers building a tree, with the limits of the decoder (driver).'),
    'P17': _p(level='exploration', drivers=[D('json_17', src='json', defs=('-DMODE=17',))], note='Bounded so far. '),
    'P18': _p(proofs=[('json', 'toolbox/json', JT)], drivers=[D('json_18', src='json', defs=('-DMODE=18',))],
              trust=['u_json_free releases a node and what hangs under it (assumed contract; the driver counts the live objects)'],
              note=UNB + 'Proved: additions, removals, positional access, iteration and counting agree on one sequence of children.  Bounded: the dotted-path index, value checking and the release of subtrees (driver).'),
}
for _k, _v in PROPS.items():
    _v['title'] = _T[_k]
