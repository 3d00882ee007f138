UNITS = []
NOTES = {}
ASSUME = {}


def level(pid):
    m = {u['mode'] for u in UNITS if pid in u['props']}
    return 'proof' if m and 'bounded' not in m else 'other'


def unit(name, file, entry, props, mode, functions, bound=None, **kw):
    UNITS.append(dict(name=name, file=file, entry=entry, props=props,
                      mode=mode, functions=functions, bound=bound, **kw))


GH = ['g_idx', 'g_off', 'g_kids', 'g_n', 'g_len']
INVS = [('idx_n', 'g_idx <= g_n'), ('off_len', 'g_off <= g_len'),
        ('kids_idx', 'g_kids == g_idx'), ('state0', 'g_state == 0'),
        ('live0', 'g_live == 0'), ('alloc0', 'g_alloc == 0'),
        ('unl', '!g_last_unlinked'), ('kids0', 'g_kids == 0'),
        ('off0', 'g_off == 0')]
B33 = '<=3 children, <=3 tokens, any child behaviour'
B32 = '<=3 children, <=2 tokens, any child behaviour'
B22 = '<=2 children, <=2 tokens, any child behaviour'
B31 = '<=3 children, <=1 token, any child behaviour'
B23 = '1 child, <=3 tokens, any child behaviour'


def comp(t, nn, nt, bound, ebound=None, en=(2, 2), **kw):
    d = ['-DVP_SLOTS', '-DVP_NNODE=%d' % nn, '-DVP_NTOK=%d' % nt]
    e = ['-DVP_SLOTS', '-DVP_ERR', '-DVP_NNODE=%d' % en[0],
         '-DVP_NTOK=%d' % en[1]]
    unit(t + '_complete', 'node_%s.c' % t, 'h_complete', ['P17'], 'bounded',
         [t + ' complete'], bound=bound, unwind=5, defs=d, **kw)
    unit(t + '_complete_err', 'node_%s.c' % t, 'h_complete', ['P17', 'P22'],
         'bounded', [t + ' complete'], bound=ebound or B22 +
         ', one failing allocation / request', unwind=5, defs=e)


unit('seq_parse_all', 'proof_seq.c', 'h_parse', ['P09'], 'loop',
     ['seq parse', 'seq set_config'], cut=['ecoli_node_seq.c'], ghosts=GH,
     invs=INVS, unwind=2)
unit('seq_parse', 'node_seq.c', 'h_parse', ['P09'], 'bounded',
     ['seq parse', 'seq set_config'], bound=B33, unwind=4)
comp('seq', 3, 2, B32, thorough={'defs': ['-DVP_SLOTS', '-DVP_NTOK=3'],
                                 'bound': B33})
for t, nn, nt in (('seq', 2, 4), ('or', 2, 4), ('many', 1, 5)):
    unit(t + '_complete_long', 'node_%s.c' % t, 'h_complete', ['P17'],
         'bounded', [t + ' complete'], bound='%d child(ren), <=%d tokens, any '
         'child behaviour' % (nn, nt), unwind=7,
         defs=['-DVP_SLOTS', '-DVP_NNODE=%d' % nn, '-DVP_NTOK=%d' % nt])
unit('seq_refs', 'node_seq.c', 'h_refs', ['P20', 'P21'], 'bounded',
     ['seq complete', 'seq set_config'], bound=B33, unwind=5)
unit('or_parse', 'node_or.c', 'h_parse', ['P10'], 'bounded',
     ['or parse', 'or set_config'], bound=B33, unwind=5)
comp('or', 3, 2, B32)
unit('or_refs', 'node_or.c', 'h_refs', ['P20', 'P21'], 'bounded',
     ['or complete', 'or set_config'], bound=B33, unwind=5)
for i, t in ((1, 'option'), (2, 'bypass'), (3, 'once')):
    for e, p in (('parse', 'P10'), ('complete', 'P17'), ('refs', 'P21')):
        unit('%s_%s' % (t, e), 'node_single.c', 'h_' + e,
             [p] + (['P20'] if e == 'refs' else []),
             'bounded' if t == 'once' else 'full',
             ['%s %s' % (t, e), t + ' set_config'], bound=B33, unwind=5,
             defs=['-DVP_T=%d' % i])
for e, p in (('parse', 'P11'), ('refs', 'P21')):
    unit('many_' + e, 'node_many.c', 'h_' + e,
         [p] + (['P20'] if e == 'refs' else []), 'bounded',
         ['many ' + e, 'many set_config'], bound=B23, unwind=5)
comp('many', 2, 3, B23, en=(2, 3))
TK = ['-DVP_TOKENS', '-DVP_MAXKID=4']
unit('subset_parse', 'node_subset.c', 'h_parse', ['P12'], 'bounded',
     ['subset parse', 'subset add'], bound=B22, unwind=5,
     defs=TK + ['-DVP_NNODE=2', '-DVP_NTOK=2'])
unit('subset_parse3', 'node_subset.c', 'h_parse', ['P12'], 'bounded',
     ['subset parse', 'subset add'], bound=B31, unwind=5,
     defs=TK + ['-DVP_NNODE=3', '-DVP_NTOK=1'], timeout=400,
     thorough={'timeout': 800})
unit('subset_parse_err', 'node_subset.c', 'h_parse_err', ['P12', 'P22'],
     'bounded', ['subset parse', 'subset add'], bound=B22 +
     ', one failing allocation', unwind=5,
     defs=TK + ['-DVP_NNODE=2', '-DVP_NTOK=2'])
comp('subset', 3, 2, B32)
unit('subset_refs', 'node_subset.c', 'h_refs', ['P20', 'P21', 'P22'], 'bounded',
     ['subset add', 'subset free_priv'], bound='<=3 children', unwind=5,
     defs=['-DVP_NTOK=1'])

# ---- text ------------------------------------------------------------------
for e, f in (('llint', 'ec_str_parse_llint'), ('ullint', 'ec_str_parse_ullint')):
    unit('str_' + e, 'string.c', 'h_' + e, ['P06'], 'full', [f], unwind=10,
         bound='text of at most 8 characters around the contract of the C '
         'library conversion', defs=['-DVP_CONV'],
         assumptions=['strtoll/strtoull: C11/POSIX contract'])
unit('str_prefix', 'string.c', 'h_prefix', ['P28'], 'bounded',
     ['ec_strcmp_count', 'ec_str_startswith', 'ec_str_is_space'],
     bound='texts of at most 4 characters', unwind=6)
STRT = [('in1', '(unsigned long)$i <= n1'), ('in2', '(unsigned long)$i <= n2'),
        ('eq', 'gk >= (unsigned long)$i || (gs1[gk] == gs2[gk] && gs1[gk] != 0)'),
        ('p1', '__CPROVER_same_object((void *)$p, gs1) && '
         '__CPROVER_POINTER_OFFSET($p) <= n1'),
        ('p2', '__CPROVER_same_object((void *)$p, gs2) && '
         '__CPROVER_POINTER_OFFSET($p) <= n2'),
        ('peq', 'gk >= __CPROVER_POINTER_OFFSET($p) || '
         '(gs1[gk] == gs2[gk] && gs1[gk] != 0)')]
unit('str_count_all', 'string.c', 'h_count_all', ['P28'], 'loop',
     ['ec_strcmp_count'], cut=['ecoli_string.c'], templates=STRT, unwind=2)
unit('str_startswith_all', 'string.c', 'h_startswith_all', ['P28'], 'full',
     ['ec_str_startswith'], unwind=2,
     replace=[('ec_strcmp_count', 'vp_count_contract')])
POFF = '__CPROVER_POINTER_OFFSET($p)'
INS1 = '!__CPROVER_same_object((void *)$p, gs1) || ' + POFF + ' > n1 || '
STRS = STRT[:1] + STRT[3:4] + [
    ('sp', 'gk >= (unsigned long)$i || space(gs1[gk])'),
    ('psp', 'gk >= %s || space(gs1[gk])' % POFF)]
NN = [INS1 + 'gs1[%s] != 0 || %s == n1' % (POFF, POFF),
      '(unsigned long)$i > n1 || gs1[$i] != 0 || $i == n1']
unit('str_is_space_all', 'string.c', 'h_is_space_all', ['P28'], 'loop',
     ['ec_str_is_space'], cut=['ecoli_string.c'], templates=STRS, unwind=2,
     facts=NN)
unit('str_is_space_all2', 'string.c', 'h_is_space_all2', ['P28'], 'loop',
     ['ec_str_is_space'], cut=['ecoli_string.c'], templates=STRS, unwind=2,
     facts=NN + [INS1 + '%s == n1 || space(gs1[%s])' % (POFF, POFF),
                 '(unsigned long)$i >= n1 || space(gs1[$i])'])
unit('str_printf', 'string.c', 'h_printf', ['P28'], 'full',
     ['ec_asprintf', 'ec_vasprintf'], unwind=3, defs=['-DVP_PRINT'],
     assumptions=['vsnprintf: C11 contract'])

# ---- leaf nodes --------------------------------------------------------------
BT = 'texts of at most 3 characters, vectors of any length'
RX = ['regcomp/regexec/regfree: POSIX contract']
for i, t, loops in ((1, 'str', 1), (2, 'any', 1), (3, 'space', 1),
                    (4, 'empty', 0), (5, 'none', 0), (6, 're', 1),
                    (7, 'int', 0), (8, 'uint', 0)):
    unit('leaf_%s_parse' % t, 'leaf.c', 'h_parse',
         ['P07'] if i >= 7 else ['P13'], 'bounded' if loops else 'full',
         [t + ' parse', t + ' set_config', t + ' free_priv'] +
         ([t + ' getval'] if i >= 7 else []), bound=BT if loops else None,
         unwind=6, defs=['-DVP_T=%d' % i], assumptions=RX if i == 6 else [])
for i, t in ((1, 'str'), (2, 'any'), (6, 're')):
    unit('leaf_%s_reconf' % t, 'leaf.c', 'h_reconf', ['P21', 'P22'], 'bounded',
         [t + ' set_config', t + ' free_priv'], bound=BT, unwind=6,
         defs=['-DVP_T=%d' % i], assumptions=RX if i == 6 else [])
for i, t in ((1, 'str'), (5, 'none')):
    unit('leaf_%s_complete' % t, 'leaf.c', 'h_complete', ['P16'], 'bounded',
         [t + ' complete'], bound=BT, unwind=6, defs=['-DVP_T=%d' % i])

# ---- string vectors ----------------------------------------------------------
for e in ('set', 'add', 'del_last', 'get', 'set_attrs', 'range'):
    unit('strvec_' + e, 'strvec.c', 'h_' + e, ['P01', 'P22'], 'full',
         ['ec_strvec_' + e] if e not in ('get', 'range') else
         ['ec_strvec_ndup'] if e == 'range' else
         ['ec_strvec_val', 'ec_strvec_len', 'ec_strvec_get_attrs'], unwind=3,
         small=['-DVP_MAXLEN=2'])
for e, f in (('ndup', ['ec_strvec_ndup', 'ec_strvec_dup', 'ec_strvec_free']),
             ('free', ['ec_strvec_free']), ('cmp', ['ec_strvec_cmp']),
             ('from_array', ['ec_strvec_from_array'])):
    unit('strvec_' + e, 'strvec.c', 'h_' + e, ['P01', 'P22'], 'bounded', f,
         bound='vectors of at most 4 elements (3 for from_array)', unwind=6,
         obits=12)
SHR = [('ec_strvec', 'vp_new'), ('ec_strvec_add', 'vp_add'),
       ('ec_strvec_free', 'vp_free')]
unit('sh_split', 'sh_split.c', 'h_split', ['P02', 'P22'], 'bounded',
     ['ec_strvec_sh_lex_str'], unwind=8, replace=SHR,
     bound='lines of at most 6 bytes, all bytes and flags',
     cbmc=[], thorough={'defs': ['-DVP_N=8', '-DVP_BUF=5'], 'unwind': 10,
     'timeout': 800, 'bound': 'lines of at most 8 bytes, words of at most 4'})
unit('sh_split_long', 'sh_split.c', 'h_split', ['P02'], 'bounded',
     ['ec_strvec_sh_lex_str'], unwind=8, replace=SHR, defs=['-DVP_BUF=3'],
     bound='lines of at most 6 bytes, word buffer of 3 bytes')

# ---- generic vectors -----------------------------------------------------------
for es in (1, 2, 4, 8, 3):
    for e in ('add', 'get'):
        unit('vec_%s%d' % (e, es), 'vec.c', 'h_' + e, ['P03'] +
             (['P22'] if e == 'add' else []), 'full',
             ['ec_vec_add_*'] if e == 'add' else ['ec_vec_get', 'ec_vec_len'],
             unwind=3, defs=['-DVP_ES=%d' % es], small=['-DVP_MAXLEN=2'])
unit('vec_new', 'vec.c', 'h_new', ['P03', 'P22'], 'full', ['ec_vec'], unwind=3)
unit('vec_range', 'vec.c', 'h_range', ['P03'], 'full', ['ec_vec_ndup'],
     unwind=3, small=['-DVP_MAXLEN=2'])
unit('vec_ndup', 'vec.c', 'h_ndup', ['P03', 'P22'], 'bounded',
     ['ec_vec_ndup', 'ec_vec_dup', 'ec_vec_free'], unwind=6, obits=13,
     defs=['-DVP_N=3'], bound='at most 3 elements, all ranges, with and '
     'without callbacks', thorough={'defs': [], 'bound': 'at most 4 elements',
                                    'timeout': 800, 'obits': 14})

# ---- tables ---------------------------------------------------------------------
HS = ['ec_murmurhash3: a function of the key']
HB = ', hash values colliding / in one bucket / in different buckets'
for t, d, pats in (('htable', [], (0, 3, 9, 2, 24)), ('dict', ['-DVP_DICT'], (0,))):
    for e, p, b in (('map', ['P04', 'P05'], 'histories of 3 set/del on 3 keys'),
                    ('dup', ['P04', 'P05'], 'at most 2 entries, duplicate, one '
                     'operation on either table'),
                    ('fail', ['P04', 'P05', 'P22'], 'at most 2 entries, one '
                     'failing allocation')):
        for q in pats[:3] if e == 'fail' else pats:
            unit('%s_%s%d' % (t, e, q), 'htable.c', 'h_' + e, p, 'bounded',
                 [t + ' set/get/has_key/del/len/iter/dup/free'], bound=b + HB,
                 unwind=12, obits=14, defs=d + ['-DVP_PAT=%d' % q],
                 assumptions=HS)
    unit(t + '_args', 'htable.c', 'h_args', ['P04', 'P05', 'P22'], 'bounded',
         [t + ' set/get/has_key/del/len/iter/dup/free'],
         bound='refused arguments', unwind=12, obits=12, defs=d, assumptions=HS)
    unit(t + '_grow', 'htable.c', 'h_grow', ['P04', 'P05'], 'bounded',
         [t + ' set/get/has_key/del/len/iter/dup/free, table resize'],
         bound='9 and 10 entries, one growth' + HB, unwind=70, obits=12,
         defs=d + ['-DVP_NC=12'], assumptions=HS)

# ---- parse engine and trees -------------------------------------------------------
SVC = ['ec_strvec_*, ec_dict*: contracts (units strvec_*, dict_*)']
for e, p, f, b in (
        ('child', ['P08', 'P22'], ['ec_parse_child'], 'at most 2 earlier subtrees, 2 added by the node; any answer, input length and failing allocation'),
        ('root', ['P08', 'P22'], ['ec_parse_strvec', 'ec_parse'], 'at most 2 subtrees added by the node; any answer, input length and failing allocation'),
        ('move', ['P14'], ['ec_pnode_link_child', 'ec_pnode_unlink_child', 'ec_pnode_get_*', '__ec_pnode_iter_next'], 'all trees of 4 nodes, any subtree moved'),
        ('del', ['P14'], ['ec_pnode_del_last_child', 'ec_pnode_free_children', 'ec_pnode_free'], 'all trees of 4 nodes'),
        ('find', ['P14'], ['ec_pnode_find', 'ec_pnode_find_next'], 'all trees of 4 nodes, all identifiers'),
        ('null', ['P14', 'P22'], ['ec_pnode'], 'absent trees')):
    unit('parse_' + e, 'parse.c', 'h_' + e, p, 'bounded', f, bound=b, unwind=8,
         obits=14, assumptions=SVC, thorough={'defs': ['-DVP_N=5'],
         'timeout': 800, 'bound': b.replace('4 nodes', '5 nodes')} if e in ('move', 'del') else {})
for q in range(6):
    unit('parse_dup%d' % q, 'parse.c', 'h_dup', ['P14', 'P22'], 'bounded',
         ['ec_pnode_dup'], bound='all trees of 4 nodes, any failing allocation',
         unwind=8, obits=13, defs=['-DVP_SHAPE=%d' % q], assumptions=SVC)
CF = ['ec_complete_strvec', 'ec_complete_child', 'ec_comp_add_item',
      'ec_comp_iter_first', 'ec_comp_iter_next', 'ec_comp_count', 'ec_comp_free']
CB = '3 items of all types added by a node and two children it asks'
for q in range(6):
    unit('comp_items%d' % q, 'complete.c', 'h_items', ['P15'], 'bounded', CF,
         bound=CB, unwind=8, obits=14, defs=['-DVP_SLOTSET=%d' % q], assumptions=SVC)
for q in (5, 21):
    unit('comp_fail%d' % q, 'complete.c', 'h_fail', ['P15', 'P22', 'P17'],
         'bounded', CF, bound=CB + ', any failing allocation or node', unwind=8,
         obits=14, hunwind=50, defs=['-DVP_TY=%d' % q], assumptions=SVC)
for e, p, f, b in (
        ('item_fail', ['P15', 'P22'], ['ec_comp_add_item'], 'at most one item before'),
        ('merge', ['P15'], ['ec_comp_merge'], 'at most 3 items in 3 groups'),
        ('text', ['P15', 'P16', 'P22'], ['ec_comp_add_item', 'ec_comp_item_set_*', 'ec_comp_item_get_*'], 'texts of at most 3 characters'),
        ('default', ['P15', 'P16', 'P22'], ['ec_complete_unknown', 'ec_complete'], 'inputs of any length'),
        ('absent', ['P15', 'P22'], ['ec_comp'], 'absent results')):
    unit('comp_' + e, 'complete.c', 'h_' + e, p, 'bounded', f, bound=b, unwind=8,
         obits=14, assumptions=SVC)

# ---- configurations ----------------------------------------------------------------
DCT = ['ec_dict*: contract (units dict_*)', 'ec_node_clone/free: contract (units node_*)']
CT = '23 configuration trees of depth at most 3 and 2 elements per container, any content'
for q in range(3):
    for e in ('dup', 'cmp'):
        unit('config_%s%d' % (e, q), 'config.c', 'h_' + e, ['P19'] + (['P22'] if e == 'dup' else []),
             'bounded', ['ec_config_dup', 'ec_config_free', 'ec_config_cmp'] if e == 'dup'
             else ['ec_config_cmp'], bound=CT + (', any failing allocation' if e == 'dup' else ''),
             unwind=8, obits=14, defs=['-DVP_LO=%d' % (0, 12, 18)[q], '-DVP_HI=%d' % (12, 18, 23)[q]],
             assumptions=DCT)
for e, p, f, b in (
        ('own', ['P19', 'P22'], ['ec_config_dict_set', 'ec_config_list_add', 'ec_config_free'], 'one insertion into a container of 2, any failing allocation'),
        ('del', ['P19'], ['ec_config_list_del', 'ec_config_dict_del', 'ec_config_list_*', 'ec_config_dict_get'], 'lists of 3, dictionaries of 2'),
        ('new', ['P19', 'P22'], ['ec_config_*'], 'any content, texts of at most 1 character'),
        ('new_null', ['P19'], ['ec_config_string', 'ec_config_node'], 'absent content'),
        ('valid', ['P18'], ['ec_config_validate'], '19 trees against 9 schemas with any scalar types'),
        ('flat', ['P18'], ['ec_config_schema_validate'], 'any entry alone, before or after another'),
        ('nested', ['P18'], ['ec_config_schema_validate'], 'an entry with a sub-schema of at most 2 entries, nested once more'),
        ('scalar', ['P19'], ['ec_config_cmp', 'ec_config_dup'], 'any content of scalars, texts of at most 1 character'),
        ('lookup', ['P18'], ['ec_config_schema_lookup'], 'schemas of 2 entries')):
    unit('config_' + e, 'config.c', 'h_' + e, p, 'bounded', f, bound=b, unwind=8,
         obits=14, assumptions=DCT)

# ---- allocation layer ---------------------------------------------------------------
for e, f, u in (('forward', ['__ec_malloc', '__ec_free', '__ec_realloc', 'ec_malloc_func', 'ec_free_func', 'ec_realloc_func'], 3),
             ('macros', ['ec_malloc', 'ec_free', 'ec_realloc'], 3),
             ('libc', ['ec_malloc', 'ec_free', 'ec_realloc', 'ec_calloc', 'ec_strdup'], 8),
             ('strdup', ['__ec_strdup', 'ec_strdup'], 3),
             ('strndup', ['__ec_strndup', 'ec_strndup'], 3),
             ('register', ['ec_malloc_register'], 3)):
    unit('malloc_' + e, 'malloc.c', 'h_' + e, ['P29'], 'full', f, unwind=u,
         assumptions=['strlen/strnlen/memcpy/memset: C contract'])
for q in range(3):
    unit('malloc_calloc%d' % q, 'malloc.c', 'h_calloc', ['P29'], 'bounded',
         ['__ec_calloc', 'ec_calloc'], bound='15 numbers of elements, any size of element',
         unwind=6, defs=['-DVP_LO=%d' % (5 * q), '-DVP_HI=%d' % (5 * q + 5)])

# ---- initialisation, logs ---------------------------------------------------------
for e, f in (('init', ['ec_init_register', 'ec_init']), ('exit', ['ec_exit'])):
    unit('init_' + e, 'init.c', 'h_' + e, ['P30'], 'bounded', f, unwind=8,
         bound='3 callbacks of any priorities')
for e, f in (('handler', ['ec_log', 'ec_vlog', 'ec_log_fct_register']),
             ('default', ['ec_log_default_cb', 'ec_log_level_set', 'ec_log_level_get'])):
    unit('log_' + e, 'log.c', 'h_' + e, ['P30'], 'full', f, unwind=9,
         assumptions=['vasprintf, fprintf: C contract'])
unit('log_types', 'log.c', 'h_types', ['P30', 'P22'], 'bounded',
     ['ec_log_type_register', 'ec_log_lookup', 'ec_log_name'], unwind=9, obits=13,
     bound='3 registrations among 3 names, any failing allocation')

# ---- nodes --------------------------------------------------------------------------
NDF = ['ec_node_free', 'ec_node_clone', 'ec_node_from_type', 'ec_node_get_child']
for v, (o, r, t) in enumerate(((0, 2, 0), (3, 2, 0), (0, 1, 1), (2, 2, 1))):
    for q in range(4):
        unit('node_graph%d%d' % (v, q), 'node.c', 'h_graph', ['P20'], 'bounded',
             NDF, unwind=12, obits=13, hunwind=2200, bound='graphs of 3 nodes and '
             'at most 3 edges, order of release %d, %d reference(s) per edge' % (o, r) +
             (', a node held twice' if t else ''), defs=['-DVP_ORD=%d' % o,
             '-DVP_REFS=%d' % r, '-DVP_TWICE=%d' % t, '-DVP_MOD=4', '-DVP_REM=%d' % q],
             assumptions=['ec_dict*, ec_config_free: contracts (units dict_*, config_*)'])
for e, p, f, b in (
        ('create', ['P21', 'P22', 'P30'], ['ec_node_from_type', 'ec_node', 'ec_node_check_type'], 'any failing step'),
        ('config', ['P21'], ['ec_node_set_config', 'ec_node_get_config'], 'any acceptance by the schema and the type'),
        ('types', ['P30'], ['ec_node_type_register', 'ec_node_type_lookup'], '3 registrations among 3 names'),
        ('find', ['P21'], ['ec_node_find'], 'a tree of 4 nodes'),
        ('null', ['P21', 'P30'], ['ec_node'], 'absent nodes and types')):
    unit('node_' + e, 'node.c', 'h_' + e, p, 'bounded', f, unwind=8, obits=12,
         hunwind=220, bound=b, assumptions=['ec_dict*, ec_config_*: contracts '
         '(units dict_*, config_*)'])

# ---- lexer nodes ----------------------------------------------------------------------
LX = ['ec_strvec_*, ec_dict*, ec_htable*, ec_asprintf, ec_comp_*: contracts (units strvec_*, sh_split, dict_*, htable_*, str_printf, comp_*)']
unit('sh_lex_parse', 'lex.c', 'h_parse', ['P23', 'P22'], 'full', ['sh_lex parse'],
     unwind=4, defs=['-DVP_T=1'], assumptions=LX)
unit('sh_lex_complete', 'lex.c', 'h_complete', ['P23', 'P22'], 'bounded',
     ['sh_lex complete'], unwind=8, obits=13, hunwind=70, defs=['-DVP_T=1'],
     assumptions=LX, bound='at most 2 items before, 2 items added, texts of at most '
     '2 characters, any failing step')
unit('sh_lex_elsewhere', 'lex.c', 'h_elsewhere', ['P23'], 'full', ['sh_lex complete'],
     unwind=4, defs=['-DVP_T=1'], assumptions=LX)
unit('sh_lex_refs', 'lex.c', 'h_refs', ['P23', 'P20', 'P21', 'P22'], 'full',
     ['ec_node_sh_lex', 'sh_lex get_child', 'sh_lex free_priv'], unwind=4,
     defs=['-DVP_T=1'], assumptions=LX)
LXG = [('VP_PRIV_T', 'ecoli_node_re_lex.c', r'\.size\s*=\s*sizeof\((struct \w+)\)'),
       ('VP_TAB_T', 'ecoli_node_re_lex.c', r'(struct \w+)\s*\*\s*table\b')]
for n, l, m, fail in ((1, 2, 1, 0), (2, 1, 4, 0), (1, 3, 7, 0), (2, 2, 79, 0),
                      (1, 2, 3, 9), (2, 2, 151, 9)):
    unit('re_lex_parse%d%d%s' % (n, l, 'f' if fail else ''), 'lex.c', 'h_parse',
         ['P24'] + (['P22'] if fail else []), 'bounded', ['re_lex parse', 'tokenize'],
         unwind=6, obits=13, hunwind=2000, grab=LXG, assumptions=LX + RX,
         defs=['-DVP_T=2', '-DVP_N=%d' % n, '-DVP_L=%d' % l, '-DVP_MOD=%d' % m,
               '-DVP_REM=0'] + (['-DVP_FAIL', '-DVP_CHILD=%d' % fail] if fail else []),
         bound='%d pattern(s) matching anything on a token of %d character(s)%s%s' % (
             n, l, ', any failing allocation' if fail else '',
             ', one case in %d' % m if m > 1 else ''),
         thorough={'defs': ['-DVP_T=2', '-DVP_N=%d' % n, '-DVP_L=%d' % l,
             '-DVP_MOD=%d' % max(1, m // 6), '-DVP_REM=0'] +
             (['-DVP_FAIL', '-DVP_CHILD=%d' % fail] if fail else []),
             'timeout': 800, 'bound': '%d pattern(s) matching anything on a token '
             'of %d character(s), one case in %d' % (n, l, max(1, m // 6))})
unit('re_lex_none', 'lex.c', 'h_none', ['P24', 'P22'], 'bounded', ['re_lex parse'],
     unwind=6, obits=13, grab=LXG, defs=['-DVP_T=2'], assumptions=LX + RX,
     bound='empty input')
for q in range(3):
    unit('re_lex_conf%d' % q, 'lex.c', 'h_conf', ['P24', 'P20', 'P21', 'P22'], 'bounded',
         ['re_lex set_config', 're_lex free_priv', 're_lex get_child'], unwind=6, obits=13,
         grab=LXG, defs=['-DVP_T=2', '-DVP_N0=%d' % q], assumptions=LX + RX,
         bound='%d pattern(s) then at most 2, any failing step' % q)

# ---- expressions ------------------------------------------------------------------------
XG = [('VP_PRIV_T', 'ecoli_node_expr.c', r'\.size\s*=\s*sizeof\((struct \w+)\)')]
XA = ['ec_node_seq/or/many*, ec_node_clone/free, ec_pnode_*: contracts (units seq_*, or_*, '
      'many_*, node_*, parse_*)']
def q(l):
    return ', '.join('"%s"' % x for x in l)
XS = {
  'a': ('+*!^(v', ['', 'a', 'a^', 'a^^', 'a^^^', '!a', '!!a', '!a^', '(a)', '((a))', '(a', 'a)', '()', '^', '!', '+a']),
  'b': ('+*!^(v', ['a+b', 'a+b+c', 'a+b+c+d', 'a+', 'a+*b', 'a*b', 'a+b*c', 'a*b+c', 'a*b*c', '*']),
  'c': ('+*!^(v', ['a+b*c+d*e', 'a*b+c*d', '!a+b', 'a+!b*c', 'a*!b+c', 'a^+b^', 'a+b^^*c', '!+']),
  'd': ('+*!^(v', ['(a+b)*c', 'a*(b*c)', 'a+(b+c)+d', '(a)^+b', '((a+b)^)^', '!(a*b)^', '(a+b']),
  'e': ('!~+^?([v', ['[a]', '([a])', '[a)', '(a]', 'a^?', 'a?^', '~!a', '!~a^?', '[a+b]?', '~(a)+[b]', '!a!b']),
  'f': ('+*e^([v', ['ab', 'abc', 'abcd', 'a+bc', 'ab+c', 'a*b+c', 'a^b', 'a(b)c', '[a]b', 'ab^^c', '[]']),
  'g': ('^v', ['a', 'a^', 'a^^', 'b^a', '(a)', '']),
  'h': ('!v', ['a', '!a', '!!a', 'a!', '!', '']),
  'i': ('(+v', ['a', 'a+b', '(a)', '(a+b)', '((a)+b)', '(a', 'a+(b)', 'a+b+c']),
}
for k, (g, ins) in sorted(XS.items()):
    unit('expr_eval_' + k, 'expr.c', 'h_eval', ['P25'], 'bounded',
         ['ec_node_expr_eval', 'eval_expression', 'merge_results', 'get_node_type',
          'ec_node_expr_build', 'expr parse'], unwind=20, obits=14, hunwind=70, grab=XG,
         defs=['-DVP_GRAMMAR="%s"' % g, '-DVP_INPUTS=%s' % q(ins)], assumptions=XA,
         bound='operators %s, %d expressions of at most %d tokens, any failing operation'
         % (g, len(ins), max(map(len, ins))))
unit('expr_args', 'expr.c', 'h_args', ['P25'], 'bounded', ['ec_node_expr_eval', 'expr complete',
     'expr parse'], unwind=20, obits=12, hunwind=70, grab=XG, assumptions=XA,
     bound='each operation missing, no match')
unit('expr_refuse', 'expr.c', 'h_refuse', ['P20', 'P25'], 'bounded',
     ['ec_node_expr_set_val_node', 'ec_node_expr_add_*'], unwind=20, obits=12, hunwind=70,
     grab=XG, assumptions=XA, bound='each argument missing, another type of node')
XC = {'a': (['v', '+v', 'v+'], 16), 'b': (['v+*'], 21), 'c': (['v!', '^v'], 16),
      'd': (['+!^v'], 21), 'e': (['+v('], 21), 'f': (['+([v'], 26)}
for k, (l, m) in sorted(XC.items()):
    unit('expr_conf_' + k, 'expr.c', 'h_conf', ['P25', 'P20', 'P21', 'P22'], 'bounded',
         ['ec_node_expr_set_val_node', 'ec_node_expr_add_*', 'ec_node_expr_build',
          'expr get_child', 'expr free_priv'], unwind=20, obits=12, hunwind=70, grab=XG,
         defs=['-DVP_STEPS=%s' % q(l), '-DVP_MAXF=%d' % m], assumptions=XA,
         bound='%d sequences of at most %d calls, any failing step of the last'
         % (len(l), max(map(len, l))))

# ---- commands ---------------------------------------------------------------------------
CG = XG + [('VP_PRIV2_T', 'ecoli_node_cmd.c', r'\.size\s*=\s*sizeof\((struct \w+)\)')]
CA = ['ec_node_seq/or/many/option/subset/str/re, re_lex, ec_parse, ec_node_clone/free: '
      'contracts (units seq_*, or_*, many_*, option_*, subset_*, str_*, re_*, re_lex_*, '
      'parse_*, node_*)', 'regcomp/regexec: documented meaning of the patterns used']
CS = {
  'a': (0, ['a', 'a b', 'a b c d', 'a|b', 'a|b|c', 'a,']),
  'b': (0, ['a,b', 'a,b,c', 'a,b|c d', 'a b|c', ',a']),
  'c': (0, ['a|b c', 'a b,c|d e', 'a|b,c|d', '']),
  'd': (0, ['a*', 'a+', 'a**', 'a*+ b', '*', '+a']),
  'e': (0, ['b a*', 'a|b*', 'a,b+', '[a]', '[a b]', '(a)', '(']),
  'f': (0, ['(a b)*', '[a|b]+ c', 'a [b [c]]', '[a),b']),
  'g': (0, ['a|(b|c)', 'a,(b,c)', '(a|b)|c', '()']),
  'h': (0, ['(a b) c', 'a (b c) d', '(a|b) c', '[a']),
  'i': (3, ['x b', 'b x', 'y|b', 'b|y', 'y|']),
  'j': (3, ['z,b', 'b,z', 'x x', 'z,z', '|z']),
  'k': (3, ['(x b)|(c x)', '(y|b) y', 'y|y|a', 'z|(y']),
  'l': (3, ['xx x-y', '[x]+ y', 'x*|z', 'x|', 'x z,b y|b']),
  'm': (0, ['foo-bar_9', 'foo|BAR', ' a\\tb ', 'a(b)', 'A-Z0', 'a ? b', 'a;b', 'a]', ' ']),
  'n': (0, ['a |', '| a', 'a||b', '(a', 'a)', '[]', '+', 'a|*b', 'a (', 'a']),
}
for k, (n, l) in sorted(CS.items()):
    unit('cmd_' + k, 'cmd.c', 'h_cmd', ['P26'], 'bounded',
         ['ec_node_cmd_build', 'ec_node_cmd_build_expr', 'ec_node_cmd_build_parser',
          'ec_node_cmd_eval_*', 'cmd set_config', 'ec_node_expr_eval'], unwind=24,
         obits=14, hunwind=200, grab=CG, cbmc=['--max-field-sensitivity-array-size', '256'],
         defs=['-DVP_CMDS=%s' % q(l), '-DVP_NTAB=%d' % n], assumptions=CA,
         bound='%d command strings, %d named nodes' % (len(l), n))
CN = dict(unwind=24, obits=14, hunwind=200, grab=CG, assumptions=CA,
          cbmc=['--max-field-sensitivity-array-size', '256'])
for k, n, c, m in (('a', 1, 'x|b', 9), ('b', 1, '[a]*', 10), ('c', 0, 'a b', 9),
                   ('d', 1, '(x,b)+', 10), ('e', 3, 'y z', 8)):
    unit('cmd_fault_' + k, 'cmd.c', 'h_cmd', ['P26', 'P20', 'P22'], 'bounded',
         ['ec_node_cmd_build', 'ec_node_cmd_eval_*', 'cmd set_config', 'cmd free_priv'],
         defs=['-DVP_CMDS="%s"' % c, '-DVP_NTAB=%d' % n, '-DVP_MAXF=%d' % m],
         bound='command %s, any failing step' % c, **CN)
unit('cmd_again', 'cmd.c', 'h_again', ['P26', 'P20', 'P21', 'P22'], 'bounded',
     ['cmd set_config', 'cmd get_child', 'cmd free_priv'], defs=['-DVP_MAXF=11'],
     bound='two command strings, any failing step', **CN)
unit('cmd_init', 'cmd.c', 'h_init', ['P26', 'P22'], 'bounded',
     ['ec_node_cmd_init_func', 'ec_node_cmd_exit_func', 'ec_node_cmd_build_expr',
      'ec_node_cmd_build_parser'], defs=['-DVP_MAXF=170', '-DVP_MOD=13', '-DVP_REM=4'],
     bound='one failing step in 13', thorough={'defs': ['-DVP_MAXF=170', '-DVP_MOD=4',
     '-DVP_REM=0'], 'timeout': 800, 'bound': 'one failing step in 4'}, **CN)

# ---- conditions -------------------------------------------------------------------------
DG = [('VP_PRIV_T', 'ecoli_node_cond.c', r'\.size\s*=\s*sizeof\((struct \w+)\)'),
      ('VP_RES_T', 'ecoli_node_cond.c', r'(struct \w*result)\s*\{')]
DA = ['ec_node_seq/or/many/option/str/any, re_lex, ec_parse, ec_node_clone/free: contracts '
      '(units seq_*, or_*, many_*, option_*, str_*, re_lex_*, parse_*, node_*)',
      'ec_pnode_*, ec_htable_*, ec_dict_*, ec_str_parse_llint: contracts (units parse_*, '
      'htable_*, dict_*, str_*)', 'regcomp/regexec: documented meaning of the patterns used']
DF = ['eval_*', 'eval_condition', 'validate_condition', 'boolean_value', 'cond parse',
      'cond set_config', 'ec_node_cond_build', 'ec_node_cond_build_parser']
DN = dict(unwind=24, obits=13, hunwind=60, grab=DG, assumptions=DA,
          cbmc=['--max-field-sensitivity-array-size', '256'])
DS = {
  'a': (0, ['root()', 'current()', 'a', '7', '0', 'find(root(),z)', 'bool(0)', 'bool(z)',
            'root(a)', 'current(0)', 'bool()', 'bool(1,1)', 'none()']),
  'b': (0, ['cmp(eq,count(find(root(),a)),3)', 'cmp(eq,count(find(current(),a)),1)',
            'cmp(eq,find(root(),r),root())', 'cmp(ne,find(root(),k),current())',
            'cmp(eq,root(),current())', 'find(root())', 'find(a,root())',
            'cmp(eq,count(find(find(root(),b),a)),1)']),
  'c': (0, ['cmp(eq,first_child(root()),find(root(),a))',
            'cmp(eq,count(first_child(find(root(),b))),1)',
            'first_child(find(root(),c))', 'first_child(first_child(root()))',
            'first_child(a)', 'first_child()', 'cmp(eq,first_child(current()),root())']),
  'd': (0, ['or(0,0)', 'or(0,7)', 'or(7,0)', 'or(0,0,0)', 'or(0,0,a)', 'cmp(eq,or(0,5,7),5)',
            'cmp(eq,or(0,find(root(),z)),root())', 'or(0,none())', 'or(1,none())', 'or(0,0,0,7)', 'or(1)', 'or()']),
  'e': (0, ['and(1,1)', 'and(1,0)', 'and(0,1)', 'and(1,1,0)', 'and(1,1,a)', 'cmp(eq,and(2,5,7),7)',
            'cmp(eq,and(1,0,7),0)', 'and(1,none())', 'and(0,none())', 'and(1,1,1,0)', 'and(1)', 'and()']),
  'f': (0, ['cmp(lt,1,2)', 'cmp(lt,2,2)', 'cmp(lt,3,2)', 'cmp(gt,1,2)', 'cmp(gt,2,2)',
            'cmp(gt,3,2)', 'cmp(le,1,2)', 'cmp(le,2,2)', 'cmp(le,3,2)', 'cmp(ge,1,2)',
            'cmp(ge,2,2)', 'cmp(ge,3,2)']),
  'g': (0, ['cmp(eq,2,2)', 'cmp(ne,2,2)', 'cmp(ne,1,2)', 'cmp(eq,1,2)', 'cmp(eq,ab,ab)',
            'cmp(ne,ab,ab)', 'cmp(eq,a,ab)', 'cmp(ne,ab,a)', 'cmp(lt,a,b)', 'cmp(xx,1,1)',
            'cmp(1,1,1)', 'cmp(eq,1,a)']),
  'h': (0, ['cmp(eq,bool(1),bool(a))', 'cmp(ne,bool(1),bool(0))', 'cmp(ge,bool(1),bool(0))',
            'cmp(eq,1,1,1)', 'cmp(eq,1)']),
  'n': (0, ['cmp(eq,root(),1)', 'cmp(gt,root(),root())',
            'cmp(eq,9223372036854775807,1)', '9223372036854775808']),
  'i': (0, ['or(0,and(find(root(),c),7))', 
            'cmp(le,count(find(root(),id_node)),3)',
            'count(a)']),
  'm': (0, ['and(or(0,a),cmp(lt,1,2))', 'count()', 'count(find(root(),z))',
            'cmp(ne,count(root()),count(current()))']),
  'j': (1, ['cmp(eq,root(),current())', 'cmp(eq,count(find(root(),a)),1)', 'find(root(),k)',
            'first_child(root())', 'first_child(first_child(root()))']),
  'k': (2, ['cmp(eq,count(find(root(),b)),2)', 'cmp(eq,count(find(find(root(),b),b)),2)',
            'cmp(eq,count(find(find(root(),b),a)),1)', 'find(find(root(),k),b)',
            'cmp(eq,count(first_child(find(root(),b))),1)']),
  'l': (0, ['', ' ', '(', ')', 'root(', 'root)', 'root())', '()', 'a b', 'a,b', 'or(a,)', 'or(,a)',
            'or(a,,b)', 'or(a b)', '1a', 'a-b', '-1', 'a1 ', ' or ( 0\\t, _a.B ) ', 'or((0),1)']),
}
for k, (n, l) in sorted(DS.items()):
    unit('cond_' + k, 'cond.c', 'h_cond', ['P27'], 'bounded', DF,
         defs=['-DVP_CONDS=%s' % q(l), '-DVP_TREE=%d' % n, '-DVP_MAXF=2'],
         bound='%d conditions over one tree, match of 0 or 2 words' % len(l), **DN)
for k, c, m in (('a', 'cmp(le,count(find(root(),a)),3)', 16),
                ('b', 'or(first_child(root()),a)', 12), ('c', 'and(1,bool(current()))', 10),
                ('d', 'cmp(eq,root(),find(root(),a))', 14), ('e', 'none(1,a)', 6)):
    unit('cond_fault_' + k, 'cond.c', 'h_cond', ['P27', 'P22'], 'bounded', DF,
         defs=['-DVP_CONDS="%s"' % c, '-DVP_MAXF=%d' % m],
         bound='condition %s, any failing step' % c, **DN)
unit('cond_child', 'cond.c', 'h_child', ['P27'], 'bounded', ['cond parse', 'cond complete'],
     bound='no match, error, completion', **DN)
for k, d in (('a', []), ('b', ['-DVP_TWICE=1']), ('c', ['-DVP_TWICE=2'])):
    unit('cond_conf_' + k, 'cond.c', 'h_conf', ['P27', 'P20', 'P21', 'P22'], 'bounded',
         ['cond set_config', 'cond get_child', 'cond get_children_count', 'cond free_priv'],
         defs=['-DVP_MAXF=8'] + d, bound='two conditions, any failing step', **DN)
unit('cond_init', 'cond.c', 'h_init', ['P27', 'P22'], 'bounded',
     ['ec_node_cond_init_func', 'ec_node_cond_exit_func', 'ec_node_cond_build_parser'],
     defs=['-DVP_MAXF=40'], bound='any failing step', **DN)

# ---- constructors -----------------------------------------------------------------------
KA = ['ec_node_from_type/set_config/free/clone, ec_dict_*: contracts (units node_*, dict_*)']
for t, h, m, pr in (
        ('seq', 'make', 14, ['P09']), ('seq', 'add', 20, ['P09']), ('or', 'make', 14, ['P10']),
        ('or', 'add', 20, ['P10']), ('subset', 'make', 8, ['P12']), ('subset', 'add', 4, ['P12']),
        ('many', 'make', 16, ['P11']), ('option', 'make', 9, ['P10']),
        ('bypass', 'make', 9, ['P10']), ('once', 'make', 9, ['P10']), ('str', 'make', 9, ['P13']),
        ('any', 'make', 9, ['P13']), ('re', 'make', 10, ['P13']), ('int', 'make', 14, ['P07']),
        ('sh_lex', 'make', 3, ['P23']), ('re_lex', 'make', 10, ['P24']),
        ('re_lex', 'add', 30, ['P24']), ('cmd', 'make', 16, ['P26']),
        ('cond', 'make', 14, ['P27'])):
    unit('ctor_%s_%s' % (t, h), 'ctor.c', 'h_' + h, pr + ['P20', 'P21', 'P22'], 'bounded',
         [{'seq': '__ec_node_seq', 'or': '__ec_node_or', 'subset': '__ec_node_subset',
           'cmd': '__ec_node_cmd', 'int': 'ec_node_int'}.get(t, 'ec_node_' + t) if h == 'make'
          else 'ec_node_%s_add' % t] +
         {'many': ['ec_node_many_set_params'], 'option': ['ec_node_option_set_child'],
          'bypass': ['ec_node_bypass_set_child'], 'once': ['ec_node_once_set_child'],
          'str': ['ec_node_str_set_str'], 're': ['ec_node_re_set_regexp'],
          'int': ['ec_node_uint'], 're_lex': ['ec_node_re_lex_set_child'],
          'cmd': ['ec_node_config_node_list_from_vargs']}.get(t, []) +
         ['ec_config_*', 'ec_node_config_node_list_to_table'],
         unwind=20, obits=13, hunwind=260, assumptions=KA,
         grab=[('VP_PRIV_T', 'ecoli_node_%s.c' % t, r'\.size\s*=\s*sizeof\((struct \w+)\)')],
         cbmc=['--max-field-sensitivity-array-size', '256'],
         defs=['-DVP_TYPE=T_%s' % t, '-DVP_MAXF=%d' % m],
         bound='at most 3 children, any failing step')
