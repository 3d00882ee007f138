#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development aid; the committed
files are its output)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'units'))
from registry import UNITS, NOTES, level

P = []


def p(pid, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [
             {'name': mech, 'where': files[0]}]}}
    if state:
        d['anchors']['state'] = [{'name': x, 'where': files[0]}
                                 for x in state]
    if obs:
        d['anchors']['observe_at'] = obs
    assert len(title) <= 80, title
    P.append(d)


S = 'src/ecoli_'
p('P01', 'String vectors behave as value-semantics sequences of strings',
  'A string vector is an ordered sequence: adding appends exactly the given text, replacing or deleting the last element touches no other element, and duplicating a range gives an independent vector with exactly those elements. An out-of-range access, range or index is refused without changing the vector, and attributes stay attached to their element and are shared by duplicates.',
  ['inputs', 'histories'], 'every sequence of operations and every string and range, including overflowing ranges and failing allocations',
  'Tests run one fixed history; sharing, aliasing and range arithmetic faults need particular sequences or extreme indices.',
  [S + 'strvec.c', 'include/ecoli_strvec.h'], 'reference-counted elements in a growing array; ndup shares elements, set replaces the element', ['array length', 'element reference counts'], ['ec_strvec_val/len/get_attrs'])
p('P02', 'Shell-like splitting: quoting, escapes, comments and blanks',
  'Splitting a line yields exactly the words of the documented shell-like syntax: blanks separate words, quotes and backslashes protect characters and are removed, a comment runs to the end of the line, and trailing blanks are represented by an empty last word exactly when asked for. A line with an unterminated quote is refused in strict mode and the missing quote is reported.',
  ['inputs'], 'every byte string and every combination of flags',
  'The set of lines is infinite and the interaction of quotes, escapes, comments and flags is combinatorial.',
  [S + 'strvec.c'], 'state machine over the characters, unquoting of each token', None, ['ec_strvec_sh_lex_str'])
p('P03', 'Generic vectors behave as sequences and own their elements',
  'A generic vector keeps the elements added to it in order with their exact content; lookups return the stored value, out-of-range or mistyped accesses are refused. Copy and free callbacks are applied exactly once per element copied or destroyed, and a failing allocation leaves no partial result behind.',
  ['inputs', 'histories'], 'every element size, every sequence of operations, every failing allocation',
  'Element-size and growth arithmetic, and clean-up after a failure, depend on values tests do not vary.',
  [S + 'vec.c', 'include/ecoli_vec.h'], 'single growing buffer of fixed-size elements with copy/free callbacks', None, ['ec_vec_len/get/ndup/free'])
p('P04', 'Hash tables and dictionaries behave as insertion-ordered maps',
  'Whatever the keys, hash values and table growth, a table behaves as a map: a lookup returns the value last set for an equal key, deleting removes only that key, the length counts distinct keys, and iteration visits every live entry exactly once in insertion order. A duplicate compares equal entry by entry and later changes to one do not show in the other.',
  ['inputs', 'histories'], 'every key content and length, every hash collision pattern and every sequence of operations',
  'Collisions and growth points depend on hash values of particular keys; tests touch few keys.',
  [S + 'htable.c', S + 'dict.c', S + 'murmurhash.c'], 'power-of-two bucket array, per-bucket lists plus one global list, shared reference-counted entries', ['bucket lists', 'entry counts'], ['ec_dict_get/set/del/len/iter'])
p('P05', 'Values handed to a table are owned and released exactly once',
  'A value given to a table belongs to it from the call on, also when the call fails: its release function runs exactly once, when its last sharing table drops or replaces it. Nothing else is released and nothing leaks.',
  ['inputs', 'histories', 'fault_sequences'], 'every history of set, replace, delete, duplicate and free, with any allocation failing',
  'Leaks and double releases show only on failing allocations and replaced or shared entries.',
  [S + 'htable.c', S + 'dict.c'], 'reference count per entry; free callback on last release', ['entry refcount'], ['release callback'])
p('P06', 'Numeric text is converted exactly or refused',
  'Converting a text to a signed or unsigned number gives the exact value of the whole text in the requested base when it lies within the requested limits. Every other text is refused: empty, with trailing characters, with a minus sign for an unsigned number, or out of range.',
  ['inputs'], 'every text, base and limit pair',
  'Boundary values and malformed texts are unbounded in number.',
  [S + 'string.c'], 'strtoll/strtoull wrappers with range and trailing-character checks', None, ['ec_str_parse_llint', 'ec_str_parse_ullint'])
p('P07', 'Integer nodes accept exactly the integers of their range',
  'An integer node matches one token exactly when the token is an integer in the configured base within the configured bounds, absent bounds being the limits of the 64-bit type; reconfiguring replaces all previous bounds. The value read back from a matching token is that integer.',
  ['inputs', 'histories'], 'every token, base, bound pair and sequence of configurations',
  'Ranges and bases multiply; stale bounds need a reconfiguration.',
  [S + 'node_int.c'], 'set_config stores min/max/base and flags; parse converts and compares', ['check_min/check_max/min/max/base'], ['parse result', 'ec_node_int_getval'])
p('P08', 'The parse engine builds a tree that mirrors exactly what matched',
  'Parsing a child adds one subtree holding the child and exactly the consumed prefix when it matches, and leaves the tree as it was when it does not match or fails. A root parse returns a tree that matches iff the node matched, reports errors without leaking, and never changes the input.',
  ['inputs', 'fault_sequences'], 'every node behaviour, input and failing allocation',
  'Errors and allocation failures at each step are not sampled by tests.',
  [S + 'parse.c'], 'link before parse, unlink on no match or error, matched prefix stored', ['children lists'], ['ec_parse_child', 'ec_parse_strvec', 'ec_pnode_matches'])
p('P09', 'A sequence matches all its children in order on consecutive slices',
  'A sequence matches iff each child in order matches what the previous ones left; it then consumes the sum of what they consumed and holds one subtree per child in order. When one child does not match nothing matches and no partial subtree is left.',
  ['inputs'], 'every number of children, every child behaviour, every input and failing allocation',
  'Grammars and inputs are unbounded.',
  [S + 'node_seq.c', S + 'node_helper.c'], 'loop over the table of children with an offset', ['offset', 'children of the parse state'], ['parse result and tree'])
p('P10', 'Choice, optional, bypass and once nodes match as documented',
  'A choice matches as its first matching child; an optional node matches its child or else nothing consumed; a bypass matches exactly as its child; a once node matches its child unless that child already occurs in the parse tree. Exactly the chosen child appears in the tree, and an error of a child is an error.',
  ['inputs'], 'every child behaviour, every input and every surrounding parse tree',
  'Order sensitivity, surrounding tree shapes and errors are unbounded.',
  [S + 'node_or.c', S + 'node_option.c', S + 'node_bypass.c', S + 'node_once.c'], 'first match loop; option maps no match to empty; once walks the tree from its root', None, ['parse result and tree'])
p('P11', 'Repetition matches greedily between its bounds and terminates',
  'A repetition matches its child repeatedly on consecutive slices as long as it consumes something and the maximum is not reached, and matches iff the number of repetitions is at least the minimum; the tree holds one subtree per repetition. An empty repetition ends the loop and is not counted.',
  ['inputs'], 'every child behaviour, bounds, input and failing allocation',
  'Bounds, empty matches and inputs combine without limit; non-termination is not testable.',
  [S + 'node_many.c'], 'loop until no match, empty match or maximum', None, ['parse result and tree'])
p('P12', 'A subset matches the most children, each at most once, in any order',
  'On a non-empty input a subset always matches, using a longest possible list of distinct children matched one after the other in any order; on an empty input it does not match. The tree holds exactly the subtrees of that list in order and the consumed length is their sum.',
  ['inputs', 'fault_sequences'], 'every set of children, child behaviour, input and failing allocation',
  'Backtracking over permutations leaves stale state only for particular match patterns.',
  [S + 'node_subset.c'], 'recursive search over the remaining children keeping the best chain', ['children of the parse state'], ['parse result and tree'])
p('P13', 'Leaf nodes match exactly the tokens they describe',
  'A string node matches a first token equal to its text; any matches any token, or only tokens carrying the required attribute; space matches a token made only of blanks; empty always matches nothing consumed; none never matches; a regular-expression node matches a token that its expression matches entirely. None of them matches an empty input except empty.',
  ['inputs'], 'every token, configuration and attribute set',
  'Token contents are unbounded.',
  [S + 'node_str.c', S + 'node_any.c', S + 'node_space.c', S + 'node_empty.c', S + 'node_none.c', S + 'node_re.c'], 'one parse callback per type on the first token', None, ['parse result'])
p('P14', 'Parse trees are consistent ordered trees under all operations',
  'Linking appends, unlinking and deletion remove exactly the given child, and first, last, next, parent and root always agree with that structure. Iteration visits each node of a tree once in depth-first order, searching finds the first match in that order, lengths and matched text are those stored, and a duplicate is an equal independent tree positioned on the copy of the same node.',
  ['inputs', 'histories', 'fault_sequences'], 'every tree shape and sequence of operations, with any allocation failing',
  'Tree shapes and edit histories are unbounded.',
  [S + 'parse.c', 'include/ecoli_parse.h'], 'intrusive lists with parent pointers', ['children lists, parent pointers'], ['ec_pnode_*'])
p('P15', 'Completion results hold exactly the items added, by group and type',
  'Every item added to a completion result is stored once, in the group of its node and parse state, and the counters per type equal the number of stored items. Iterating visits exactly the items whose type was asked for, in order, and terminates; merging moves every group to the destination.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of additions and merges, every type mask, any allocation failing',
  'Iteration over groups without matching items and counters after failures need particular histories.',
  [S + 'complete.c', 'include/ecoli_complete.h'], 'list of groups, each a list of items; counters', ['counters', 'current group'], ['ec_comp_count', 'ec_comp_iter_*'])
p('P16', 'Leaf nodes propose exactly the right completions',
  'Completing a partial word proposes a string node iff the word is a prefix of its text, with the remaining text as the completion; other leaves propose themselves only as unknown, partial or not at all as documented. Nothing is proposed when the position completed is not the last word.',
  ['inputs'], 'every node text and every partial word, with any allocation failing',
  'Prefix relations range over all pairs of strings.',
  [S + 'node_str.c', S + 'node_space.c', S + 'node_none.c', S + 'complete.c', S + 'node_int.c', S + 'node_any.c'], 'prefix comparison and item creation', None, ['completion items'])
p('P17', 'Completion explores exactly the children that can come next',
  'Completing a composite node asks for completion of a child on a slice of the input exactly when the children before it match the part before that slice under the grammar, always up to the end of the input. The parse state seen by each request is the path that led there, and it is restored afterwards, also on errors.',
  ['inputs', 'fault_sequences'], 'every grammar node, child behaviour and input, any allocation or request failing',
  'The explored set is a function of all partial matches, which tests sample very thinly.',
  [S + 'node_seq.c', S + 'node_or.c', S + 'node_many.c', S + 'node_subset.c', S + 'node_option.c', S + 'node_once.c', S + 'node_bypass.c'], 'recursive completion with parse-state push and pop', ['current parse state'], ['ec_complete_child requests'])
p('P18', 'Configurations are accepted iff they conform to their schema',
  'A configuration is valid iff it is a dictionary whose every key is declared with that type and whose nested lists and dictionaries conform recursively. A schema is accepted iff it is well formed (named, unique, not reserved keys in dictionaries, one unnamed element for lists, sub-schemas where needed).',
  ['inputs'], 'every configuration tree and schema',
  'Trees are unbounded.',
  [S + 'config.c'], 'recursive validation', None, ['ec_config_validate', 'ec_config_schema_validate'])
p('P19', 'Configurations copy, compare and own their content faithfully',
  'A copy of a configuration is equal and independent, comparison is an equivalence on content, and lookups and iteration return what was stored in order. Values given to a container belong to it, also on failure, and everything is released exactly once.',
  ['inputs', 'histories', 'fault_sequences'], 'every configuration tree and history with any allocation failing',
  'Partial copies and failed insertions need failing allocations at each step.',
  [S + 'config.c'], 'tagged union with list and dictionary containers', None, ['ec_config_dup/cmp/free/list_*/dict_*'])
p('P20', 'A grammar graph is freed exactly when its last user reference goes',
  'Whatever the graph of nodes, including cycles, taking and dropping references keeps every node that is reachable from a reference held outside the graph, and frees each node exactly once when no outside reference reaches it.',
  ['inputs', 'histories'], 'every graph of nodes and every order of clone and free',
  'Cycle shapes and orders of release are unbounded.',
  [S + 'node.c'], 'reference counts plus trial deletion over reachable nodes', ['refcnt', 'free.state', 'free.refcnt'], ['ec_node_free'])
p('P21', 'Node configuration is atomic and children are reported faithfully',
  'A refused configuration leaves the node exactly as before and an accepted one replaces the previous one entirely; the configuration given is consumed in both cases. Every composite node reports its children in order with the number of references it holds on each, takes them on configuration and gives them all back when freed.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of configurations, valid or not, with any allocation failing',
  'Second and failing configurations are not tested per node type.',
  [S + 'node.c', S + 'node_seq.c', S + 'node_or.c', S + 'node_option.c', S + 'node_bypass.c', S + 'node_once.c', S + 'node_many.c', S + 'node_subset.c'], 'validate, set on the private area, then swap', None, ['ec_node_set_config', 'get_child'])
p('P22', 'No allocation failure corrupts, leaks or goes unreported',
  'When any allocation fails, the operation reports the failure, releases what it had taken exactly once, leaves its arguments consistent and the library usable. No memory is used after it was released.',
  ['fault_sequences'], 'every operation and every position of the failing allocation',
  'Each failing position is a separate path; tests sample allocations at random on one history.',
  ['src/'], 'goto-fail clean-up paths', None, ['return values, live memory'])
p('P23', 'A shell-lexed node parses the words of its single token',
  'A shell-lexed node matches its one token iff its child matches all the words the token splits into; it consumes that token and holds the child subtree. Completion splits the same way, completes the last word and adds back the missing quote to what it proposes.',
  ['inputs', 'fault_sequences'], 'every token, child behaviour and failing allocation',
  'Lines and quotes are unbounded.',
  [S + 'node_sh_lex.c'], 'split, parse the child on the words, compare lengths', None, ['parse result and tree', 'completion items'])
p('P24', 'Lexer nodes cut their token by the first matching pattern',
  'A lexer node cuts its token from left to right by the first pattern matching at the current position, keeps the pieces of kept patterns with their attribute, and matches iff the whole token is cut and the child matches all the pieces. Text that no pattern matches means no match, and lexing always terminates.',
  ['inputs', 'fault_sequences'], 'every list of patterns, token and failing allocation',
  'Pattern lists and texts are unbounded; a pattern matching the empty text must not loop.',
  [S + 'node_re_lex.c'], 'loop over patterns anchored at the current offset', None, ['parse result and tree'])
p('P25', 'Expressions evaluate by operand and operator structure, releasing all',
  'Evaluating a parsed expression applies the user operations along the structure given by the grammar: value, prefix and suffix operators, binary operators (left to right, the first ones added bind tightest) and parentheses, each exactly once. Every intermediate result is either passed on or released exactly once, also on failure.',
  ['inputs', 'fault_sequences'], 'every expression tree and every failing user operation or allocation',
  'Leaks and double releases depend on which step fails.',
  [S + 'node_expr.c'], 'recursive merge of partial results', ['partial results'], ['user callbacks'])
p('P26', 'Command grammars match the language of their command string',
  'A command node built from a command string matches exactly the inputs of its documented meaning: comma is a set of items in any order and binds tightest, then bar is an ordered choice, then juxtaposition is a sequence; star and plus repeat, brackets make optional, parentheses group; a word that is the identifier of a given node refers to it, unmodified, and any other word matches itself. A malformed string or an unusable reference is refused without leaking.',
  ['inputs', 'fault_sequences'], 'every command string and table of named nodes',
  'Command strings are unbounded and operator combinations interact.',
  [S + 'node_cmd.c'], 'expression grammar evaluated into sequence, choice, subset, option and repetition nodes', None, ['parse results'])
p('P27', 'Conditions evaluate as documented over the parse tree',
  'A conditional node matches as its child exactly when its condition, evaluated over the parse tree of that match, holds: path functions return the documented sets of nodes, comparisons and boolean functions their documented truth values. Malformed conditions are refused and evaluation errors never count as true.',
  ['inputs', 'fault_sequences'], 'every condition expression and parse tree',
  'Condition expressions and trees are unbounded.',
  [S + 'node_cond.c'], 'recursive evaluation of function results', None, ['parse result'])
p('P28', 'Text helpers compute prefixes, blanks and formatted text exactly',
  'The common prefix length of two texts, the prefix test and the blank test are exact for every text of any length. Formatting returns the whole formatted text in memory of its own, or fails returning nothing.',
  ['inputs', 'fault_sequences'], 'every pair of texts and every formatted length, with a failing allocation',
  'Texts are unbounded.',
  [S + 'string.c'], 'character loops; formatting in two passes', None, ['ec_strcmp_count', 'ec_str_startswith', 'ec_str_is_space', 'ec_asprintf'])
p('P29', 'The allocation layer delivers what was asked, or fails cleanly',
  'Allocation requests reach the registered allocator with the right size, zeroed and duplicated blocks hold the right content, and a size computation that overflows is refused. A failing allocator is reported and never dereferenced.',
  ['inputs', 'fault_sequences'], 'every size, count, text and allocator behaviour',
  'Overflowing sizes cannot be sampled with real memory.',
  [S + 'malloc.c'], 'indirection through the registered handler', None, ['ec_malloc/calloc/realloc/strdup/strndup'])
p('P30', 'Initialisation order, log filtering and type registry are exact',
  'Initialisation functions run once each in priority order, clean-up in reverse order, and a failing one stops initialisation and is reported. Every log message reaches the registered handler with its type, level and text, the default handler prints it iff its level does not exceed the global level, and a log type name always gets the same identifier. A node type name is looked up to the type registered last for it, duplicates being refused unless overriding.',
  ['inputs', 'histories'], 'every set of registered functions, levels, types and names',
  'Registration orders and failing positions are unbounded.',
  [S + 'init.c', S + 'log.c', S + 'node.c'], 'sorted list insertion; level table; name list', None, ['ec_init/ec_exit', 'ec_log', 'ec_node_type_lookup'])

NA = {}
DEFNOTE = ('Every obligation generated from the current source is discharged '
           'by CBMC against contracts on the callees; units labelled bounded '
           'hold for all inputs within their stated bound only, units '
           'labelled full or loop without bound. Assumes the contracts in '
           'contracts/*.h of functions not verified in the same unit, CBMC '
           'and the C library models.')
NAF = os.path.join(HERE, 'tools', 'na.json')
if os.path.exists(NAF):
    NA = json.load(open(NAF))
have = [x['id'] for x in P if any(x['id'] in u['props'] for u in UNITS)]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
    for d in P:
        o.write(json.dumps(d) + '\n')
checks = []
for pid in have:
    us = [u for u in UNITS if pid in u['props']]
    full = [u for u in us if u['mode'] != 'bounded']
    lvl = level(pid)
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 vp.py check %s --tier quick' % pid,
        'thorough_cmd': 'python3 vp.py check %s --tier thorough' % pid,
        'technique': 'contract-based deductive verification of the real '
                     'source with CBMC (contracts on callees, loop-invariant '
                     'cuts or loop-free proofs: %d units; bounded stand-ins: '
                     '%d units)' % (len(full), len(us) - len(full)),
        'level': lvl,
        'level_note': NOTES.get(pid) or DEFNOTE})
m = {'version': 1,
     'setup_cmd': 'python3 vp.py setup',
     'hooks': {'guard': 'none', 'enable': '', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': x['id'], 'reason': NA.get(
         x['id'], 'no contract written yet for these functions')}
         for x in P if x['id'] not in have],
     'notes': 'see DESIGN.md; properties decided by units in '
              'units/registry.py'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'claimed', [x['id'] for x in P if x['id'] not in have])
