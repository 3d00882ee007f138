"""Mechanical loop-contract instrumentation of a C source file.

Reads the file's AST (clang -ast-dump=json), and rewrites every syntactic
for/while loop of the file into its "cut" form (the standard deductive
treatment of a loop):

    for (INIT; COND; INC) BODY
  ->
    for (({ INIT; assert(I) [base]; havoc(everything the loop may write);
            assume(I) }); COND; ({ INC; assert(I) [step]; assume(0); })) BODY

I is a conjunction of candidate invariants (each with its own named base and
step obligation).  What the loop may write = the locals it assigns / takes the
address of (from the AST) + the ghost and abstract state (vp_ghost_havoc() of
the harness).  A loop that writes memory through anything else is not cut
unless the unit says that vp_ghost_havoc() covers it ("heap_ok").
Nothing else of the text is changed; do-while loops and loops produced by
macros are left alone (they are then unwound, with an unwinding assertion).
"""
import json
import subprocess
import sys


class Var:
    def __init__(self, name, ctype):
        self.name, self.ctype = name, ctype
        t = ctype.replace('const ', '').replace('volatile ', '').strip()
        self.is_ptr = t.rstrip().endswith('*')
        self.is_arr = '[' in t
        self.is_const = ctype.startswith('const ') and not self.is_ptr
        scal = ('int', 'unsigned int', 'long', 'unsigned long', 'size_t',
                'ssize_t', 'char', 'bool', '_Bool', 'unsigned char', 'short',
                'unsigned short', 'int64_t', 'uint64_t', 'uint32_t',
                'int32_t', 'long long', 'unsigned long long', 'uint8_t')
        self.is_int = t in scal or t.startswith('enum ')


class Loop:
    pass


def off(loc):
    if 'expansionLoc' in loc:
        loc = loc['expansionLoc']
    return loc.get('offset')


def endoff(loc):
    if 'expansionLoc' in loc:
        loc = loc['expansionLoc']
    return loc.get('offset') + loc.get('tokLen', 1)


def is_macro(loc):
    return 'expansionLoc' in loc or 'spellingLoc' in loc


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        inner = [x for x in n.get('inner', []) if x]
        if not inner:
            break
        n = inner[-1]
    return n


def root_local(n):
    """local variable an lvalue lives in, or None when through a pointer"""
    n = strip(n)
    k = n.get('kind')
    if k == 'DeclRefExpr':
        d = n.get('referencedDecl', {})
        return d if d.get('kind') in ('VarDecl', 'ParmVarDecl') else None
    if k == 'MemberExpr' and not n.get('isArrow'):
        return root_local(n['inner'][0])
    if k == 'ArraySubscriptExpr':
        base = n['inner'][0]
        b = base
        # array decay (not a pointer variable)
        while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            if b.get('castKind') == 'ArrayToPointerDecay':
                return root_local(b['inner'][0])
            b = b['inner'][0]
        return None
    return None


def writes(n, names, heap):
    k = n.get('kind')
    if k in ('BinaryOperator', 'CompoundAssignOperator') and \
            (k == 'CompoundAssignOperator' or n.get('opcode') == '='):
        r = root_local(n['inner'][0])
        if r is None:
            heap.append(n)
        else:
            names.add(r['id'])
    elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        r = root_local(n['inner'][0])
        if r is None:
            heap.append(n)
        else:
            names.add(r['id'])
    elif k == 'UnaryOperator' and n.get('opcode') == '&':
        r = root_local(n['inner'][0])
        if r is not None:
            names.add(r['id'])
    elif k == 'ImplicitCastExpr' and n.get('castKind') == 'ArrayToPointerDecay':
        # an array handed to somebody: may be written
        r = root_local(n['inner'][0]) if n.get('inner') else None
        if r is not None:
            names.add(r['id'])
    for c in n.get('inner', []) or []:
        if c:
            writes(c, names, heap)


def calls(n, out):
    if n.get('kind') == 'CallExpr':
        f = strip(n['inner'][0])
        out.add(f.get('referencedDecl', {}).get('name', '*'))
    for c in n.get('inner', []) or []:
        if c:
            calls(c, out)


def header_pieces(text, begin):
    """pieces between the parentheses of for (...;...;...) / while (...)"""
    i = text.index('(', begin)
    depth, start, out, j = 0, i + 1, [], i
    while True:
        ch = text[j]
        if ch in '"\'':
            q = ch
            j += 1
            while text[j] != q:
                j += 2 if text[j] == '\\' else 1
        elif ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
            if depth == 0:
                out.append(text[start:j].strip())
                return out
        elif ch == ';' and depth == 1:
            out.append(text[start:j].strip())
            start = j + 1
        j += 1


def find_loops(path, flags):
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + \
        flags + [path]
    out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         timeout=60)
    ast = json.loads(out.stdout)
    text = open(path).read()
    loops = []

    def walk(n, func, scope, count):
        k = n.get('kind')
        if k in ('ForStmt', 'WhileStmt'):
            rng = n['range']
            if not is_macro(rng['begin']):
                lp = Loop()
                lp.func = func
                lp.idx = count[0]
                count[0] += 1
                lp.kind = k
                inner = n['inner']
                lp.begin = off(rng['begin'])
                if k == 'ForStmt':
                    init, _, cond, inc, body = (inner + [{}] * 5)[:5]
                else:
                    init, inc = {}, {}
                    cond, body = inner[-2], inner[-1]

                lp.init_decl = bool(init) and init.get('kind') == 'DeclStmt'
                pieces = header_pieces(text, lp.begin)
                if k == 'ForStmt':
                    lp.init, lp.cond, lp.inc = pieces
                else:
                    lp.init, lp.cond, lp.inc = '', pieces[0], ''
                lp.body_begin = off(body['range']['begin'])
                inscope = list(scope)
                if lp.init_decl:
                    for d in init.get('inner', []):
                        if d.get('kind') == 'VarDecl':
                            inscope.append((d['id'], Var(
                                d['name'], d['type']['qualType'])))
                ids, heap = set(), []
                for part in (cond, inc, body):
                    if part:
                        writes(part, ids, heap)
                lp.scope = [v for (_, v) in inscope]
                lp.mod = [v for (i, v) in inscope if i in ids]
                lp.heap = len(heap)
                lp.calls = set()
                for part in (cond, inc, body):
                    if part:
                        calls(part, lp.calls)
                lp.line = text.count('\n', 0, lp.begin) + 1
                loops.append(lp)
                for c in inner:
                    if c:
                        walk(c, func, list(inscope), count)
                return
        if k == 'CompoundStmt':
            scope = list(scope)
        if k == 'DeclStmt':
            for d in n.get('inner', []):
                if d.get('kind') == 'VarDecl' and d.get('storageClass') != 'static':
                    scope.append((d['id'], Var(d['name'],
                                               d['type']['qualType'])))
        for c in n.get('inner', []) or []:
            if c:
                walk(c, func, scope, count)

    defined = set()
    for d in ast.get('inner', []):
        if d.get('kind') != 'FunctionDecl':
            continue
        loc = d.get('loc', {})
        if 'includedFrom' in loc or 'includedFrom' in loc.get(
                'spellingLoc', {}) or 'expansionLoc' in loc:
            continue
        body = [x for x in d.get('inner', []) if x.get('kind') == 'CompoundStmt']
        if not body:
            continue
        defined.add(d['name'])
        scope = [(x['id'], Var(x['name'], x['type']['qualType']))
                 for x in d['inner'] if x.get('kind') == 'ParmVarDecl'
                 and 'name' in x]
        walk(body[0], d['name'], scope, [0])
    for lp in loops:
        # calls to functions of the same file may write memory: counted as
        # heap writes (calls out of the file go to contracts = ghost state)
        lp.local_calls = sorted(lp.calls & defined)
        if lp.local_calls or '*' in lp.calls:
            lp.heap += 1
    return text, loops


def candidates(lp, ghosts, templates, invs):
    """[(name, C expression)] for one loop"""
    c = []
    for n, e in invs:
        c.append(('inv_' + n, e))
    ints = [v for v in lp.scope if v.is_int]
    for v in lp.mod:
        if v.is_int:
            for g in ghosts:
                c.append(('%s_eq_%s' % (v.name, g),
                          '(unsigned long)%s == (unsigned long)%s' % (v.name, g)))
                c.append(('%s_le_%s' % (v.name, g),
                          '(unsigned long)%s <= (unsigned long)%s' % (v.name, g)))
        if v.is_ptr:
            c.append(('%s_null' % v.name, '%s == 0' % v.name))
    for n, e in templates:
        if '$i' in e:
            for v in ints:
                c.append(('tmpl_%s_%s' % (n, v.name), e.replace('$i', v.name)))
        elif '$p' in e:
            for v in lp.scope:
                if v.is_ptr:
                    c.append(('tmpl_%s_%s' % (n, v.name),
                              e.replace('$p', v.name)))
    return c


def expand(lp, templates):
    """instances of template expressions over the variables of a loop"""
    out = []
    for e in templates:
        if '$i' in e:
            out += [e.replace('$i', v.name) for v in lp.scope if v.is_int]
        elif '$p' in e:
            out += [e.replace('$p', v.name) for v in lp.scope if v.is_ptr]
        else:
            out.append(e)
    return out


def rewrite(text, loops, cands, heap_ok, facts=()):
    """cands: {loop key: [(name, expr)]}; returns (text, keys of cut loops)"""
    edits, cut = [], []
    for lp in loops:
        key = '%s.%d' % (lp.func, lp.idx)
        if key not in cands:
            continue
        if lp.heap and not heap_ok:
            continue
        base, assume, step = [], [], []
        for n, e in cands[key]:
            base.append('__CPROVER_assert(%s, "vp_inv:base:%s:%s");' % (e, key, n))
            assume.append('__CPROVER_assume(%s);' % e)
            step.append('__CPROVER_assert(%s, "vp_inv:step:%s:%s");' % (e, key, n))
        # instances of the (universally quantified) precondition
        for e in expand(lp, facts):
            assume.append('__CPROVER_assume(%s);' % e)
        hav = []
        for v in lp.mod:
            if v.is_int and not v.is_const:
                hav.append('%s = (__typeof__(%s))nondet_vp_u64();' % (v.name, v.name))
            elif v.is_ptr and not v.is_arr:
                hav.append('%s = (__typeof__(%s))nondet_vp_ptr();' % (v.name, v.name))
            else:
                hav.append('__CPROVER_havoc_object((void *)&%s);' % v.name)
        enter = ' '.join(base) + ' ' + ' '.join(hav) + \
            ' vp_ghost_havoc(); ' + ' '.join(assume)
        stp = ' '.join(step) + ' __CPROVER_assert(0, "vp_coveropt:iter:%s");' % key \
            + ' __CPROVER_assume(0);'
        cond = lp.cond or ''
        inc = (lp.inc + ';') if lp.inc else ''
        if lp.init_decl:
            d = lp.init.rstrip().rstrip(';')
            head = 'for (%s, vp_e%d = ({ %s 0; }); %s; ({ %s %s (void)0; })) ' \
                % (d, len(cut), enter, cond, inc, stp)
        else:
            init = (lp.init.rstrip(';') + ';') if lp.init else ''
            head = 'for (({ %s %s (void)0; }); %s; ({ %s %s (void)0; })) ' % (
                init, enter, cond, inc, stp)
        nl = text.count('\n', lp.begin, lp.body_begin)
        head = head.replace('\n', ' ') + '\n' * nl
        edits.append((lp.begin, lp.body_begin, head))
        cut.append(key)
    # nested heads never overlap (a head ends where its body begins)
    for b, e, h in sorted(edits, reverse=True):
        text = text[:b] + h + text[e:]
    return text, cut


if __name__ == '__main__':
    t, ls = find_loops(sys.argv[1], sys.argv[2:])
    for x in ls:
        print(x.func, x.idx, x.line, 'mod', [v.name for v in x.mod], 'heap',
              x.heap, repr(x.init), repr(x.cond), repr(x.inc))
