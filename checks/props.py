"""The checks, one function per property."""
import glob, os, json, re
from lib import CheckError, SPECS, cases

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


LEX_INV = ['InvTiles', 'InvComplete', 'InvLossless', 'InvPositions', 'InvMunch', 'InvBigStep', 'Emit']
ALL_DIALECTS = '{"generic","mysql","postgres","letters","wide"}'
# representatives of every character class
FULL = '{9,10,13,32,33,34,36,39,42,45,46,47,49,58,59,60,61,62,64,78,91,93,95,96,97,233}'
# the characters that open, close and continue quoted tokens, comments and lines
QUOTES = '{10,13,34,39,42,45,47,78,96}'
WORDS = '{9,34,36,39,46,49,64,78,91,93,95,97,233}'
OPS = '{32,33,42,45,47,58,60,61,62}'


def lexer_models(c):
    t = c.thorough

    def mc(name, alphabet, n):
        return lambda: c.tlc('LexerMC', {'Alphabet': alphabet, 'MaxLen': n, 'MCDialects': ALL_DIALECTS}, LEX_INV,
                             name='LexerMC-' + name, workers=3)
    return c.parallel(
        mc('classes', FULL, 4 if t else 3),
        mc('quotes', QUOTES, 6 if t else 4),
        mc('words', WORDS, 5 if t else 3),
        mc('operators', OPS, 5 if t else 4),
        lambda: c.tlc('LexerRand', {'Seed': c.seed, 'N': 40000 if t else 2500, 'Pieces': 16}, LEX_INV, workers=4))


def lexer_check(c):
    exe, files = c.parallel(c.build, lambda: lexer_models(c))
    for f in files:
        c.harness(exe, 'lex', [f], name='lex-' + os.path.basename(f)[:-4])
    c.extra['rule'] = ('every text up to the length bound over each alphabet of character class representatives, in three '
                       'dialects, and seeded long texts; non-trivial: rejected or more than one token; distinct by dialect and text')


for _p in ('C01', 'C02', 'C03'):
    CHECKS[_p] = lexer_check

# ---------------------------------------------------------------------------------------------------------------
# the SQL grammar

GEN_INV = ['InvOne', 'InvYield', 'InvGrouped', 'InvRecognised', 'InvEdits', 'Emit']
RAND_INV = ['InvYield', 'InvGrouped', 'InvRecognised', 'InvInterchangeable', 'InvMutants', 'Emit']
SCRIPT_INV = ['InvCount', 'InvYield', 'InvOrder', 'InvRecognised', 'Emit']


def tlaset(xs):
    return '{' + ','.join('"%s"' % x for x in xs) + '}'


def part(kind, fuel, focus=()):
    return '[kind |-> "%s", fuel |-> %d, focus |-> %s]' % (kind, fuel, tlaset(focus))


def gen(c, name, parts, edits=(), inserted=(), workers=8, timeout=850, heap='5g'):
    """every derivation of some parts: (kind, fuel, focus)"""
    return lambda: c.tlc('SqlGen', {'Edits': tlaset(edits), 'Inserted': tlaset(inserted)}, GEN_INV, name='SqlGen-' + name,
                         defs={'Parts': '{' + ', '.join(part(*p) for p in parts) + '}'}, workers=workers, timeout=timeout, heap=heap)


def rand(c, name, cases_, fuel=20, mutants=0, start='Stmt', workers=8, seed=None):
    return lambda: c.tlc('SqlRand', {'Seed': c.seed if seed is None else seed, 'Cases': cases_, 'Fuel': fuel, 'Mutants': mutants,
                                     'StartSyms': '"%s"' % start}, RAND_INV, name='SqlRand-' + name, workers=workers)


LIGHT = {'Starts': '{StartOf(k) : k \\in StmtKinds \\cup {"Expr","Query","With","Table","SetOp","Type","Column","Element","Frame"}} \\cup {<<N("Stmt")>>}'}


def pumps(c, fuel=1, workers=8):
    return lambda: c.tlc('SqlPump', {'PreFuel': 0, 'AlphaFuel': fuel}, ['InvText', 'InvGrows', 'InvRegular', 'Emit'], defs=LIGHT, workers=workers)


def long(c, flat=None, deep=None, mutants=0, workers=4):
    """long lists and deep nestings: each thing that can be repeated, where it stands with the least around it"""
    def run():
        best = {}
        for q in cases(pumps(c, workers=workers)()):
            p = q['pump']
            k = json.dumps([p['sym'], p['alpha'], p['beta']])
            if q['ok'][2] and (k not in best or (len(p['pre'] + p['core'] + p['post']), p['pre']) < (len(best[k]['pre'] + best[k]['core'] + best[k]['post']), best[k]['pre'])):
                best[k] = p
        seq = lambda xs: '<<%s>>' % ', '.join('"%s"' % x for x in xs)
        ps = ['[%s]' % ', '.join('%s |-> %s' % (f, seq(best[k][f])) for f in ('pre', 'alpha', 'core', 'beta', 'post')) for k in sorted(best)]
        return c.tlc('SqlLong', {'Flat': flat or (600 if c.thorough else 300), 'Deep': deep or (150 if c.thorough else 80), 'Seed': c.seed, 'Mutants': mutants},
                     ['InvRegular', 'InvYield', 'InvGrouped', 'InvMutants', 'Emit'], defs={'Pumps': '<<%s>>' % ',\n '.join(ps)},
                     workers=workers)
    return run


def script(c, variants, edits, items=6, fuel=4, workers=8):
    return lambda: c.tlc('SqlScript', {'Seed': c.seed, 'MaxItems': items, 'Variants': variants, 'Fuel': fuel, 'Edits': edits},
                         SCRIPT_INV, workers=workers)


# where optional constructs are taken: operators, and the parts of the grammar that nest or list
OPERATORS = ('tail', 'PrefixNX NOT', 'PrefixNX -', 'PrefixNX (')
JOINS = ('RefTail', 'NatType', 'JoinSpec', 'LeftType', 'RightType', 'FullType', 'Factor', 'TableAlias')
SETOPS = ('stail', 'BodyPrimary', 'OrderBy', 'Limit', 'All', 'QueryWith')
WINDOWS = ('Over', 'Frame', 'Bounds', 'Bound', 'PartitionBy', 'WinOrder', 'Asc')
# part: kind, focus, and the fuel in quick and thorough runs, first for the derivations, then for their edits
PARTS = (
    ('Table', JOINS, 3, 4, 2, 2),
    ('SetOp', SETOPS, 4, 5, 2, 3),
    ('Frame', WINDOWS, 6, 7, 3, 5),
    ('Type', (), 3, 3, 1, 2),
    ('Query', ('Distinct', 'OrderBy', 'OrderItems', 'Asc', 'Limit', 'LimitValue', 'Offset', 'GroupBy', 'Having', 'Where', 'From', 'ItemLoop'), 5, 7, 3, 4),
    ('With', ('CTEs', 'QueryWith', 'Query', 'BodyPrimary', 'OrderBy', 'Limit', 'stail'), 3, 4, 2, 2),
    ('Expr', ('PrefixNX CASE', 'CaseOperand', 'Whens', 'Else'), 4, 5, 3, 4),
    ('Expr', ('IdTail', 'Args', 'ExprLoop', 'Over', 'PrefixNX CAST', 'PrefixNX (', 'Query'), 4, 5, 2, 3),
    ('Insert', ('InsertRest', 'NamesLoop', 'InsertSource', 'InsertSourceC', 'Rows', 'ExprLoop', 'OnDuplicate', 'AssignLoop', 'NameLoop'), 5, 7, 2, 4),
    ('Create', ('IfNotExists', 'ElementLoop', 'Element', 'TableConstraint', 'KeyNoise', 'NamesLoop', 'Options', 'OptionLoop', 'Equal', 'Elements'), 4, 5, 2, 3),
    ('Create', ('Create', 'IndexName', 'Method', 'IndexCols', 'NamesLoop', 'Where', 'NameLoop'), 5, 6, 2, 4),
    ('Column', ('ColAttrs', 'ColConstraint', 'NamesLoop', 'NameLoop'), 3, 4, 2, 2),
    ('Alter', ('Cascade', 'NameLoop', 'ColAttrs', 'TableConstraint', 'KeyNoise'), 3, 4, 1, 2),
    ('Drop', ('IfExists', 'TableNames', 'NameLoop', 'NamesLoop', 'Cascade'), 5, 6, 3, 4),
    ('Update', ('AssignLoop', 'Where', 'NameLoop'), 4, 5, 3, 4),
)
INSERTABLE = (',', 'id', '(', ')', 'AS', 'NOT', 'int', ';', '=', '.', 'SELECT', 'NULL', 'WITH', 'ON', '*', 'str', 'KEY', 'DEFAULT')
REPLACEMENTS = ('id', 'int', 'str', ',', '(', ')', 'NULL', '=')


def parts(c, workers=6):
    """deep derivations of the constructs that nest, cheap enough for every run"""
    return [gen(c, 'parts', [(k, t if c.thorough else q, f) for k, f, q, t, _, _ in PARTS], workers=workers)]


def part_edits(c, edits, inserted=(), workers=6):
    return [gen(c, 'partedits', [(k, t if c.thorough else q, f) for k, f, _, _, q, t in PARTS], edits, inserted, workers=workers)]


def statements(c):
    t = c.thorough
    ms = [gen(c, 'statements', [('Stmt', 2)], workers=6)] + parts(c)
    if t:
        ms += [gen(c, 'deeper', [('Column', 3), ('Element', 3), ('Expr', 3)], workers=8)]
    ms.append(rand(c, 'statements', 30000 if t else 1500, fuel=30 if t else 20, workers=4))
    ms.append(long(c))
    return ms


def edits(c):
    t = c.thorough
    ms = [gen(c, 'edits', [('Stmt', 1)], ['cut', 'drop', 'twice', 'swap', 'copy', 'replace'], REPLACEMENTS, workers=6),
          gen(c, 'insertions', [('Stmt', 1)], ['insert'], INSERTABLE, workers=6),
          rand(c, 'edits', 20000 if t else 2500, fuel=20, mutants=20 if t else 10, workers=8)]
    ms += part_edits(c, ['cut', 'drop', 'twice', 'swap', 'copy', 'replace'], REPLACEMENTS)
    ms.append(long(c, mutants=20 if t else 5))
    if t:
        ms.append(gen(c, 'edits2', [('Stmt', 2)], ['cut', 'drop', 'twice', 'swap'], workers=8, heap='8g'))
    return ms


# beginnings of statements to which tokens are appended
CONTEXTS = (
    'SELECT id FROM id', 'SELECT id FROM id JOIN id', 'SELECT id FROM id NATURAL', 'SELECT id FROM id WHERE id',
    'SELECT id FROM id AS id WITH ( id )', 'SELECT id FROM ( SELECT id )', 'SELECT id FROM id GROUP BY id', 'SELECT id ORDER BY id',
    'SELECT id LIMIT int', 'SELECT id UNION', 'SELECT NOT id', 'SELECT id IN ( id', 'SELECT id BETWEEN id', 'SELECT CAST ( id AS',
    'SELECT id :: TIMESTAMP', 'SELECT id :: NUMERIC (', 'SELECT CASE WHEN id', 'SELECT CASE id WHEN id THEN id', 'SELECT id (',
    'SELECT id ( id ) OVER (', 'SELECT id ( ) OVER ( ROWS', 'SELECT id ( ) OVER ( PARTITION BY id', 'WITH id AS ( SELECT id )',
    'WITH id AS ( SELECT id ) SELECT id', 'INSERT INTO id', 'INSERT INTO id ( id )', 'INSERT INTO id VALUES ( int )',
    'INSERT INTO id VALUES ( int ) ON DUPLICATE', 'UPDATE id SET id = id', 'DELETE FROM id', 'CREATE TABLE', 'CREATE TABLE id (',
    'CREATE TABLE id ( id INT', 'CREATE TABLE id ( id INT DEFAULT int', 'CREATE TABLE id ( id INT CONSTRAINT id', 'CREATE TABLE id ( id INT ,',
    'CREATE TABLE id ( id INT )', 'CREATE TABLE id ( id INT ) ENGINE', 'CREATE INDEX id ON id', 'CREATE VIEW id AS', 'ALTER TABLE id',
    'ALTER TABLE id ADD', 'ALTER TABLE id ALTER COLUMN id', 'DROP TABLE id', 'DROP INDEX', 'SELECT id ;',
)


def grammar_tokens():
    """the tokens of the grammar: the strings of Grammar.tla"""
    s = open(os.path.join(SPECS, 'Grammar.tla')).read()
    words = re.findall(r'"([A-Z_]+)"', s[s.index('ReservedCol =='):s.index('IsWord(t)')])
    marks = re.findall(r'"([^"]+)"', s[s.index('Punct =='):s.index('Classes ==')])
    return sorted(set(words) | set(marks) | {'id', 'int', 'dbl', 'str', 'nstr'})


def soup(c, name, contexts, depth, tokens=None, workers=6):
    """every sequence of tokens after the contexts, with the verdict of the recogniser"""
    ctx = '{%s}' % ', '.join('<<%s>>' % ', '.join('"%s"' % t for t in x.split()) for x in contexts)
    return lambda: c.tlc('SqlSoup', {'MaxDepth': depth}, ['InvAccepted', 'InvDead', 'Emit'], name='SqlSoup-' + name, workers=workers,
                         defs={'Alphabet': tlaset(tokens or grammar_tokens()), 'Contexts': ctx})


def soups(c):
    t = c.thorough
    return [soup(c, 'beginnings', ['', ';'], 4 if t else 3), soup(c, 'contexts', CONTEXTS, 3 if t else 2)]


def replay(c, cmd, models):
    res = c.parallel(c.build, *models)
    exe, files = res[0], res[1:]
    for f in files:
        c.harness(exe, cmd, [f], name=cmd + '-' + os.path.basename(f)[:-4])
    return exe, files


SQL_RULE = ('every derivation of the grammar up to a number of optional constructs and sampled longer ones, with seeded spellings '
            'and layouts; distinct by the text of the tokens')


@check('C05')
def c05(c):
    c.extra['rule'] = SQL_RULE + '; and every edit of the small ones that the recogniser accepts'
    ms = statements(c) + [gen(c, 'edits', [('Stmt', 1)], ['drop', 'twice', 'swap'], workers=3)]
    if c.thorough:
        ms.append(rand(c, 'edits', 20000, mutants=20))
    replay(c, 'ast', ms + soups(c))


@check('C06')
def c06(c):
    c.extra['rule'] = 'every combination of up to three (thorough: four) operators, and sampled larger expressions and set operations'
    t = c.thorough
    ms = [gen(c, 'operators', [('Expr', 3, OPERATORS), ('Expr', 2)]),
          gen(c, 'setops', [('SetOp', 6 if t else 5, ('stail', 'BodyPrimary', 'All')),
                            ('Column', 4 if t else 3, ('ColAttrs DEFAULT', 'dtail', 'PrefixNX NOT', 'PrefixNX -'))], workers=5),
          rand(c, 'expressions', 20000 if t else 1500, fuel=30 if t else 15, start='Expr', workers=4), long(c)]
    if t:
        ms += [gen(c, 'operators4', [('Expr', 4, ('tail',))], heap='8g'), gen(c, 'expressions3', [('Expr', 3)], workers=6)]
    replay(c, 'ast', ms)


@check('C07')
def c07(c):
    c.extra['rule'] = SQL_RULE + '; and edited texts that the parser accepts'
    replay(c, 'roundtrip', statements(c) + [rand(c, 'edits', 10000 if c.thorough else 800, mutants=10, workers=4)] + soups(c))


@check('C08')
def c08(c):
    c.extra['rule'] = SQL_RULE + '; each in the layouts plain, tight, spaces and comments, with keywords in different case, and in five ways of parsing'
    replay(c, 'layout', statements(c) + [rand(c, 'edits', 10000 if c.thorough else 800, mutants=10, workers=4)])


@check('C09')
def c09(c):
    c.extra['rule'] = SQL_RULE + '; identifiers are quoted keywords, and keywords are replaced by quoted identifiers holding their text'
    ms = statements(c) + [gen(c, 'unkey', [('Stmt', 1)], ['unkey'], workers=4)] + part_edits(c, ['unkey'])
    if c.thorough:
        ms.append(gen(c, 'unkey2', [('Stmt', 2)], ['unkey'], workers=8, heap='8g'))
    replay(c, 'idents', ms)


@check('C10')
def c10(c):
    c.extra['rule'] = 'every shape of a script up to six (thorough: eight) statements and semicolons, with sampled statements and layouts'
    replay(c, 'script', [script(c, 100, 6 if c.thorough else 4, items=8 if c.thorough else 6, fuel=8 if c.thorough else 5)])


@check('C11')
def c11(c):
    c.extra['rule'] = ('every truncation, deletion, duplication, transposition and insertion of a token in every small derivation, '
                       'sampled edits of larger ones, judged by the recogniser of the grammar')
    replay(c, 'reject', edits(c) + soups(c))


@check('C18')
def c18(c):
    c.extra['rule'] = SQL_RULE
    replay(c, 'extents', statements(c))


@check('C19')
def c19(c):
    t = c.thorough
    c.extra['rule'] = ('every numeral and string content up to a length, numerals around the bounds of 64 bit integers and doubles, in '
                       'every place for a literal; and the statements of the grammar with seeded literals')
    inv = ['InvCanon', 'InvOrder', 'InvDoubled', 'Emit']
    lit = lambda: c.tlc('Literal', {'MaxDigits': 6 if t else 5, 'NumAlphabet': '{0,1,9,10}', 'MaxString': 5 if t else 4,
                                    'StrAlphabet': '{39,97,10,13,92,45,59,233}'}, inv, workers=4)
    exe, f, f2 = c.parallel(c.build, lit, gen(c, 'statements', [('Stmt', 2)], workers=6))
    c.harness(exe, 'literal', [f])
    c.harness(exe, 'ast', [f2])


# ---------------------------------------------------------------------------------------------------------------
# traversals

def traces(c, cmd, invariants=(), every=100, module='TraverseTrace'):
    """record traversals of the derivations and have TLC judge them"""
    c.extra['rule'] = SQL_RULE + '; the traversals of their ASTs, with seeded declining and edits'
    t = c.thorough
    mc = lambda: c.tlc('TraverseMC', {'MaxNodes': 6 if t else 5}, ['InvOnce', 'InvParent', 'InvComplete', 'InvNested'], workers=2)
    ms = [gen(c, 'statements', [('Stmt', 2)], workers=6), rand(c, 'statements', 8000 if t else 500, fuel=30 if t else 20, workers=4), long(c, 100, 40), mc]
    res = c.parallel(c.build, *ms)
    exe, files = res[0], res[1:-1]
    for i, f in enumerate(files):
        tr = os.path.join(c.dir, '%s-%d.ndjson' % (cmd, i))
        c.harness(exe, cmd, [f], name='%s-%d' % (cmd, i), trace=tr, args={'every': 5 if t else every})
        c.validate(module, tr)
    return exe, files


@check('C14')
def c14(c):
    traces(c, 'walk')


@check('C15')
def c15(c):
    traces(c, 'apply')


@check('C16')
def c16(c):
    t = c.thorough
    f = {}
    def ed():
        f['e'] = c.tlc('Edits', {'MaxLen': 4 if t else 3, 'MaxOps': 2, 'MaxTotal': 4 if t else 3}, ['InvVisits', 'InvMeaning', 'Emit'], workers=2)
    exe, files = traces(c, 'edits')
    ed()
    c.harness(exe, 'lists', [f['e']] + list(files))


@check('C17')
def c17(c):
    t = c.thorough
    c.extra['rule'] = SQL_RULE + '; every node of the chosen ones printed to writers failing at every byte in three manners'
    mc = lambda: c.tlc('Writer', {'MaxDepth': 2, 'MaxParts': 2, 'MaxPiece': 2 if t else 1}, ['InvCount', 'InvLatched', 'InvReported'], workers=3)
    res = c.parallel(c.build, gen(c, 'statements', [('Stmt', 2)], workers=6), rand(c, 'statements', 8000 if t else 500, fuel=30 if t else 20, workers=4), long(c), mc)
    for i, f in enumerate(res[1:4]):
        tr = os.path.join(c.dir, 'writer-%d.ndjson' % i)
        c.harness(res[0], 'writer', [f], name='writer-%d' % i, trace=tr, args={'every': 5 if t else 50, 'save': 200 if t else 400})
        c.validate('WriterTrace', tr)


@check('C23')
def c23(c):
    t = c.thorough
    c.extra['rule'] = SQL_RULE + '; the extents of all nodes of the chosen ones'
    res = c.parallel(c.build, gen(c, 'statements', [('Stmt', 2)], workers=6), rand(c, 'statements', 8000 if t else 800, fuel=30 if t else 20, workers=4), *parts(c),
                     long(c, 100, 40))
    for i, f in enumerate(res[1:]):
        tr = os.path.join(c.dir, 'extents-%d.ndjson' % i)
        c.harness(res[0], 'nodeextents', [f], name='nodeextents-%d' % i, trace=tr, args={'spans': 2, 'every': (5, 2, 50, 5)[i] if t else (50, 5, 500, 50)[i]})
        c.validate('ExtentTrace', tr, invariants=('InvWithin', 'Emit'))


# ---------------------------------------------------------------------------------------------------------------
# comments

def gaps(c):
    return lambda: c.tlc('Comments', {'MaxLen': 6 if c.thorough else 5}, ['InvAll', 'InvSplit', 'Emit'], workers=2)


@check('C12')
def c12(c):
    t = c.thorough
    c.extra['rule'] = ('every sequence of comments, blanks and line ends up to five (thorough: six) between two tokens, at every place of probe '
                       'texts and at sampled places of every derivation')
    exe, g, f, f2, f3 = c.parallel(c.build, gaps(c), gen(c, 'statements', [('Stmt', 2)], workers=6),
                                   rand(c, 'statements', 20000 if t else 1000, fuel=30 if t else 20, workers=4), long(c))
    c.harness(exe, 'comments', [g, f], name='comments-1')
    c.harness(exe, 'comments', [g, f2], name='comments-2')
    c.harness(exe, 'comments', [g, f3], name='comments-3')


@check('C13')
def c13(c):
    t = c.thorough
    c.extra['rule'] = ('derivations with comments in sampled gaps, the recorded maps judged by the sweep; and every layout of up to six (thorough: '
                       'seven) lines of items, comments and blank lines')
    exe, g, f, f2, li, el, lo = c.parallel(
        c.build, gaps(c), gen(c, 'statements', [('Stmt', 2)], workers=6),
        rand(c, 'statements', 8000 if t else 800, fuel=30 if t else 20, workers=4),
        lambda: c.tlc('CommentLayout', {'MaxLines': 7 if t else 6, 'MaxItems': 3}, ['InvNear', 'Emit'], workers=2),
        gen(c, 'elements', [('Element', 2)], workers=2), long(c, 100, 40))
    for i, x in enumerate((f, f2, el, lo)):
        tr = os.path.join(c.dir, 'commentmap-%d.ndjson' % i)
        c.harness(exe, 'commentmap', [g, x], name='commentmap-%d' % i, trace=tr, args={'every': 1 if i == 2 else 5 if t else 60})
        c.validate('CommentMapTrace', tr, invariants=('InvNode', 'Emit'))
    c.harness(exe, 'cmaplines', [li, f2, el], args={'each': 12 if t else 6})


# ---------------------------------------------------------------------------------------------------------------
# sources, instances, the command, totality

@check('C21')
def c21(c):
    t = c.thorough
    c.extra['rule'] = ('every way to deliver a text of three (thorough: four) units in up to five reads, laid over derivations, scripts longer than '
                       'the buffers and texts with lexical errors; and every offset of sampled texts as a split and as a failure')
    exe, s, f, lx = c.parallel(
        c.build, lambda: c.tlc('Source', {'Units': 4 if t else 3, 'MaxReads': 6 if t else 5}, ['InvPrefix', 'InvWhole', 'InvFails', 'InvSame', 'Emit'], workers=2),
        rand(c, 'statements', 4000 if t else 600, fuel=20, workers=4),
        lambda: c.tlc('LexerRand', {'Seed': c.seed, 'N': 3000 if t else 600, 'Pieces': 16}, LEX_INV, workers=2))
    c.harness(exe, 'source', [s, f, lx], args={'each': 20 if t else 6, 'texts': 3000 if t else 250})


def life(name, text, *ops):
    return '[name |-> "%s", text |-> %d, ops |-> <<%s>>]' % (name, text, ', '.join('"%s"' % o for o in ops))


@check('C20')
def c20(c):
    t = c.thorough
    c.extra['rule'] = ('every interleaving of the segments of two parsers, of a parser, a tokenizer and a user of an AST, of two users sharing an '
                       'AST, and of two parsers whose ASTs are edited in place, over sampled texts; the same texts in several orders in fresh processes; and all at once under the race detector')
    inv = ['InvAlone', 'InvUnchanged', 'Emit']

    def inst(name, *lives):
        return lambda: c.tlc('Instances', {}, inv, name='Instances-' + name, defs={'Lives': '<<%s>>' % ', '.join(lives)}, workers=3)
    P = ('read', 'read', 'parse', 'print', 'print', 'walk', 'walk', 'map')
    U = ('print', 'print', 'walk', 'walk', 'map', 'apply', 'apply')
    exe, rexe, a, b, d, e, f, lx = c.parallel(
        c.build, lambda: c.build(race=True),
        inst('parsers', life('parser', 1, *P[:8 if t else 7]), life('parser', 2, *P[:8 if t else 7])),
        inst('mixed', life('parser', 1, 'read', 'read', 'parse', 'print'), life('tokenizer', 2, 'token', 'token', 'token'),
             life('user', 1, 'print', 'print', 'walk', 'walk') if t else life('user', 1, 'print', 'print', 'map')),
        inst('users', life('user', 1, *U[:7 if t else 6]), life('user', 1, *U[:7 if t else 6])),
        inst('editors', life('editor', 1, *('read', 'parse', 'edit', 'edit', 'print', 'walk')[:6 if t else 5]),
             life('editor', 2, *('read', 'parse', 'edit', 'print', 'map')[:5 if t else 4])),
        rand(c, 'statements', 4000 if t else 600, fuel=20, workers=3),
        lambda: c.tlc('LexerRand', {'Seed': c.seed, 'N': 3000 if t else 600, 'Pieces': 16}, LEX_INV, workers=2))
    for k, h in enumerate((a, b, d, e)):
        c.harness(exe, 'instances', [h, f, lx], name='instances-%d' % k, args={'each': 6 if t else 1})
    # the order does not matter
    first = None
    for order in range(8 if t else 4):
        tr = os.path.join(c.dir, 'digest-%d' % order)
        c.harness(exe, 'digest', [f, lx], name='digest-%d' % order, trace=tr, args={'texts': 20000 if t else 2500, 'order': order}, traces=False)
        if not os.path.exists(tr + '.labels'):
            continue
        got = open(tr).read().split('\n')
        labels = open(tr + '.labels', encoding='utf-8', errors='replace').read().split('\n')
        first = first or got
        for i, (x, y) in enumerate(zip(first, got)):
            if x != y:
                c.total += 1
                if len(c.violations) < 25:
                    c.add_violation({'case': labels[i], 'what': 'processed in another order, among other texts, the result is another one (order %d)' % order})
        c.counts['texts processed in several orders'] = len(got) - 1
    # data races
    log = os.path.join(c.dir, 'datarace')
    c.harness(exe, 'crowd', [f, lx], args={'texts': 600 if t else 100, 'rounds': 20 if t else 2})
    c.harness(rexe, 'race', [f, lx], args={'texts': 600 if t else 100}, env={'GORACE': 'exitcode=0 log_path=' + log})
    for g in glob.glob(log + '.*'):
        c.total += 1
        c.add_violation({'case': 'concurrent parsers, tokenizers and users of ASTs', 'what': 'data race: ' + open(g).read()[:2500]})


CLI_KINDS = ('statement', 'statement and semicolon', 'several statements', 'long statement', 'statement and comments', 'statement and rubbish',
             'semicolon and statement', 'lexical error', 'statement and lexical error', 'syntax error', 'truncated', 'nothing', 'blanks',
             'comments', 'other statement')


@check('C22')
def c22(c):
    t = c.thorough
    c.extra['rule'] = ('every way to give a text to the command, with every kind of text, and several texts of each: derivations, edits of them '
                       'judged by the recogniser, and texts the tokenizer rejects')
    exe, cmd, cl, f, lx = c.parallel(
        c.build, lambda: c.build_command('astprinter'),
        lambda: c.tlc('Cli', {'Inputs': tlaset(('stdin', 'stdin named', 'file', 'file relative', 'file after two dashes', 'missing file', 'directory',
                                                'empty name', 'missing directory')),
                              'Deliveries': tlaset(('whole', 'lines', 'late', 'redirected')), 'Kinds': tlaset(CLI_KINDS)},
                      ['InvStatus', 'InvPrinted', 'InvOnce', 'Emit'], spec='Spec', properties=['Progress'], workers=1),
        lambda: c.tlc('FirstRand', {'Seed': c.seed, 'Cases': 4000 if t else 600, 'Fuel': 20, 'Mutants': 6, 'StartSyms': '"Stmt"'},
                      ['InvYield', 'InvRecognised', 'InvFirst', 'EmitFirst'], workers=5),
        lambda: c.tlc('LexerRand', {'Seed': c.seed, 'N': 10000 if t else 2500, 'Pieces': 12}, LEX_INV, workers=2))
    c.harness(exe, 'cli', [cl, f, lx], args={'exe': cmd, 'dir': os.path.join(c.dir, 'cli'), 'each': 150 if t else 12})



@check('C04')
def c04(c):
    t = c.thorough
    c.extra['rule'] = ('texts of characters and of tokens, valid, edited, cut and rubbish, through every entry point; and every self-embedding of the '
                       'grammar and every short text repeated up to 64 KiB')
    pump = pumps(c, 2 if t else 1)
    mc = lambda: c.tlc('LexerMC', {'Alphabet': FULL, 'MaxLen': 3, 'MCDialects': ALL_DIALECTS}, LEX_INV, name='LexerMC-classes', workers=3)
    lx = lambda: c.tlc('LexerRand', {'Seed': c.seed, 'N': 30000 if t else 1500, 'Pieces': 16}, LEX_INV, workers=2)
    res = c.parallel(c.build, pump, mc, lx, gen(c, 'statements', [('Stmt', 2 if t else 1)], workers=4),
                     rand(c, 'edits', 10000 if t else 600, mutants=10, workers=4), soup(c, 'contexts', CONTEXTS, 2, workers=4),
                     *(parts(c) if t else []))
    exe, p, m, l, files = res[0], res[1], res[2], res[3], res[4:]
    c.harness(exe, 'pumps', [p, m], args={'every': 3 if t else 45})
    c.harness(exe, 'total', [m, l] + list(files), args={'every': 1 if t else 20})


# ---------------------------------------------------------------------------------------------------------------
# the generator of markers

GENMARK = {'Words': '{<<"Foo","foo">>,<<"SQL","sql">>,<<"Bar","bar">>,<<"Window","window">>}', 'LastWords': '{<<"B","b">>,<<"Utf8","utf8">>}', 'MaxWords': '3',
           'BadNames': tlaset(('', 'foo', '_Foo', '1Foo', 'Foo-Bar', 'Foo Bar', 'Type', 'Foo{', 'Foo.Bar', 'sqlFoo')),
           'Embeds': '{<<>>,<<"Node">>,<<"Node","Stmt">>}', 'BadEmbeds': '{<<"1x">>,<<"Node",")">>,<<"a b">>}',
           'Outputs': tlaset(('', 'out', 'sub/out', 'taken', 'missing/out')), 'Packages': tlaset(('flag', 'env', 'both', 'none')), 'Runs': '1'}
GENMARK_INV = ['InvLast', 'InvOnly', 'Emit']


@check('C24')
def c24(c):
    t = c.thorough
    c.extra['rule'] = ('every invocation over names of up to three words, embedded interfaces, outputs and packages, and every history of three (thorough: '
                       'also four over fewer) invocations in one directory; and the directives in the repository')
    many = dict(GENMARK, Words='{<<"Foo","foo">>,<<"SQL","sql">>}', LastWords='{<<"B","b">>}', MaxWords='1', BadNames=tlaset(('foo',)),
                Embeds='{<<>>,<<"Node">>,<<"Foo">>,<<"Stmt","SQL">>}', BadEmbeds='{}', Outputs=tlaset(('', 'out')), Packages=tlaset(('env',)), Runs='3')
    four = dict(many, MaxWords='1', LastWords='{}', Embeds='{<<>>,<<"Foo">>}', BadEmbeds='{}', Runs='4')
    exe, cmd, *f = c.parallel(c.build, lambda: c.build_command('genmark', 'tools'), lambda: c.tlc('Genmark', {}, GENMARK_INV, workers=2, name='Genmark-one', defs=dict(GENMARK, MaxWords='3' if t else '2')),
                              lambda: c.tlc('Genmark', {}, GENMARK_INV, workers=2, defs=many, name='Genmark-three'),
                              *([lambda: c.tlc('Genmark', {}, GENMARK_INV, workers=2, defs=four, name='Genmark-four')] if t else []))
    c.harness(exe, 'genmark', f, args={'exe': cmd, 'every': 1 if t else 4, 'dir': os.path.join(c.dir, 'genmark-runs'), 'repo': '/repo'})


# ---------------------------------------------------------------------------------------------------------------
# comparing

@check('C25')
def c25(c):
    t = c.thorough
    c.extra['rule'] = ('every history of five (thorough: six) changes of three places in two copies of an AST, at sampled places of the ASTs of derivations, '
                       'and every sampled place for itself')
    exe, h, f = c.parallel(c.build, lambda: c.tlc('Compare', {'Places': 3, 'MaxOps': 6 if t else 5}, ['InvParity', 'InvPairs', 'Emit'], workers=2),
                           rand(c, 'statements', 8000 if t else 1500, fuel=8, workers=4))
    c.harness(exe, 'compare', [h, f], args={'texts': 15000 if t else 1500, 'each': 15 if t else 12})


# ---------------------------------------------------------------------------------------------------------------
# one parser, piece by piece

@check('C26')
def c26(c):
    t = c.thorough
    c.extra['rule'] = ('sampled texts of up to five statements, expressions, types, semicolons and stray tokens, and calls of the entry points of one parser '
                       'on them, in four ways to give the text to the parser')
    replay(c, 'calls', [lambda: c.tlc('Calls', {'Seed': c.seed, 'Cases': 120000 if t else 15000, 'Fuel': 6, 'MaxChunks': 5, 'MaxCalls': 6},
                                      ['InvPartition', 'InvYield', 'InvAlone', 'InvEnd', 'Emit'], workers=8)])
