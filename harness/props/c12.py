"""C12: structured header values survive being written and read back."""
from itertools import cycle

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, numbered, stretched
from harness.fresh import fresh

ID = 'C12'
RULE = (
    'Lists, dicts, sets and option maps of 0-5 entries with token keys '
    'and arbitrary latin-1 values without CR and LF (weighted to quotes, '
    'backslashes, commas, semicolons, equals signs, blanks and the empty '
    'string), dumped and parsed; the hand written equivalent with other '
    'spacing and unnecessary quotes; histories of 1-12 operations on a '
    'HeaderSet against a case insensitive ordered set with notification '
    'counting; and arbitrary strings, on which the parsers must not raise '
    'and must be stable (dumping and parsing again gives the same). '
    'Results are scribbled over and the text is parsed again. many: long '
    'lists, dicts and option headers. Non-trivial: a value that has to be '
    'quoted, or a history that changes and does not change the set.'
)
ASSUMPTIONS = [
    'keys are tokens; an option value does not start with a backslash '
    'when its key is filename; HeaderSet[i] = v only with a v that is not '
    'elsewhere in the set',
]

SPECIAL = '"\\,;= \t\'()/:é\xa0ab1'
TOKEN_CHARS = (
    "!#$%&'*+-.^_`|~0123456789"
    'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
TOKEN = st.one_of(
    st.sampled_from(['a', 'b', 'foo', 'x-y', 'filename', 'charset', 'A',
                     'filename2', 'xfilename', 'Filename', 'file']),
    st.text(alphabet='abcXYZ-_09', min_size=1, max_size=5))
VALUE = st.one_of(
    st.text(alphabet=SPECIAL, max_size=6),
    st.text(alphabet=SPECIAL, max_size=6),
    st.text(alphabet=TOKEN_CHARS, max_size=5),
    st.sampled_from(['None', '0', '\\\\x\\y', '\\\\"', 'a=b', '"a"', "'a'",
                     'a"', '\\', 'Thu, 01 Jan 2015 10:00:00 GMT', '%22',
                     'utf-8\'\'a', '=?utf-8?q?a?=', ';', 'a; b=c', ' a ',
                     '  ', '\t', '"\\"', '*', 'a*', 'W/"x"']),
    st.text(alphabet=st.characters(
        codec='latin-1', exclude_characters='\r\n'), max_size=5),
)


def needs_quotes(v):
    return v is not None and (not v or not set(v) <= set(TOKEN_CHARS))


def quoted(v):
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


def write(v, always):
    return quoted(v) if always or needs_quotes(v) else v


SPACING = st.sampled_from(['', ' ', '  ', '\t'])


def check_list(case, t):
    from verktyg.http import (
        dump_header, parse_list_header, parse_set_header,
        quote_header_value, unquote_header_value, HeaderSet,
    )
    values, always, left, right = case
    t.nontrivial(any(needs_quotes(v) for v in values) and len(values) > 1)
    t.eq(parse_list_header(dump_header(values)), values, 'dumped list')
    t.eq(parse_list_header(dump_header(values, allow_token=False)), values,
         'dumped quoted list')
    t.eq(parse_list_header(dump_header(tuple(values))), values, 'tuple')
    text = (left + ',' + right).join(
        write(v, f) for v, f in zip(values, cycle(always)))
    t.eq(fresh(parse_list_header, text), values, 'list %r' % text)
    for v in values:
        q = quote_header_value(v)
        t.eq(unquote_header_value(q), v, 'quoted %r' % q)
        t.eq(unquote_header_value(quote_header_value(
            v, allow_token=False)), v, 'quoted')
        t.eq(quote_header_value(v.encode('latin-1')), q, 'bytes')
        if not needs_quotes(v):
            t.eq(q, v, 'token')
        else:
            t.eq((q[0], q[-1]), ('"', '"'), 'quotes of %r' % q)
    unique = []
    for v in values:
        if v.lower() not in [u.lower() for u in unique]:
            unique.append(v)
    t.eq(list(fresh(parse_set_header, text)), unique, 'set')
    hs = HeaderSet(values)
    t.eq(list(hs), unique, 'HeaderSet')
    t.eq(list(parse_set_header(hs.to_header())), unique, 'HeaderSet header')
    t.eq(str(hs), hs.to_header(), 'str')
    t.eq(list(parse_set_header(dump_header(hs))), unique, 'dumped HeaderSet')


def check_dict(case, t):
    from verktyg.http import dump_header, parse_dict_header
    from verktyg.datastructures import OrderedMultiDict
    pairs, always, left, right = case
    want = dict(pairs)
    t.nontrivial(any(needs_quotes(v) for v in want.values()) and
                 len(want) > 1)
    for allow in True, False:
        text = dump_header(want, allow_token=allow)
        got = parse_dict_header(text)
        t.ok(type(got) is dict, 'a %r', type(got))
        t.eq(got, want, 'dict %r' % text)
        t.eq(parse_dict_header(text.encode('latin-1')), want, 'bytes')
    text = (left + ',' + right).join(
        k if v is None else '%s=%s' % (k, write(v, f))
        for (k, v), f in zip(want.items(), cycle(always)))
    t.eq(fresh(parse_dict_header, text), want, 'dict %r' % text)
    got = fresh(parse_dict_header, text, cls=OrderedMultiDict)
    t.ok(type(got) is OrderedMultiDict, 'cls ignored')
    t.eq(list(got.items(multi=True)), list(want.items()), 'order')


def check_options(case, t):
    from verktyg.http import (
        dump_options_header, parse_options_header, unquote_header_value)
    name, pairs, always, left, right = case
    want = {k: v for k, v in pairs if not (
        k == 'filename' and v is not None and v.startswith('\\'))}
    t.nontrivial(any(needs_quotes(v) for v in want.values()))
    text = dump_options_header(name, want)
    t.eq(parse_options_header(text), (name, want), 'dumped %r' % text)
    # parameters without a value can not be told from ones with the value
    # of the next, so give them last
    text = name + ''.join(
        '%s;%s%s' % (left, right, k if v is None else '%s=%s' % (
            k, write(v, f)))
        for (k, v), f in zip(want.items(), cycle(always)))
    t.eq(fresh(parse_options_header, text), (name, want),
         'written %r' % text)
    # blanks around the equals sign, values without quotes up to the semicolon
    text = name + ''.join(
        '; %s%s=%s%s' % (k, left, right, v if v and not set(v) & set(
            ';"\t') and v == v.strip() else quoted(v or ''))
        for k, v in want.items())
    t.eq(parse_options_header(text), (
        name, {k: v or '' for k, v in want.items()}), 'written %r' % text)
    # browsers send the path of a shared folder without escaping it
    path = '\\\\' + ''.join(
        c for v in want.values() if v for c in v if c.isalnum() or c == '\\')
    t.eq(parse_options_header('%s; filename="%s"; size=3' % (name, path)),
         (name, {'filename': path, 'size': '3'}), 'path %r' % path)
    t.eq(unquote_header_value('"%s"' % path, is_filename=True), path, 'path')
    t.eq(unquote_header_value('"%s"' % path),
         path.replace('\\\\', '\\'), 'not a path')


ODD = st.one_of(
    st.text(alphabet='"\\,;= \tab/=*\'', max_size=14),
    st.text(alphabet='";,=\\a', max_size=10),
    st.text(alphabet=st.characters(codec='latin-1'), max_size=10),
    st.lists(st.sampled_from(
        ['a', '"b', 'c"', '"', '\\', '=', ';', ',', ' ', 'filename=',
         '"x\\"', 'q=0.5', "*=utf-8''", '\\\\']), max_size=8).map(''.join))


def check_total(text, t):
    from verktyg.http import (
        parse_options_header, parse_list_header, parse_dict_header,
        parse_set_header, dump_header, HeaderSet,
    )
    name, options = fresh(parse_options_header, text)
    t.ok(isinstance(name, str) and isinstance(options, dict),
         'options %r', (name, options))
    for k, v in options.items():
        t.ok(isinstance(k, str) and (v is None or isinstance(v, str)),
             'options %r', options)
    values = fresh(parse_list_header, text)
    t.ok(isinstance(values, list) and all(
        isinstance(v, str) for v in values), 'list %r', values)
    t.eq(parse_list_header(dump_header(values)), values, 'stable list')
    d = fresh(parse_dict_header, text)
    t.ok(all(isinstance(k, str) and (v is None or isinstance(v, str))
             for k, v in d.items()), 'dict %r', d)
    fresh(parse_set_header, None)
    fresh(parse_options_header, None)
    fresh(parse_dict_header, '')
    fresh(parse_list_header, '')
    hs = fresh(parse_set_header, text)
    t.ok(isinstance(hs, HeaderSet), 'set %r', hs)
    t.eq(list(parse_set_header(hs.to_header())), list(hs), 'stable set')
    t.eq(len({x.lower() for x in hs}), len(list(hs)), 'duplicates')
    t.nontrivial('"' in text and any(c in text for c in ',;='))


# -- HeaderSet histories

ITEMS = ['foo', 'Foo', 'FOO', 'bar', 'Bar', 'a b', 'A B', '"', '']
ITEM = st.sampled_from(ITEMS)
OPS = st.one_of(
    st.tuples(st.sampled_from(['add', 'add', 'remove', 'discard']), ITEM),
    st.tuples(st.just('update'), st.lists(ITEM, max_size=3)),
    st.tuples(st.just('clear')),
    st.tuples(st.just('del'), st.integers(-2, 3)),
    st.tuples(st.just('set'), st.integers(-2, 3), ITEM),
)


def check_set(case, t):
    from verktyg.http import HeaderSet, parse_set_header
    initial, parsed, ops = case
    events = []

    def on_update(hs):
        events.append((hs, list(hs)))

    m = []

    def add(x):
        if x.lower() not in [y.lower() for y in m]:
            m.append(x)
    for x in initial:
        add(x)
    if parsed:
        hs = parse_set_header(HeaderSet(initial).to_header(), on_update)
    else:
        hs = HeaderSet(initial, on_update)
    t.eq(events, [], 'notified of construction')
    changed = same = False
    for step, op in enumerate([None] + ops):
        what = 'step %d %r' % (step, op)
        before = list(m)
        del events[:]
        raised = False
        if op is None:
            pass
        elif op[0] == 'add':
            hs.add(op[1])
            add(op[1])
        elif op[0] in ('remove', 'discard'):
            gone = [x for x in m if x.lower() == op[1].lower()]
            if gone:
                getattr(hs, op[0])(op[1])
                m.remove(gone[0])
            elif op[0] == 'remove':
                raised = True
                t.raises(KeyError, hs.remove, op[1])
            else:
                hs.discard(op[1])
        elif op[0] == 'update':
            hs.update(op[1])
            for x in op[1]:
                add(x)
        elif op[0] == 'clear':
            hs.clear()
            del m[:]
        elif not -len(m) <= op[1] < len(m):
            raised = True
            if op[0] == 'del':
                t.raises(IndexError, hs.__delitem__, op[1])
            else:
                t.raises(IndexError, hs.__setitem__, op[1], op[2])
        elif op[0] == 'del':
            del hs[op[1]]
            del m[op[1]]
        else:
            i = op[1] % len(m)
            if any(x.lower() == op[2].lower()
                   for j, x in enumerate(m) if j != i):
                continue
            hs[op[1]] = op[2]
            m[i] = op[2]
        t.eq(list(hs), m, what)
        t.eq(len(hs), len(m), what + ': len')
        t.eq(bool(hs), bool(m), what + ': bool')
        t.eq(hs.as_set(), {x.lower() for x in m}, what + ': as_set')
        t.eq(hs.as_set(preserve_casing=True), set(m), what + ': as_set')
        hs.as_set().add('scribble')
        t.eq([hs[i] for i in range(len(m))], m, what + ': index')
        low = [x.lower() for x in m]
        for x in ITEMS + ['nope']:
            there = x.lower() in low
            t.eq(x in hs, there, what + ': %r in' % x)
            t.eq(hs.find(x), low.index(x.lower()) if there else -1,
                 what + ': find')
            if there:
                t.eq(hs.index(x), low.index(x.lower()), what + ': index')
            else:
                t.raises(IndexError, hs.index, x)
        t.eq(list(parse_set_header(hs.to_header())), m, what + ': header')
        for who, contents in events:
            t.ok(who is hs, '%s: notified with %r', what, who)
            t.eq(contents, m, what + ': notified early')
        if m != before:
            t.eq(len(events), 1, what + ': notifications')
            changed = True
        elif op is not None and (raised or op[0] in (
                'add', 'update', 'remove', 'discard')):
            t.eq(len(events), 0, what + ': notifications')
            same = True
    t.nontrivial(changed and same)


BOOLS = st.lists(st.booleans(), min_size=6, max_size=6)
PAIRS = st.lists(st.tuples(TOKEN, st.one_of(VALUE, VALUE, VALUE, st.none())),
                 max_size=5, unique_by=lambda p: p[0])

MANYBOOLS = BOOLS.map(lambda l: l * 20)
MANY = st.one_of(
    numbered(st.tuples(st.sampled_from(['a', 'b']), st.one_of(
        VALUE, VALUE, st.none()))),
    st.lists(st.tuples(TOKEN, stretched(VALUE)), max_size=3,
             unique_by=lambda p: p[0]))

SUBS = [
    Sub('list', st.tuples(st.lists(VALUE, max_size=5), BOOLS, SPACING,
                          SPACING), check_list, quick=7500),
    Sub('dict', st.tuples(PAIRS, BOOLS, SPACING, SPACING), check_dict,
        quick=7500),
    Sub('options', st.tuples(
        st.sampled_from(['text/html', 'attachment', 'form-data',
                         'application/x-y+z']),
        PAIRS, BOOLS, SPACING, SPACING), check_options, quick=9000),
    Sub('many', st.one_of(
        st.tuples(many(VALUE), MANYBOOLS, SPACING, SPACING),
        st.tuples(st.lists(stretched(VALUE), max_size=3), MANYBOOLS, SPACING,
                  SPACING)), check_list, quick=200),
    Sub('many keys', st.tuples(
        MANY, MANYBOOLS, SPACING, SPACING), check_dict, quick=200),
    Sub('many options', st.tuples(
        st.just('text/html'), MANY, MANYBOOLS, SPACING, SPACING), check_options,
        quick=200),
    Sub('total', ODD, check_total, quick=9000),
    Sub('set', st.tuples(st.lists(ITEM, max_size=4), st.booleans(),
                         st.lists(OPS, min_size=1, max_size=12)),
        check_set, quick=7500),
]
