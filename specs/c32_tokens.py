"""C32: what a file transfer token says about files."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

T = 'golem_messages.message.concents.FileTransferToken.'
TOKEN = concents.FileTransferToken
INFO = TOKEN.FileInfo
CATEGORIES = {c.value: c for c in INFO.Category}
KEYS = ('path', 'checksum', 'size', 'category')


@lemma('C32', targets=[T + 'is_upload', T + 'is_download'])
def operation():
    """An upload or a download, never both"""
    v = choice('operation', (None, 'upload', 'download'))
    op = v and TOKEN.Operation(v)
    t = TOKEN(operation=op)
    r = TOKEN(slots=[['operation', v]])
    for m in (t, r):
        ensure(m.is_upload is (v == 'upload'), 'upload')
        ensure(m.is_download is (v == 'download'), 'download')
    ensure(TOKEN.Operation.upload.value == 'upload'
           and TOKEN.Operation.download.value == 'download', 'wire form')
    ensure(sorted(CATEGORIES) == ['resources', 'results'], 'categories')


def some_file(tag):
    """A file of any of the categories"""
    return file_info(tag, choice(tag + ' is result', (False, True)))


@lemma('C32', targets=[T + 'get_file_info'],
       bounded='tokens for at most four files')
def first_of_its_category():
    """The first file of the category, if there is one"""
    files = [some_file('file%d' % i)
             for i in range(choice('files', (0, 1, 2, 3, 4)))]
    t = TOKEN(files=files)
    for c in INFO.Category:
        want = [f for f in files if f['category'] is c]
        got = t.get_file_info(c)
        if want:
            ensure(got is want[0], 'the first')
        else:
            ensure(got is None, 'none')
    ensure(t.files is files, 'not changed')


@lemma('C32', targets=[T + 'get_file_info'])
def wherever_it_is():
    """Whatever the number of files of another category before it"""
    before = any_list('before', lambda tag: file_info(tag, False))
    f = file_info('file', True)
    assume(length(before) < 10)
    t = TOKEN(files=before)
    ensure(t.get_file_info(INFO.Category.results) is None, 'none')
    if length(before) > 0:
        cover('some')
        ensure(t.get_file_info(INFO.Category.resources) is before[0],
               'the first')
    t = TOKEN(files=[f, before[0] if length(before) > 0 else f])
    ensure(t.get_file_info(INFO.Category.results) is f, 'found')


@lemma('C32', targets=[T + 'deserialize_slot', T + 'FileInfo'])
def received():
    """The files of a received token"""
    d = {'path': any_str('path'), 'checksum': any_str('checksum'),
         'size': any_int('size'),
         'category': any_val(
             'category', kinds='none bool int float str bytes list'.split())}
    v = d['category']
    out = attempt(lambda: TOKEN(slots=[['files', [dict(d)]]]))
    good = and_(kind(v, 'str'), or_(*[as_str(v) == c for c in CATEGORIES]))
    ensure(iff(out.ok, good), 'accepted iff of a known category')
    if out.ok:
        cover('accepted')
        f = out.value.files[0]
        ensure(type(f) is INFO, 'file')
        for k in KEYS[:3]:
            ensure(same(f[k], d[k]), k)
        ensure(f['category'] is CATEGORIES[
            'results' if as_str(v) == 'results' else 'resources'],
            'category')
        ensure(len(f) == 4, 'nothing else')
    else:
        cover('refused')
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == 'category', 'about the category')
        ensure(same(out.exc.value, v), 'which was given')


@lemma('C32', targets=[T + 'deserialize_slot'], bounded='two files')
def several():
    """... in their order"""
    a, b = some_file('a'), some_file('b')
    wire = [dict(a), dict(b)]
    for w in wire:
        w['category'] = w['category'].value
    t = TOKEN(slots=[['files', wire]])
    ensure(len(t.files) == 2, 'all')
    for f, g in zip(t.files, (a, b)):
        for k in KEYS[:3]:
            ensure(same(f[k], g[k]), k)
        ensure(f['category'] is g['category'], 'category')


@lemma('C32', params=KEYS, targets=[T + 'FileInfo'])
def file_defaults(k):
    """What is not told about a file"""
    d = {'path': any_str('path'), 'checksum': any_str('checksum'),
         'size': any_int('size'), 'category': INFO.Category.resources}
    del d[k]
    f = INFO(d)
    ensure(same(f[k], '') if k in ('path', 'checksum') else
           same(f[k], 0) if k == 'size' else
           f[k] is INFO.Category.results, 'default')
    for x in d:
        ensure(f[x] is d[x] or same(f[x], d[x]), x)
    g = INFO()
    ensure(g == {'path': '', 'checksum': '', 'size': 0,
                 'category': INFO.Category.results}, 'nothing told')


@lemma('C32', targets=[T + 'FileInfo', T + 'FileInfo.validate_category'])
def file_values():
    """A file has these four and a category of its own kind"""
    key = any_str('key')
    v = any_val('value', kinds='none bool int float str bytes list'.split())
    f = INFO()

    def put():
        f[key] = v
    out = attempt(put)
    known = or_(*[key == k for k in KEYS])
    ensure(iff(out.ok, and_(known, key != 'category')), 'accepted iff good')
    if out.ok:
        cover('accepted')
        ensure(same(f[key], v), 'stored')
    else:
        cover('refused')
        ensure(out.raised(exceptions.FieldError, KeyError), 'reported')
        ensure(out.raised(exceptions.FieldError) == (key == 'category'),
               'a field error for a category')
        ensure(f == INFO(), 'nothing is changed')
