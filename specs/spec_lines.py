"""Line ends of files (transitfeed/util.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util, problems, errors

classdecl('EndOfLineChecker', 'transitfeed.util.EndOfLineChecker', fields={
    '_name': 'Str',
    '_crlf': 'Int',
    '_crlf_examples': 'List[Int]',
    '_lf': 'Int',
    '_lf_examples': 'List[Int]',
    '_line_number': 'Int',
    '_problems': 'Reporter',
}, pools={'_crlf': [0, 0, 1, 2, 5, 6], '_lf': [0, 0, 1, 2, 5, 6]})


@contract('transitfeed.util.EndOfLineChecker._FinalCheck', prop='C25',
          args='self: EndOfLineChecker',
          requires=['self._crlf >= 0', 'self._lf >= 0'],
          ensures=['self._crlf == 0 or self._lf == 0'])
def final_check(self):
    """Both kinds of line ends: said once, and only once."""
    if self._crlf == 0 or self._lf == 0:
        return
    self._problems.OtherProblem('')
    self._crlf = 0
    self._lf = 0


SEPARATORS = [
    ('\x0c', 'ASCII Form Feed 0x0C'),
    ('\x0d', 'ASCII Carriage Return 0x0D, \\r'),
    ('\xe2\x80\xa8', 'Unicode LINE SEPARATOR U+2028'),
    ('\xe2\x80\xa9', 'Unicode PARAGRAPH SEPARATOR U+2029'),
    ('\xc2\x85', 'Unicode NEXT LINE SEPARATOR U+0085'),
]


def expected_report(lines, name):
    """(contents, reports) of a file given as (content, line end) pairs."""
    out, reports = [], []
    where = {'\r\n': [], '\n': []}
    for number, (content, end) in enumerate(lines, 1):
        # carriage returns before the line end belong to it
        inner = content.rstrip('\r')
        end = content[len(inner):] + end
        out.append(inner)
        if end in where:
            where[end].append(number)
        elif end:
            reports.append(('InvalidLineEnd', end.replace('\r', '\\r')
                            .replace('\n', '\\n'), name, number))
        for seq, text in SEPARATORS:
            if seq in inner:
                reports.append(('OtherProblem', 'Line contains %s' % text,
                                name, number))
    return out, reports, where


def listed(numbers):
    return ', '.join([str(n) for n in numbers[:5]] +
                     (['...'] if len(numbers) > 5 else []))


@scenario(prop='C25', cases=3000)
def line_ends(rng):
    """Random files of up to twenty lines with all kinds of line ends."""
    import StringIO
    pieces = ['a', 'b,c', '', '"x"', '\r', '\x0c', '\xe2\x80\xa8',
              '\xe2\x80\xa9', '\xc2\x85', ' ', '\xe2\x80', '\x85']
    style = rng.choice([['\n'], ['\r\n'], ['\n', '\r\n'],
                        ['\n', '\r\n', '\r\r\n']])
    odd = rng.random() < 0.4
    lines = []
    for i in range(rng.choice([0, 1, 2, 3, 8, 20])):
        content = ''.join(rng.choice(pieces if odd else pieces[:4])
                          for k in range(rng.randint(0, 4)))
        end = rng.choice(style)
        lines.append((content + end[:-1], '\n'))
    if lines and rng.random() < 0.4:
        content = lines[-1][0].rstrip('\r')
        if content:
            lines[-1] = (content, '')
        else:
            lines.pop()
    text = ''.join(c + e for c, e in lines)
    got = []

    class Keep(object):
        def _Report(self, e):
            got.append(e)
    rep = problems.ProblemReporter(Keep())
    rep.SetFileContext('other.txt', 3, ['x'], ['y'])
    checker = util.EndOfLineChecker(StringIO.StringIO(text), 'f.txt', rep)
    contents = list(checker)
    expected, reports, where = expected_report(lines, 'f.txt')
    assert contents == expected, (text, contents, expected)
    for again in (1, 2):
        try:
            checker.next()
            assert False, 'a line after the last'
        except StopIteration:
            pass
    if where['\r\n'] and where['\n']:
        a, b = where['\r\n'], where['\n']
        pa, pb = ['s' if len(x) > 1 else '' for x in (a, b)]
        reports.append((
            'OtherProblem',
            'Found %d CR LF "\\r\\n" line end%s (line%s %s) and %d LF "\\n" '
            'line end%s (line%s %s). A file must use a consistent line end.'
            % (len(a), pa, pa, listed(a), len(b), pb, pb, listed(b)),
            'f.txt', None))
    have = []
    for e in got:
        assert not hasattr(e, 'row') and not hasattr(e, 'headers')
        have.append((type(e).__name__,
                     getattr(e, 'description', None) or e.bad_line_end,
                     e.file_name, getattr(e, 'row_num', None)))
    assert sorted(have) == sorted(reports), (text, have, reports)
