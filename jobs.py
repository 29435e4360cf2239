"""What each check explores. FN:LO-HI runs the entry point FN with every parameter LO..HI:
_full: all ASCII documents of that length; _tmpl/_own: template number; _toks: number of tokens; _scale: long document number."""
import os, re
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/src/checks.rs')).read()


def _len(name):
    b = _src[_src.index('pub const %s:' % name if name == 'DOCS' else 'const %s:' % name):]
    b = b[b.index('= &['):b.index('\n];') if '\n];' in b and b.index('\n];') < b.index(';\n') + 1 else b.index(';\n')]
    b = '\n'.join(l for l in b.split('\n') if not l.strip().startswith('//'))
    return len(re.findall(r'"(?:[^"\\]|\\.)*"', b))


def _list_of(p):
    m = re.search(r'over_docs!\(%s, .*?, (P\d\d_OWN), ' % p, _src)
    return m.group(1)


SCALES = 57
# property: (full quick, full thorough, tokens quick, tokens thorough)
_DOC = {
    'P01': (7, 9, 4, 5), 'P02': (6, 7, 4, 5), 'P03': (8, 9, 4, 5), 'P04': (6, 8, 4, 5), 'P05': (7, 8, 4, 5), 'P06': (7, 9, 4, 5),
    'P07': (8, 10, 4, 5), 'P08': (7, 8, 4, 5), 'P09': (7, 9, 4, 5), 'P10': (7, 8, 4, 5), 'P11': (7, 8, 4, 5), 'P12': (7, 9, 4, 5),
    'P13': (6, 8, 4, 5), 'P14': (7, 9, 4, 5), 'P15': (7, 9, 4, 5), 'P16': (7, 8, 4, 5), 'P17': (6, 7, 4, 5), 'P18': (6, 7, 4, 5),
    'P19': (6, 7, 4, 5), 'P20': (6, 8, 4, 5), 'P21': (7, 8, 4, 5), 'P22': (6, 7, 4, 5),
}
JOBS, BOUNDS = {}, {}
for _p, (_fq, _ft, _tq, _tt) in _DOC.items():
    _l = _p.lower()
    _own = _len(_list_of(_l)) - 1
    _docs = _len('DOCS') - 1

    def _mk(f, t):
        return ['h_%s_own:0-%d' % (_l, _own), 'h_%s_tmpl:0-%d' % (_l, _docs), 'h_%s_full:0-%d' % (_l, f), 'h_%s_toks:1-%d' % (_l, t),
                'h_%s_scale:0-%d' % (_l, SCALES - 1), 'h_%s_mix:1-3' % _l]
    JOBS[_p] = {'quick': _mk(_fq, _tq), 'thorough': _mk(_ft, _tt)}
    BOUNDS[_p] = ('all ASCII documents up to the length in h_%s_full; the templates in harness/src/checks.rs (DOCS and the list of the property) '
                  'with every value of their holes (ASCII, or all of Unicode where marked @); all sequences of tokens up to the number in '
                  'h_%s_toks; long documents with symbolic holes in h_%s_scale' % (_l, _l, _l))
JOBS['P08']['quick'] += ['h_p08_mono:0-6', 'h_p08_monot:0-%d' % (_len('DOCS') - 1)]
JOBS['P08']['thorough'] += ['h_p08_mono:0-7', 'h_p08_monot:0-%d' % (_len('DOCS') - 1)]
for _p in ('P01', 'P03', 'P06', 'P21'):
    for _t in ('quick', 'thorough'):
        JOBS[_p][_t] += ['h_%s_scale:100-102' % _p.lower()]
JOBS['P23'] = {'quick': ['h_p23_class:0-9', 'h_p23_parse:1-9', 'h_p23_class:50-54', 'h_p23_parse:51-54'],
               'thorough': ['h_p23_class:0-12', 'h_p23_parse:1-12', 'h_p23_class:50-55', 'h_p23_parse:51-55']}
BOUNDS['P23'] = 'every name of characters up to U+07FF up to the length in the jobs (50 + n: n characters of all of Unicode), every node type'
JOBS['P24'] = {'quick': ['h_p24_chars:0-0'], 'thorough': ['h_p24_chars:0-0']}
BOUNDS['P24'] = 'every Unicode scalar value (no bound)'
JOBS['P25'] = {'quick': ['h_p25_text:0-4'], 'thorough': ['h_p25_text:0-5']}
BOUNDS['P25'] = 'every content of that many Unicode characters, every 32-bit position'
JOBS['P26'] = {'quick': ['h_p26_build:0-4', 'h_p26_many:0-8'], 'thorough': ['h_p26_build:0-5', 'h_p26_many:0-8']}
BOUNDS['P26'] = 'every key and value of that many Unicode characters together, every combination of the fields'
_p27 = _len('P27_OWN') - 1
JOBS['P27'] = {'quick': ['h_p27_bytes:0-4', 'h_p27_docs:0-%d' % _p27, 'h_p27_faults:0-%d' % _p27, 'h_p27_relative:0-%d' % _p27, 'h_p27_names:0-8', 'h_p27_blocks:0-31', 'h_p27_scale:0-%d' % (SCALES - 1)],
               'thorough': ['h_p27_bytes:0-6', 'h_p27_docs:0-%d' % _p27, 'h_p27_faults:0-%d' % _p27, 'h_p27_relative:0-%d' % _p27, 'h_p27_names:0-8', 'h_p27_blocks:0-31', 'h_p27_scale:0-%d' % (SCALES - 1)]}
BOUNDS['P27'] = ('files of every content up to the number of bytes in h_p27_bytes; the templates P27_OWN with every value of their holes, every '
                 'schedule of the first two reads (one byte, two bytes, interrupted, failing); absolute and relative names; the C library calls are modelled')
_p28 = _len('P28_OWN')
JOBS['P28'] = {'quick': ['h_p28_pairs:0-%d' % (_p28 * _p28 - 1), 'h_p28_opts:0-%d' % (_len('P28_RICH') - 1), 'h_p28_many:0-%d' % (_p28 * 4 - 1), 'h_p28_again:0-%d' % (_len('P28_AGAIN') * 2 - 1), 'h_p28_full:0-4', 'h_p28_names:9-14', 'h_p28_names:17-22', 'h_p28_names:25-30', 'h_p28_names:33-38', 'h_p28_names:41-46', 'h_p28_tmpl:0-%d' % (_len('DOCS') - 1)],
               'thorough': ['h_p28_pairs:0-%d' % (_p28 * _p28 - 1), 'h_p28_opts:0-%d' % (_len('P28_RICH') - 1), 'h_p28_many:0-%d' % (_p28 * 4 - 1), 'h_p28_again:0-%d' % (_len('P28_AGAIN') * 2 - 1), 'h_p28_full:0-6', 'h_p28_names:9-63', 'h_p28_tmpl:0-%d' % (_len('DOCS') - 1)]}
BOUNDS['P28'] = 'histories of three parses of two documents: all pairs of the templates P28_OWN, P28_RICH with every render option, all ASCII documents of the length in h_p28_full after any two characters, and DOCS'
_p29 = _len('P29_OWN')
JOBS['P29'] = {'quick': ['h_p29_own:0-%d' % (_p29 * 13 - 1), 'h_p29_toks:13-51'], 'thorough': ['h_p29_own:0-%d' % (_p29 * 13 - 1), 'h_p29_toks:13-64']}
BOUNDS['P29'] = 'thirteen kinds of edit applied to every node, with two symbolic ASCII characters, to the templates P29_OWN and to all sequences of 1 to 3 (quick) tokens'
