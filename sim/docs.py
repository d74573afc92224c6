"""Synthetic documents: GROBID training TEI per model, and the JATS XML describing them.

Everything is a pure function of a small JSON spec, so that a replay file holds specs only.  Every
document uses words of its own (its marker words), so content that leaks from one document into
another is visible in the bytes.
"""
import bz2
import gzip
import random
import re
import zlib
from xml.sax.saxutils import escape

TEI = 'http://www.tei-c.org/ns/1.0'

CONS = ['b', 'd', 'f', 'g', 'k', 'l', 'm', 'n', 'p', 'r', 's', 't', 'v', 'z', 'st', 'tr', 'kl']
VOWS = ['a', 'e', 'i', 'o', 'u']

SUFFIX = {
    'header': '.header.tei.xml',
    'segmentation': '.segmentation.tei.xml',
    'fulltext': '.fulltext.tei.xml',
    'reference': '.references.tei.xml',
    'reference_segmenter': '.references.referenceSegmenter.tei.xml',
    'affiliation_address': '.header.affiliation.tei.xml',
    'figure': '.figure.tei.xml',
    'table': '.table.tei.xml',
}
CONTAINER = {
    'header': 'text/front', 'segmentation': 'text', 'fulltext': 'text',
    'reference': '{%s}text/{%s}back/{%s}listBibl' % (TEI, TEI, TEI),
    'reference_segmenter': 'text',
    'affiliation_address': '/'.join('{%s}%s' % (TEI, t) for t in (
        'teiHeader', 'fileDesc', 'sourceDesc', 'biblStruct', 'analytic', 'author')),
    'figure': 'text', 'table': 'text',
}
GATED = ('header', 'segmentation', 'fulltext')


class Words:
    def __init__(self, rng, taken, rot=0):
        self.rng = rng
        self.taken = taken
        # another text of exactly the same length and structure
        self.rot = str.maketrans('aeiou', 'eioua') if rot else None

    def word(self):
        while True:
            w = ''.join(self.rng.choice(CONS) + self.rng.choice(VOWS)
                        for _ in range(self.rng.choice([2, 3, 3, 4])))
            if w not in self.taken:
                self.taken.add(w)
                return w.translate(self.rot) if self.rot else w

    def name(self):
        return self.word().capitalize()

    def phrase(self, a, b):
        words = [self.word() for _ in range(self.rng.randint(a, b))]
        words[0] = words[0].capitalize()
        return ' '.join(words)


class Content:
    """The logical article."""

    def __init__(self, spec):
        rng = random.Random('doc|%s|%s' % (spec['id'], spec.get('v', 0)))
        self.rng = rng
        self.spec = spec
        big = spec.get('size', 1)
        w = self.w = Words(rng, set(), spec.get('rot'))
        self.title = w.phrase(5, 9)
        self.other_title = w.phrase(6, 9)
        self.abstract = [w.phrase(6, 10) for _ in range(rng.randint(1, 2) + big)]
        self.other_abstract = [w.phrase(6, 10) for _ in range(2)]
        self.authors = [(w.name(), w.name()) for _ in range(rng.randint(1, 2))]
        self.affs = [dict(label=str(i + 1), dept='Department of ' + w.name(),
                          inst='University of ' + w.name(), city=w.name(),
                          post=str(rng.randint(1000, 9999)), country=w.name())
                     for i in range(rng.randint(1, 2))]
        self.keywords = [w.word() for _ in range(3)]
        self.doi = '10.%d/%s.%d' % (rng.randint(1000, 9999), w.word(), rng.randint(1, 999))
        self.sections = [
            dict(title=w.phrase(2, 4), paras=[[w.phrase(6, 10) for _ in range(1 + big)]
                                              for _ in range(rng.randint(1, 2))])
            for _ in range(rng.randint(1, 1 + big))]
        self.figures = [dict(label='Figure %d' % (i + 1), caption=w.phrase(5, 8),
                             body=[w.phrase(2, 4)] if rng.random() < .5 else [])
                        for i in range(rng.randint(1, 2))]
        self.tables = [dict(label='Table %d' % (i + 1), caption=w.phrase(5, 8),
                            body=[w.phrase(2, 4)] if rng.random() < .5 else [])
                       for i in range(rng.randint(1, 2))]
        self.ack = w.phrase(6, 9)
        self.ref_title = 'References'
        self.refs = []
        for i in range(rng.randint(1, 2 + big)):
            fp = rng.randint(1, 500)
            self.refs.append(dict(
                id='ref%d' % (i + 1), label=str(i + 1), surname=w.name(),
                given=w.word()[0].upper() + '.', year=str(rng.randint(1950, 2020)),
                title=w.phrase(4, 7), source=w.phrase(2, 3), volume=str(rng.randint(1, 99)),
                issue=str(rng.randint(1, 12)), fpage=str(fp), lpage=str(fp + rng.randint(1, 20)),
                doi='10.%d/%s.%d' % (rng.randint(1000, 9999), w.word(), rng.randint(1, 999)),
                has_doi=rng.random() < .5))
        self.noise = [w.phrase(3, 6) + rng.choice(
            ['', ' \u2013 \u00e9t\u00e9', ' (&c) <x>', '  double', ' \u201cq\u201d', '\u00a0nb', ' 3.5\u00b5m'])
            for _ in range(4)]


def affected(spec, field):
    """Does a gate-missing / gate-mismatch document lack (mismatch) this field?"""
    return not spec.get('which') or spec['which'] == field


def ref_text(r):
    return '%s %s, %s (%s) %s. %s %s (%s): %s-%s%s' % (
        r['label'] + '.', r['surname'], r['given'], r['year'], r['title'], r['source'],
        r['volume'], r['issue'], r['fpage'], r['lpage'],
        ' doi:' + r['doi'] if r['has_doi'] else '')


def aff_text(a):
    return '%s %s, %s, %s, %s, %s' % (
        a['label'], a['dept'], a['inst'], a['city'], a['post'], a['country'])


def typo(text):
    k = len(text) // 2
    while text[k] == ' ':
        k += 1
    return text[:k] + ('x' if text[k] != 'x' else 'y') + text[k + 1:]


def E(text):
    return escape(text)


def jats(spec):
    """The target XML; kind decides whether it matches the TEI."""
    c = Content(spec)
    kind = spec['kind']
    title, abstract = c.title, c.abstract
    missing = set()
    if kind == 'gate-mismatch':
        # partial: the document holds only a small part of the value
        if affected(spec, 'title'):
            title = c.other_title
            if spec.get('partial'):
                title = ' '.join([c.title, title] + c.other_abstract)
        if affected(spec, 'abstract'):
            abstract = c.other_abstract
            if spec.get('partial'):
                abstract = c.abstract[:1] + c.other_abstract + [c.w.phrase(30, 40)]
    if spec.get('typo') and kind == 'good':
        title, abstract = typo(title), [typo(abstract[0])] + abstract[1:]
    if kind == 'gate-missing':
        missing = {f for f in ('title', 'abstract', 'reflist') if affected(spec, f)}
        if spec.get('bare') == 'bare' and not spec.get('which'):
            # nothing in it that any field is mapped to
            return b'<article><front/></article>'
    empty = spec.get('bare') in EMPTY and EMPTY[spec['bare']]
    parts = ['<?xml version="1.0" encoding="utf-8"?>\n<article><front><article-meta>']
    parts.append('<article-id pub-id-type="doi">%s</article-id>' % E(c.doi))
    multi = kind == 'gate-mismatch' and spec.get('multi')
    if multi:
        # several values, of which the document holds only one
        other, title, abstract = (title, abstract), c.title, c.abstract
        both = [title, other[0]] if multi == 1 else [other[0], title]
    if multi and affected(spec, 'title'):
        parts.append(''.join('<title-group><article-title>%s</article-title></title-group>' % E(x) for x in both))
    elif 'title' not in missing:
        parts.append('<title-group><article-title>%s</article-title></title-group>' % E(title))
    elif empty:
        parts.append('<title-group><article-title>%s</article-title></title-group>' % empty)
    parts.append('<contrib-group>')
    for s, g in c.authors:
        parts.append('<contrib contrib-type="author"><name><surname>%s</surname>'
                     '<given-names>%s</given-names></name></contrib>' % (s, g))
    for a in c.affs:
        parts.append(
            '<aff><label>%(label)s</label> <addr-line><named-content content-type="department">'
            '%(dept)s</named-content></addr-line>, <institution>%(inst)s</institution>, '
            '<addr-line><named-content content-type="city">%(city)s</named-content></addr-line>, '
            '<addr-line><named-content content-type="postcode">%(post)s</named-content>'
            '</addr-line>, <country>%(country)s</country></aff>' % a)
    parts.append('</contrib-group>')
    if multi and affected(spec, 'abstract'):
        both = [abstract, other[1]] if multi == 1 else [other[1], abstract]
        parts.append(''.join('<abstract><p>%s</p></abstract>' % E(' '.join(x)) for x in both))
    elif 'abstract' not in missing:
        parts.append('<abstract><p>%s</p></abstract>' % E(' '.join(abstract)))
    elif empty:
        parts.append('<abstract>%s</abstract>' % empty)
    parts.append('<kwd-group><title>Keywords</title>%s</kwd-group>' % ''.join(
        '<kwd>%s</kwd>' % k for k in c.keywords))
    parts.append('</article-meta></front>\n<body>')
    for i, s in enumerate(c.sections):
        stitle = s['title']
        parts.append('<sec><title>%s</title>' % E(stitle))
        for p in s['paras']:
            parts.append('<p>%s</p>' % E(' '.join(p)))
        if i == 0:
            for f in c.figures:
                parts.append('<fig><label>%s</label><caption><p>%s</p></caption></fig>' % (
                    f['label'], E(f['caption'])))
            for f in c.tables:
                parts.append('<table-wrap><label>%s</label><caption><p>%s</p></caption>'
                             '</table-wrap>' % (f['label'], E(f['caption'])))
        parts.append('</sec>')
    parts.append('</body>\n<back><ack><title>Acknowledgements</title><p>%s</p></ack><ref-list>'
                 % E(c.ack))
    if 'reflist' not in missing:
        parts.append('<title>%s</title>' % (
            c.other_title if kind == 'gate-mismatch' and affected(spec, 'reflist')
            else c.ref_title))
    for r in c.refs:
        parts.append(
            '<ref id="%(id)s"><label>%(label)s.</label> <mixed-citation><string-name><surname>'
            '%(surname)s</surname>, <given-names>%(given)s</given-names></string-name> '
            '(<year>%(year)s</year>) <article-title>%(title)s</article-title>. '
            '<source>%(source)s</source> <volume>%(volume)s</volume> (<issue>%(issue)s</issue>): '
            '<fpage>%(fpage)s</fpage>-<lpage>%(lpage)s</lpage>' % r
            + (' doi:<pub-id pub-id-type="doi">%s</pub-id>' % r['doi'] if r['has_doi'] else '')
            + '</mixed-citation></ref>')
    parts.append('</ref-list></back>%s</article>\n' % (
        '<response><p>%s</p></response>' % padding(spec) if spec.get('pad') else ''))
    data = ''.join(parts)
    if kind == 'badxml':
        data = HOW.get(spec.get('how'), data.replace('</body>', '</bodyx>'))
    return data.encode('utf-8')


# ways in which a field can be present without a value
EMPTY = {'empty': '', 'blank': ' \n ', 'nested': '<bold/>'}
# ways in which a file cannot be parsed at all
HOW = {'empty': '', 'blank': '\n', 'garbage': 'no mark-up here \u00e9\n', 'cut': '<article><front>'}


class Tei:
    """Builds lines of text with <lb/>, optional existing mark-up and odd spacing."""

    def __init__(self, c):
        self.c = c
        self.rng = c.rng
        self.out = []
        self.ns = False

    def raw(self, s):
        self.out.append(s)

    def lb(self):
        r = self.rng.random()
        self.out.append('<lb/>' if r < .5 else (' <lb/>' if r < .7 else (
            '<lb/>\n' if r < .9 else '<lb/> ')))

    def line(self, text, tag=None):
        r = self.rng
        text = E(text)
        if tag and r.random() < .5:
            name = tag.split(' ')[0]
            self.out.append('<%s>%s' % (tag, text))
            if r.random() < .5:
                self.lb()
                self.out.append('</%s>' % name)
            else:
                self.out.append('</%s>' % name)
                self.lb()
            return
        self.out.append(text)
        self.lb()

    def wrapped(self, text, tag=None):
        """One value over one or two lines."""
        words = text.split(' ')
        if len(words) > 4 and self.rng.random() < .5:
            k = self.rng.randint(2, len(words) - 2)
            self.line(' '.join(words[:k]), tag)
            self.line(' '.join(words[k:]), tag)
        else:
            self.line(text, tag)

    def noise(self, i):
        if self.rng.random() < .6:
            self.line(self.c.noise[i], 'note type="other"' if self.rng.random() < .3 else None)


WILD_TAGS = {
    'header': ['docTitle', 'byline', 'note type="other"', 'reference', 'affiliation', 'x'],
    'segmentation': ['front', 'body', 'listBibl', 'page', 'note place="headnote"', 'x'],
    'fulltext': ['head', 'p', 'figure', 'note type="other"', 'ref type="biblio"', 'x'],
    'reference': ['bibl', 'author', 'title level="a"', 'date', 'x'],
    'reference_segmenter': ['listBibl', 'bibl', 'label', 'x'],
    'affiliation_address': ['affiliation', 'marker', 'address', 'settlement', 'x'],
    'figure': ['figure', 'head', 'figDesc', 'label', 'x'],
    'table': ['figure type="table"', 'head', 'figDesc', 'label', 'x'],
}


def wild(c, rng, model):
    """Arbitrary mixed content: nested elements, odd white space, empty elements, many breaks."""
    lines = [c.title] + ['%s %s' % a for a in c.authors] + [aff_text(a) for a in c.affs] \
        + c.abstract + [s['title'] for s in c.sections] + [ref_text(r) for r in c.refs] \
        + ['%s %s' % (f['label'], f['caption']) for f in c.figures + c.tables] + c.noise \
        + ['Abstract', 'Keywords: ' + ', '.join(c.keywords), 'References']
    spaces = ['', '', '', ' ', '  ', '\n', '\n\t ', ' \n', '\u00a0', '\u2003', '\t']
    odd = ['\U0001d49c', 'e\u0301', '\u200b', 'a\u00adb', '\ufb01n', '\u202fx', '\u0391\u03b2',
           '\u4e2d\u6587', '_', '--', '\u2028', 'x\u0308Y', '1.2.3', '$', 'McKlo', 'iPSC', '&', '<', '>',
           '\u0627\u0644', '"', "'", ']]>', '\u1e9e', 'A', 'aB', '\x85']

    def text():
        value = rng.choice(lines)
        words = value.split(' ')
        r = rng.random()
        if r < .4 and len(words) > 2:
            k = rng.randint(1, len(words) - 1)
            words = words[:k] if rng.random() < .5 else words[k:]
        elif r < .5:
            words = [rng.choice(words)]
        out = ''
        for w in words:
            if rng.random() < .04:
                out += rng.choice(odd)
            out += w + (' ' if rng.random() < .9 else rng.choice(spaces))
        out = out if rng.random() < .3 else out.rstrip()
        return E(rng.choice(spaces) + out + rng.choice(spaces))

    def block(depth):
        out = []
        for _ in range(rng.randint(1, 5 if depth else 9)):
            r = rng.random()
            if r < .45:
                out.append(text())
            elif r < .7:
                out.append('<lb/>' + rng.choice(spaces))
            elif r < .95 and depth < 3:
                tag = rng.choice(WILD_TAGS[model])
                inner = block(depth + 1) if rng.random() < .85 else rng.choice(['', ' '])
                out.append('<%s>%s</%s>' % (tag, inner, tag.split(' ')[0]))
                if rng.random() < .3:
                    out.append(text())
            elif r < .97 and c.spec.get('mangle') is None:
                out.append(rng.choice(['<![CDATA[a < b & c]]>', '&#x1F600;k', 'k&#9;z', 'k&#13;z ', 'z&#13;&#10;', ' &#13; ', '<lb n="3"/>',
                                       '<pb n="2"/>', '<![CDATA[ ]]>', '&#xe9;&#160;', '&amp;lt;']))
            else:
                out.append(rng.choice(spaces))
        return ''.join(out)
    return block(0) + '<lb/>' + block(0)


def padding(spec):
    rng = random.Random('pad|%s|%s' % (spec['id'], spec['pad']))
    if spec['pad'] % 10:
        # (nearly) every boundary between pieces lies within a character
        return ''.join('%x%s' % (rng.getrandbits(8), rng.choice(['\u00e9', '\u4e2d', '\U0001f600']) * 40)
                       for _ in range(spec['pad'] // 120))
    return ''.join('%x%s' % (rng.getrandbits(64), rng.choice([' ', ' ', '\n', '\u00e9 ']))
                   for _ in range(spec['pad'] // 17))


def long_text(how, model):
    """Many lines, many words in a line, long words, or deeply nested elements."""
    kind, n = how
    tag = [t for t in WILD_TAGS[model] if ' ' not in t][0]
    if kind == 'lines':
        return ''.join('row%d with some more%d<lb/>' % (i, i) for i in range(n))
    if kind == 'words':
        return ' '.join('w%dx' % i for i in range(n)) + '<lb/>'
    if kind == 'word':
        return 'y' * n + '<lb/>z<lb/>'
    if kind == 'blank':
        return 'a' + ' ' * n + 'b<lb/>'
    if kind == 'breaks':
        return 'c' + '<lb/>' * n + 'd<lb/>'
    if kind == 'elements':
        return ''.join('<%s>e%d</%s><lb/>' % (tag, i, tag) for i in range(n))
    return ''.join('<%s>n%d ' % ('x', i) for i in range(n)) + 'deep<lb/>' + ' r</x>' * n


def mangled(c, n, model):
    """Mark-up that is not well-formed, as GROBID sometimes writes it (and the model repairs)."""
    if n >= 4:
        rng = random.Random('mangle|%s|%d' % (c.spec['id'], n))
        parts = [x for x in re.split(r'(<[^>]*>)', wild(c, rng, model)) if x]
        ends = [i for i, x in enumerate(parts) if x.startswith('</')]
        for _ in range(rng.randint(1, 3)):
            if not ends:
                break
            i = rng.choice(ends)
            if rng.random() < .6 or len(ends) < 2:
                parts[i] = ''
            else:
                k = rng.choice(ends)
                parts[i], parts[k] = parts[k], parts[i]
        return ''.join(parts) + '<x>' * (not ends)
    a, b, d = c.w.phrase(2, 3), c.w.phrase(2, 3), c.w.phrase(1, 2)
    if model == 'figure':
        return '%s %s</content> &amp; %s<lb/>' % (a, b, d)
    return [
        '<head>%s <p>%s</head> %s</p><lb/>' % (a, b, d),
        '<p>%s <lb/>%s <ref>%s</p><lb/>' % (a, b, d),
        '%s</p> %s<lb/><p>%s</p>' % (a, b, d),
        '<figure><head>%s</figure> %s &amp; %s<lb/>' % (a, b, d),
    ][n % 4]


def tei(spec, model):
    c = Content(spec)
    rng = c.rng = random.Random('tei|%s|%s|%s' % (spec['id'], spec.get('v', 0), model))
    t = Tei(c)
    kind = spec['kind']
    head = '<teiHeader><fileDesc xml:id="%s"><t>%s</t></fileDesc></teiHeader>' % (
        spec['id'], c.w.word())
    nl = rng.choice(['', '\n', '\n\t'])
    if model == 'header':
        t.noise(0)
        t.wrapped(c.title, 'docTitle' if False else None)
        t.line(', '.join('%s %s' % a for a in c.authors), 'byline')
        for a in c.affs:
            t.line(aff_text(a))
        t.noise(1)
        t.line('Abstract')
        for a in c.abstract:
            t.line(a)
        t.line('Keywords: ' + ', '.join(c.keywords))
        t.noise(2)
        body = '<text><front>%s</front></text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = '<text><frontx>%s</frontx></text>' % ''.join(t.out)
    elif model == 'segmentation':
        t.noise(0)
        t.wrapped(c.title)
        t.line(', '.join('%s %s' % a for a in c.authors))
        for a in c.affs:
            t.line(aff_text(a))
        for a in c.abstract:
            t.line(a)
        t.noise(1)
        if rng.random() < .3:
            t.line(c.noise[2], 'page')
        for s in c.sections:
            t.line(s['title'])
            for p in s['paras']:
                for ln in p:
                    t.line(ln)
        for f in c.figures + c.tables:
            t.line('%s %s' % (f['label'], f['caption']))
            for b in f['body']:
                t.line(b)
        t.line('Acknowledgements')
        t.line(c.ack)
        t.line('References')
        for r in c.refs:
            t.wrapped(ref_text(r))
        t.noise(3)
        body = '<text>%s</text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = body.replace('text>', 'textx>')
    elif model == 'fulltext':
        t.noise(0)
        for s in c.sections:
            t.line(s['title'], 'head')
            for p in s['paras']:
                for ln in p:
                    t.line(ln)
        t.noise(1)
        for f in c.figures:
            t.line('%s %s' % (f['label'], f['caption']), 'figure')
            for b in f['body']:
                t.line(b)
        for f in c.tables:
            t.line('%s %s' % (f['label'], f['caption']), 'figure type="table"')
            for b in f['body']:
                t.line(b)
        t.line('Acknowledgements')
        t.line(c.ack)
        t.line(c.ref_title)
        t.noise(2)
        body = '<text>%s</text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = body.replace('text>', 'textx>')
    elif model in ('figure', 'table'):
        items = c.figures if model == 'figure' else c.tables
        attr = '' if model == 'figure' else ' type="table"'
        t.noise(0)
        for f in items:
            r = rng.random()
            if r < .6:
                t.raw('<figure%s>' % attr)
                if rng.random() < .5:
                    t.raw('<head>%s</head> ' % f['label'])
                    t.line(f['caption'], 'figDesc')
                else:
                    t.line('%s %s' % (f['label'], f['caption']))
                for b in f['body']:
                    t.line(b)
                t.raw('</figure>' + nl)
            else:
                t.wrapped('%s %s' % (f['label'], f['caption']))
                for b in f['body']:
                    t.line(b)
        t.noise(1)
        body = '<text>%s</text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = body.replace('text>', 'textx>')
    elif model == 'reference':
        for i, r in enumerate(c.refs):
            t.raw('<bibl>')
            t.wrapped(ref_text(r))
            t.raw('</bibl>' + nl)
        body = '<text><back><listBibl>%s</listBibl></back></text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = body.replace('listBibl>', 'listBiblx>')
    elif model == 'reference_segmenter':
        t.raw('<listBibl>' + nl)
        t.noise(0)
        for i, r in enumerate(c.refs):
            label, rest = ref_text(r).split(' ', 1)
            if rng.random() < .6:
                t.raw('<bibl><label>%s</label> ' % label)
                t.wrapped(rest)
                t.raw('</bibl>' + nl)
            else:
                t.wrapped(ref_text(r))
        t.noise(1)
        t.raw('</listBibl>')
        body = '<text>%s</text>' % ''.join(t.out)
        if kind == 'nocontainer':
            body = body.replace('text>', 'textx>')
    elif model == 'affiliation_address':
        for a in c.affs:
            t.raw('<affiliation>')
            if rng.random() < .5:
                t.raw('<marker>%s</marker> ' % a['label'])
                t.wrapped('%s, %s, %s, %s, %s' % (
                    a['dept'], a['inst'], a['city'], a['post'], a['country']))
            else:
                t.wrapped(aff_text(a))
            t.raw('</affiliation>' + nl)
        name = 'author' if kind != 'nocontainer' else 'authorx'
        head = ('<teiHeader><fileDesc xml:id="%s"><sourceDesc><biblStruct><analytic>'
                '<%s>%s</%s></analytic></biblStruct></sourceDesc></fileDesc></teiHeader>' % (
                    spec['id'], name, ''.join(t.out), name))
        body = ''
    else:
        raise ValueError(model)
    if spec.get('wild') is not None and kind == 'good':
        inner = wild(c, random.Random('wild|%s|%s|%s' % (spec['id'], spec['wild'], model)), model)
        if model == 'affiliation_address':
            head = ('<teiHeader><fileDesc xml:id="%s"><sourceDesc><biblStruct><analytic><author>%s'
                    '</author></analytic></biblStruct></sourceDesc></fileDesc></teiHeader>' % (
                        spec['id'], inner))
        elif model == 'reference':
            body = '<text><back><listBibl>%s</listBibl></back></text>' % inner
        elif model == 'header':
            body = '<text><front>%s</front></text>' % inner
        else:
            body = '<text>%s</text>' % inner
    if spec.get('mangle') is not None:
        inside = {'header': '<front>', 'reference': '<listBibl>'}.get(model, '<text>')
        body = body.replace(inside, inside + mangled(c, spec['mangle'], model), 1)
    if spec.get('long'):
        inside = {'header': '<front>', 'reference': '<listBibl>',
                  'affiliation_address': '<author>'}.get(model, '<text>')
        extra = inside + long_text(spec['long'], model)
        head, body = head.replace(inside, extra, 1), body.replace(inside, extra, 1)
    if spec.get('twice') is not None and kind == 'good' and spec.get('mangle') is None:
        trng = random.Random('twice|%s|%s|%s' % (spec['id'], spec['twice'], model))
        tag = {'header': 'front', 'reference': 'listBibl',
               'affiliation_address': 'author'}.get(model, 'text')
        more = ''
        for _ in range(trng.choice([1, 1, 2])):
            words = [c.w.word() for _ in range(trng.choice([0, 1, 5, 9]))]
            more += trng.choice([nl, '', '\n ', ' ']) + '<%s>%s</%s>' % (
                tag, trng.choice([' ', '<lb/>', '<lb/>\n']).join(words), tag)
        end = '</%s>' % tag
        if trng.random() < .3:
            end = '<%s>' % tag
            head, body = head.replace(end, more + end, 1), body.replace(end, more + end, 1)
        else:
            head, body = head.replace(end, end + more, 1), body.replace(end, end + more, 1)
    if spec.get('pad'):
        # large, but outside the container (annotating is quadratic)
        pad = '<note n="%s">%s</note>' % (spec['id'], padding(spec))
        if model == 'affiliation_address':
            body = '<text>%s</text>' % pad
        else:
            head = head.replace('</teiHeader>', pad + '</teiHeader>')
    behind = ''
    if spec.get('outer') is not None:
        orng = random.Random('outer|%s|%s|%s' % (spec['id'], spec['outer'], model))
        repaired = spec.get('mangle') is not None
        if orng.random() < .5:
            inside = {'header': '<front>', 'reference': '<listBibl>',
                      'affiliation_address': '<author>'}.get(model, '<text>')
            attr = inside[:-1] + orng.choice([
                ' xml:lang="en"', ' xml:lang="fr" N="a&amp;b"', ' xml:space="preserve"', ' type="x y"']) + '>'
            head, body = head.replace(inside, attr, 1), body.replace(inside, attr, 1)
        extra = outer(orng, c, not repaired)
        head = head.replace('</teiHeader>', extra + '</teiHeader>') if orng.random() < .7 \
            else head.replace('<teiHeader>', '<teiHeader>' + extra)
        if orng.random() < .5 and not repaired:
            behind = nl + outer(orng, c, True)
    ns = ' xmlns="%s"' % TEI if model in ('reference', 'affiliation_address') else ''
    decl = '<?xml version="1.0" ?>\n' if rng.random() < .5 else ''
    if kind == 'nocontainer' and spec.get('how'):
        return HOW[spec['how']].encode('utf-8')
    end = '</tei>'
    if spec.get('ending') and spec.get('mangle') is not None and spec['mangle'] < 4 \
            and model == 'fulltext' and '</text>' in body:
        if spec['ending'] == 'extra':
            # end tags without anything to end
            end += nl + '</p></text>' + nl
        else:
            # cut short: no end tags at all
            body = body[:body.rindex('</text>')] + c.w.phrase(2, 3)
            return ('%s<tei%s>%s%s%s%s%s' % (decl, ns, nl, head, nl, body, {
                'amp': ' &amp;', 'raw': '&9' + c.w.word(), 'cut': ''}[spec['ending']])).encode('utf-8')
    return ('%s<tei%s>%s%s%s%s%s%s%s' % (
        decl, ns, nl, head, nl, body, behind, nl, end)).encode('utf-8')


def outer(rng, c, comments):
    """Content around the container, which nothing may touch."""
    out = []
    for _ in range(rng.randint(1, 4)):
        w, v = c.w.word(), c.w.word()
        out.append(rng.choice([
            '<encodingDesc n="%s"><appInfo When="x%s" xml:lang="en-GB"/></encodingDesc>' % (w, v),
            '<p> <hi rend="b">%s</hi> <hi>%s</hi>\n </p>' % (w, v),
            '<p>%s&#13; %s&#xA0;&lt;&amp;</p>' % (w, v) if comments else '<p>%s  %s</p>' % (w, v),
            '<idno type="a&amp;b &lt;%s&quot;" Type="%s"></idno>' % (w, v),
            '<note>%s\t%s \u2013\n\n%s</note>' % (w, v, w),
            '<q:x xmlns:q="urn:q" q:Y="1">%s</q:x>' % w if comments else '<profileDesc/>',
            '<front>%s</front>' % w if rng.random() < .3 else '<listBibl><biblStruct>%s</biblStruct></listBibl>' % w,
            '<lb/>%s<lb n="2"/>' % w,
            '<content>%s</content><p>%s</p>' % (w, v) if comments else '<p>%s</p>' % v,
        ]))
        if comments and rng.random() < .5:
            out.append(rng.choice(['<!-- %s -->', '<?%s a="1"?>', '<?pb?><!--%s-->', ' <!---->%s ']).replace('%s', v))
    return ''.join(out)


EXT = {True: '.gz', 'GZ': '.GZ', 'bz2': '.bz2', 'deflate': '.deflate'}


def ext(how):
    return EXT[how] if how else ''


def zip_bytes(data, level=9, name='.gz'):
    if name.endswith('.bz2'):
        return bz2.compress(data)
    if name.endswith('.deflate'):
        return zlib.compress(data)
    return gzip.compress(data, level, mtime=0)


def zipped(name, data):
    return zip_bytes(data, name=name) if name.lower().endswith(tuple(EXT.values())) else data


# -- JATS files for the fixer -------------------------------------------------

def wild_citation(rng, w):
    """Arbitrary mixed content of a reference: identifiers and links, annotated or not."""
    def doi():
        return '10.%d/%s.%d' % (rng.randint(1000, 99999), w.word(), rng.randint(1, 999)) + rng.choice(
            ['', '', '', '(%s)' % w.word(), '-s1', '.', ',', '_x', '/full', ' [doi]', ';', ')'])

    def ident():
        d, num = doi(), str(rng.randint(1, 99999999))
        return rng.choice([
            d, d, 'doi:' + d, 'doi: ' + d, 'DOI ' + d, 'https://doi.org/' + d, 'http://dx.doi.org/' + d,
            'doi.org/' + d, d + ' ' + doi(), 'doi:%s PMID: %s' % (d, num), d + d, 'https://doi.org/',
            d + '. PMID:' + num, 'http://doi.org/%s https://doi.org/%s' % (d, d),
            'PMID: ' + num, 'pmid ' + num, 'PubMed PMID: %s; PubMed Central PMCID: PMC%s' % (num, num),
            'PMC' + num, 'PMCID:PMC' + num, num, w.word(), 'S0140-6736(%s)61345-8' % num[:2].zfill(2),
            'S014067361361345%d' % rng.randint(0, 9), 'PII: S0140-6736(05)61345-8', 'WOS:0000' + num,
            'WOS: 000%s' % num.zfill(9), 'https://%s.org/%s' % (w.word(), w.word()),
            'http://www.%s.com/a?b=c&d=%s.' % (w.word(), num), 'www.%s.org' % w.word(),
            'https: //%s. org/%s' % (w.word(), w.word()),
            'http://%s.org http://%s.org/x' % (w.word(), w.word()),
            'ftp://%s.net' % w.word(), 'https://www.ncbi.nlm.nih.gov/pubmed/' + num, '', ' ', ',',
            'Available at: http://%s.edu/~x' % w.word(), '10.', 'doi', 'doi:', '\u201c%s\u201d' % d,
            'arXiv:1234.%s' % num[:4]])

    def glue():
        return rng.choice(['', '', ' ', ' ', ', ', '. ', '; ', ': ', ' (', ') ', '\n  ', ' [', '] ',
                           '\u201c', '\u201d', '"', "'", '\u00a0', ' - ', ', in ', '. doi:', ' PMID: ',
                           ' https://doi.org/', ' PMC', ' http://dx.doi.org/', '<!-- c -->', '<?p i?>'])

    def inline(text):
        r = rng.random()
        if r < .8 or not text:
            return E(text)
        k = rng.randint(0, len(text))
        return '%s<italic>%s</italic>' % (E(text[:k]), E(text[k:])) if r < .9 else \
            '<italic>%s</italic>%s' % (E(text[:k]), E(text[k:]))

    def element():
        r = rng.random()
        if r < .4:
            attr = rng.choice(['doi', 'doi', 'doi', 'DOI', 'pmid', 'pmid', 'PmId', 'pmcid', 'pmc', 'pii',
                               'PII', 'other', 'Unknown', 'art-access-id', 'publisher-id'])
            extra = rng.choice(['', '', '', ' assigning-authority="crossref"', ' xlink:href="h"'])
            return '<pub-id pub-id-type="%s"%s>%s</pub-id>' % (attr, extra, inline(ident()))
        if r < .6:
            link = ident()
            return '<ext-link ext-link-type="%s"%s>%s</ext-link>' % (
                rng.choice(['uri', 'uri', 'doi', 'pmid']),
                rng.choice(['', ' xlink:href="%s"' % E(link).replace('"', '')]), inline(link))
        if r < .75:
            q = rng.choice([('', ''), ('\u201c', '\u201d'), ('"', '"'), ("'", "'"), ('\u201c', ',\u201d'),
                            ('', ', '), ('', ','), ('\u201c', ''), ('\u2018', '\u2019.')])
            return '<article-title>%s</article-title>' % inline(q[0] + w.phrase(1, 4) + q[1])
        if r < .85:
            return '<comment>%s</comment>' % inline(glue2() + ident() + glue2())
        tag = rng.choice(['source', 'year', 'volume', 'fpage', 'italic', 'string-name', 'uri', 'elocation-id'])
        return '<%s>%s</%s>' % (tag, inline(rng.choice([w.phrase(1, 2), ident(), ''])), tag)

    def glue2():
        return rng.choice(['', '', ' ', '. ', 'Available: ', ', '])

    out = [glue() if rng.random() < .5 else '']
    for _ in range(rng.randint(1, 6)):
        out.append(element() if rng.random() < .65 else E(ident()))
        out.append(glue())
        if rng.random() < .2:
            out.append(E(ident()))
    if rng.random() < .15:
        out.append(rng.choice(['\n', '\n    ', ' ', '\t', '\u00a0', '.\n']))
    text = ''.join(out)
    outer = rng.choice(['mixed-citation'] * 5 + ['element-citation', 'citation', 'note'])
    lead = rng.choice(['', '', '<label>1.</label>', '\n', '<label>%s</label> ' % E(ident())])
    more = '' if rng.random() < .9 else '<mixed-citation>%s</mixed-citation>' % E(ident())
    return '%s<%s>%s</%s>%s' % (lead, outer, text, outer, more)


def wild_article(rng, w, data, kind):
    """Unusual but well-formed content around the references."""
    def maybe(old, new, p=.25):
        nonlocal data
        if rng.random() < p:
            data = data.replace(old, new, 1)
    q = rng.choice([('\u201c', '\u201d'), ('"', '"'), ('', ', '), ('\u2018', '\u2019'), ('\u201c', ''), ('', ',')])
    maybe('<article-title>', '<article-title>%s%s <italic>%s</italic> %s%s; PMC123</article-title>'
          '<alt-title>%s doi:10.1234/%s</alt-title><article-title>' % (q[0], w.word(), w.word(), w.word(), q[1], w.word(), w.word()), .1)
    maybe('<article-title>', '<article-title>%s%s <italic>%s</italic> %s%s</article-title><article-title>' % (
        q[0], w.word(), w.word(), w.word(), q[1]), .25)
    maybe('</article-meta>', '<ext-link ext-link-type="uri" xlink:href="http://a.orghttp://b.org">'
          'http://a.orghttp://b.org</ext-link><pub-id pub-id-type="DOI">doi:10.1234/x</pub-id>'
          '<mixed-citation>PMID: 12345</mixed-citation></article-meta>')
    maybe('<article xmlns:xlink', '<?xml-stylesheet href="a.xsl"?><article xmlns:xlink')
    maybe('<article xmlns', '<!-- %s --><article xmlns' % w.word())
    maybe('<article xmlns', '<?order %s?>\n<article xmlns' % w.word())
    maybe('<article xmlns:xlink', '<article article-type="x" xml:lang="en" xmlns:mml='
          '"http://www.w3.org/1998/Math/MathML" xmlns:xlink')
    maybe('<body>', '\n <body>\n<!-- %s --><?pi %s?>' % (w.word(), w.word()))
    maybe('</body>', '<p>a&amp;b &lt;c&gt; <![CDATA[x < y & z]]> &#x1F600;&#9;k</p></body>')
    maybe('</body>', '<p> \u00a0 <xref ref-type="bibr" rid="%s">1</xref><italic/>\n\n</p>\t</body>' % w.word())
    maybe('</body>', '<disp-formula><math xmlns="http://www.w3.org/1998/Math/MathML"><mi>x</mi></math>'
          '</disp-formula></body>')
    maybe('<body>', '<body xml:space="preserve">')
    maybe('<ref-list>', '<ref-list content-type="main"><title>%s</title>\n' % w.word())
    maybe('</back>', '<fn-group><fn><p>doi: 10.1234/%s PMID: 1234567</p></fn></fn-group></back>' % w.word())
    maybe('</article>\n', '<sub-article><back><ref-list><ref id="s1"><mixed-citation>%s <pub-id '
          'pub-id-type="doi">doi:10.5/%s</pub-id>. PMID: 7654321</mixed-citation></ref></ref-list></back>'
          '</sub-article></article>\n' % (w.word(), w.word()), .15)
    maybe('</article>\n', '</article>\n<!-- end -->\n')
    return data


def fix_source(spec):
    """A JATS file to fix and what is known about it: (bytes, malformed, broken).

    kinds: good, ws (leading blank line before the declaration), dagger (undefined entity),
    broken (not repairable).
    """
    rng = random.Random('fix|%s|%s' % (spec['id'], spec.get('v', 0)))
    w = Words(rng, set(), spec.get('rot'))
    kind = spec['kind']
    wrng = None if spec.get('wild') is None else random.Random(
        'wildfix|%s|%s' % (spec['id'], spec['wild']))
    refs = []
    for i in range(rng.randint(1, 4 + 2 * spec.get('size', 1))):
        rid = '%s-r%d' % (spec['id'], i + 1)
        doi = '10.%d/%s.%d' % (rng.randint(1000, 9999), w.word(), rng.randint(1, 999))
        title = '<article-title>%s</article-title>. <source>%s</source>' % (
            w.phrase(3, 5), w.phrase(2, 3))
        pub = '%s <pub-id pub-id-type="%%s">%%s</pub-id>' % title
        num = str(rng.randint(1000000, 9999999))
        cit = rng.choice([
            lambda: pub % ('doi', doi),                     # nothing to fix
            lambda: pub % ('doi', doi) + '. ' + w.word(),
            lambda: pub % ('doi', 'doi:' + doi),            # prefix inside the annotation
            lambda: pub % ('doi', doi + ' [doi]'),
            lambda: pub % ('DOI', doi),                     # type in the wrong case
            lambda: pub % ('PmId', num),
            lambda: pub % ('Unknown', num),
            lambda: pub % ('pmid', 'PMID: ' + num),
            lambda: pub % ('pmid', w.word()),               # not an identifier at all
            lambda: pub % ('pmcid', 'PMCID: PMC' + num),
            lambda: title + ' PMID: ' + num,                # not annotated at all
            lambda: title + '; PMC' + num,
            lambda: title + ' ' + doi,
            lambda: '%s. <comment>PMID: %s</comment>' % (title, num),
            lambda: '%s https://doi.org/<pub-id pub-id-type="doi">%s</pub-id>' % (title, doi),
            lambda: '<article-title>\u201c%s\u201d</article-title> <source>%s</source>' % (
                w.phrase(3, 4), w.word()),
            lambda: '<article-title>%s, </article-title> <source>%s</source>' % (
                w.phrase(3, 4), w.word()),
            lambda: '%s <ext-link ext-link-type="uri" xlink:href="https://%s.org/">%s.org</ext-link>'
            % (title, rid.lower(), w.word()),
            lambda: title,                                  # plain reference
            lambda: title,
        ])()
        attr = ' id="%s"' % rid if rng.random() < .93 else ''
        if wrng and wrng.random() < .15:
            # not unique, not a name, or more than one attribute
            attr = wrng.choice([' id="%s-r1"' % spec['id'], ' id=""', ' id="a,b %s"' % rid, ' id="R1"', ' id="r1"',
                                ' specific-use="x" id="%s" content-type="&lt;&#10;"' % rid,
                                ' xml:id="%s"' % rid, ' id=" %s "' % rid])
        if wrng and wrng.random() < .8:
            refs.append('<ref%s>%s</ref>%s' % (attr, wild_citation(wrng, w), wrng.choice(['', ' x ', '\n'])))
            continue
        refs.append('<ref%s><mixed-citation>%s</mixed-citation></ref>' % (attr, cit))
    mark = ' &dagger;' if kind == 'dagger' else ''
    body = ''.join('<p>%s%s</p>' % (w.phrase(4, 8), mark if i == 0 else '') for i in range(2))
    enc = 'iso-8859-1' if kind == 'good' and rng.random() < .15 else 'utf-8'
    if wrng and kind == 'good' and wrng.random() < .35:
        enc = wrng.choice(['us-ascii', 'iso-8859-1', 'windows-1252', 'utf-16', 'utf-8-sig', 'koi8-r'])
    if spec.get('pad'):
        body += '<p>%s</p>' % padding(spec)
    doctype = '<!DOCTYPE article PUBLIC "-//NLM//DTD JATS 1.1//EN" "JATS.dtd">\n' \
        if kind in ('good', 'ws') and rng.random() < .2 else ''
    meta = '<custom-meta-group><custom-meta><meta-name>m</meta-name><meta-value>%s</meta-value>' \
        '</custom-meta></custom-meta-group>' % w.word() if rng.random() < .2 else ''
    if wrng and wrng.random() < .15:
        # had been fixed before
        meta = '<custom-meta-group>%s</custom-meta-group>' % ''.join(
            '\n<custom-meta><meta-name>fix-jats-%s</meta-name><meta-value>%s</meta-value></custom-meta>' % (n, v)
            for n, v in [('run-timestamp', '2001-01-01T00:00:00'), ('malformatted-xml', 'true'),
                         ('changed-reference-count', '77'), ('changed-reference-ids', w.word())])
    data = ('<?xml version="1.0" encoding="%s"?>\n%s<article xmlns:xlink="'
            'http://www.w3.org/1999/xlink">%s<front><article-meta><title-group>'
            '<article-title>%s \u00e9\u2013</article-title></title-group></article-meta></front>'
            '<body>%s</body><back><ref-list>%s</ref-list></back></article>\n' % (
                enc.upper().replace('-SIG', ''), doctype, meta, w.phrase(4, 7), body, '\n'.join(refs)))
    if wrng:
        data = wild_article(wrng, w, data, kind)
    if kind == 'ws':
        data = '\n \n' + data
    if kind == 'broken':
        data = HOW.get(spec.get('how'), data.replace('</body>', '</bodx>'))
    return data.encode(enc, 'xmlcharrefreplace')


def blob(spec):
    """Arbitrary binary content (PDF stand-in)."""
    rng = random.Random('blob|%s|%s' % (spec['id'], spec.get('v', 0)))
    n = rng.choice([0, 1, 700, 5000, 70000, 300000]) if spec.get('size', 1) > 1 else rng.choice(
        [1, 300, 2000])
    data = rng.randbytes(n)
    if spec.get('rot'):
        data = data[::-1] if data[::-1] != data else bytes(x ^ 1 for x in data)
    return b'%PDF-' + spec['id'].encode() + data
