"""Documents and settings of unusual size, as fixed cases of the checks that compare whole documents."""


def text(n, words=('lorem', 'ipsum', 'do', 'sit', 'amet,', 'a', 'consectetur.', 'Elit')):
    return ' '.join(words[i % len(words)] for i in range(n))


def cases(*words):
    """those with one of the words in the document or its configuration"""
    out = []
    add = lambda html, **cfg: out.append(dict(html=html, cfg=cfg))
    for w in (120, 160, 255, 400):
        for how in ('left', 'full', 'right', 'center'):
            add('<p>%s</p><ul><li>%s</li></ul>' % (text(200), text(90)), width=w, renderers={'p, li': [None, dict(justification=how)]})
        for s in (dict(centered=True), dict(underlined=True, underline_full=True), dict(underlined=True, centered=True), dict(spread=9, underlined=True)):
            add('<h2>%s</h2><p>x</p>' % text(8), width=w, renderers={'h2': ['Header', s]})
    for n in (150, 320):
        for cfg in (dict(), dict(start_index=-7), dict(step=-3), dict(start_index=995, step=11)):
            add('<ol>%s</ol>' % ''.join('<li>item %d</li>' % i for i in range(n)), renderers={'ol > li': ['OrderedListItem', cfg]})
        add('<ul>%s</ul>' % ''.join('<li>item %d</li>' % i for i in range(n)))
        add('<pre>%s</pre>' % '\n'.join('  line  %d' % i for i in range(n)))
        add('<blockquote>%s</blockquote>' % ''.join('<p>p %d</p>' % i for i in range(n // 2)))
        add('<p>%s</p>' % '<br>'.join('p %d' % i for i in range(n)))
        add('<p>%s</p>' % ' '.join('<a href="u%d">t</a>' % i for i in range(n)))
        add(''.join('<p>a <a href="u%d">t</a></p>' % i for i in range(n // 4)), link_placement='after_block')
    add('<p>%s</p>' % ('x' * 3000))
    add('<dl>%s</dl>' % ''.join('<dt>t%d</dt><dd>%s</dd>' % (i, text(30)) for i in range(80)))
    for title in ('t' * 300, text(120)):
        for p in ('inline', 'footer', 'after_block'):
            add('<p>x <a href="/%s" title="%s">y</a> <img src="/z" alt="%s"></p>' % ('u' * 300, title, title), link_placement=p, image_placement=p, width=3000,
                extracted_link_renderers={'a': ['ExtractedLink', dict(max_link_description=500)], 'img': ['ExtractedImageLink', dict(max_link_description=500)]})
    for tag, kind in (('p', 'Paragraph'), ('div', 'Block'), ('blockquote', 'BlockQuote'), ('li', 'ListItem'), ('pre', 'Pre'), ('dd', 'DefinitionListItem'), ('h3', 'Header')):
        html = '<%s>%s</%s>after' % (tag, text(40), tag)
        for s in (dict(margin=[12, 14, 11, 13]), dict(padding=[13, 12, 14, 11]), dict(margin=[30, 0, 30, 45]), dict(border=['=-~+.', '|:!.,', '_^#@', '<>;[']),
                  dict(margin=[9, 9, 9, 9], padding=[9, 9, 9, 9], border=['123456', 'abcdef', '654321', 'fedcba'])):
            add(html, width=140, renderers={tag: [kind, s]})
        if tag in ('p', 'li', 'dd'):
            for a, b in ((12, 0), (0, 12), (25, 17), (3, 31)):
                add(html, width=90, renderers={tag: [kind, dict(initial_indent=a, subsequent_indent=b)]})
            add(html, width=120, renderers={tag: [kind, dict(line_template='a rather long marker in front: {}')]})
    add('<pre>a\n  b</pre>', renderers={'pre': ['Pre', dict(indent=40)]})
    for m in ([20, 25, 15, 33], [0, 0, 0, 60], [40, 0, 0, 0]):
        add('<p>%s</p>' % text(40), box=dict(width=100, margin=m))
        add('<p>%s</p><a href="u">v</a>' % text(40), box=dict(width=100, margin=m), optimise=False)
    for t in ('div', 'blockquote', 'em', 'x-y', 'span'):
        add('<%s>' % t * 60 + 'x <b>y</b>' + '</%s>' % t * 60 + ' z', width=300)
        add('<div>a' + '<%s>' % t * 60 + 'x <b>y</b>' + '</div> z', width=300)
    add('<ul><li>a' * 30 + '</li></ul>' * 30 + 'z', width=200)
    add('<ol><li>a' * 30 + '</li></ol>' * 30 + 'z', width=200)
    add('<ol>%s</ol>' % ('<li>i</li>' * 1100))
    return [c for c in out if not words or any(w in c['html'] or w in str(c['cfg']) for w in words)]
