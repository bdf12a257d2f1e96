"""Writes known-findings.json: open findings, and the defects that fix commits repaired."""
import json
import os

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
FINDINGS = [
    dict(property='C01', what='about a thousand elements nested in one another exceed the interpreter\'s recursion limit (RecursionError in feed/close)',
         case=dict(html='<div>' * 1200, cfg={})),
    dict(property='C10', what='capitalized blocks turn the targets of links placed inline in them into capitals',
         case=dict(html='<p>x <a href="/Yy">q1z</a></p>', read=True,
                   cfg=dict(link_placement='inline', image_placement='inline', width=1500, renderers={'p': ['Paragraph', dict(capitalized=True)]}))),
    dict(property='C10', what='capitalized list items turn the targets of the entries that end a block inside them into capitals',
         case=dict(html='<ul><li>x<p>y <a href="/Yy">q1z</a></p></li></ul>', read=True,
                   cfg=dict(link_placement='after_block', image_placement='inline', width=1500, renderers={'li': ['ListItem', dict(capitalized=True)]}))),
    dict(property='C18', what='the autumn theme\'s rule for the whole block takes the empty line from between two code blocks that follow one another',
         case=dict(kind='tokens', theme='autumn', html='<div class="highlight"><pre>a\n</pre></div>\n<div class="highlight"><pre>b\n</pre></div>', cfg={})),
]
FIXED = '''
67f43ed C01 an attribute without a value (<p class>, <a href>) raised
a353010 C10 links without a target showed None
817e9bd C01 malformed link targets (http://[, bad ports) raised
d3e34cf C11 gopher links without port or host had None in their menu line
89a5baa C11 the item type was guessed from the whole target, not its last path component
fc176ed C10 after_block links outside any element were never entered
f101ab5 C10 footer entries of images were lost when links were placed inline
358e706 C06 configured settings did not reach link renderers
183a484 C10 image references did not show the alternative text
9927a94 C22 void elements other than br and img took the rest of the document as content
5050382 C14 preformatted state was lost or kept by the wrong end tags
e0cf281 C03 text split over several feeds rendered differently
48996d0 C23 ignored end tags were reported on standard output
60384da C03 a second close repeated the document
4c2db25 C20 settings of some base classes were dropped
4dc1fed C05 attribute selectors compared with the token instead of its value
7557db5 C05 pseudo-element selectors and empty substrings matched
ed61ec4 C05 nth-child series and indexes below one were wrong
1f5d337 C12 text between list items was counted in their numbers
d449d3a C12 the settings configured for ordered items did not number them
abedc2c C17 fonts and palette colour 0 were not applied
7527e8e C07 borders and padding of nested blocks overflowed their parents
3924d74 C16 centred headings ignored the line templates around them
31d7e03 C08 escape sequences were counted and split by wrapping
2db7bba C09 escape sequences disturbed justification, borders and underlines
d566d15 C17 capitals and letter spacing broke escape sequences
ef76ce3 C01 blocks nested too deeply to have any width raised
f647fb2 C10 link descriptions were cut inside escape sequences
e95412c C11 tabs and newlines got into the fields of menu lines
167e0e5 C11 menu lines in the footer were indented by the page margin
c4bd00a C02 blocks were joined to the text next to them
a4e4cf0 C12 line breaks and blocks inside items were lost
62aa934 C23 the destination file was not written
02978c4 C07 the width given to the parser was ignored in places
adfab87 C11 image links in menus had padding and margins
b557097 C18 background colours of the github theme were misspelled
351eb7e C17 line breaks around styled content were styled
db895b5 C06 rules giving only settings did not reach the default renderer
524f61b C10 entries of images inside inline links were lost
581023c C10 after_block entries stood inside inline elements
68b71c6 C08 escape sequences without text of their own were dropped
1745e6c C08 escape sequences in leading white space got a line of their own
352dd11 C08 escape sequences after dropped white space were lost
bdf17f3 C09 the indent of justified lines with escape sequences in it was lost
ba89cc1 C01 nested blocks without width were rewrapped for ever
9a48825 C01 escape codes of shortened descriptions doubled with every nested link
6cee9e1 C10 links inside elements rendered by NonRenderer took a number and had a footer entry
1a00a24 C14 form feeds and other separators that only Python takes for line ends were lost from preformatted and quoted text
7938091 C01 nested links were rendered exponentially often
efce4c6 C20 settings of a mixin were applied twice, out of their place in the hierarchy
adc3b96 C20 writes to replaced settings were lost
d41fc76 C19 carriage returns and form feeds were kept as text, non-breaking spaces next to line breaks dropped
4ab42d2 C19 white space around the only code of a paragraph made it wrap
8bda01c C23 the declared console script could not be imported
2df8b9d C05 names of elements and attributes and an+b in upper case matched nothing
2741722 C08 escape sequences took up columns when tabs were expanded
7f397c7 C17 a space at the start of styled text indented the paragraph or description
a5abe99 C17 several spaces around escape sequences remained in gophermap descriptions
79c2e68 C17 the sequences of an empty styled element made its line count as one with text
5b38b0c C11 a semicolon ended the selector of a gopher link
fcc0efe C07 escape sequences and doubled braces in line templates counted towards their width
10a8c8a C07 escape sequences in borders took up width
8e2485e C16 the underline, spacing and centring of headings took their line breaks for text
1d56ba3 C02 ordered list items lost their text when a rule for li set the template of unordered ones
2e9d601 C12 braces in the templates of ordered list items raised an exception or disappeared
4586804 C11 menu lines of links placed after blocks were wrapped, prefixed and indented, their tabs expanded
ab755a4 C05 class attributes were split at no-break spaces and the like, and compared as rejoined
81c7b5d C11 tabs in preformatted and other unwrapped text made menu items out of it
5fd2ae7 C14 preformatted text in list items, definitions and paragraphs was wrapped with the item's text
5fd2ae7 C01 with right-justified indented list items, or bordered overflowing blocks in them, the output grew exponentially with the nesting
011be31 C10 entries after headings stood inside the heading's template, which ran into the target
aab8955 C10 targets of entries that end a capitalized block were turned into capitals
e7bfc84 C14 preformatted text in inline elements in list items and the like was wrapped
5a69f50 C17 (found in e7bfc84) styles of inline elements around blocks changed what is wrapped
'''
fixed = []
for line in FIXED.strip().split('\n'):
    commit, pid, what = line.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (pid, commit, what))
with open(os.path.join(HERE, 'known-findings.json'), 'w') as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
    f.write('\n')
