"""Writes DESIGN.md: the text below, what the check modules say of themselves, the fixes and findings, and the planted bugs."""
import importlib
import json
import os
import sys

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

INTRO = '''# Runtime monitoring of gopher-render

(written by tools/mkdesign.py)

## Approach

gopher-render is pure Python without native code, so compiler sanitizers, race
detectors and undefined-behaviour interpreters have nothing to attach to.  What
the family offers here is monitors and oracles on executions of the real code:

* **where they are attached**: to what a user of the library can see, never to
  internals.  Caller-supplied renderer classes log every call (element,
  settings, content, output); the rendered text is parsed line by line,
  character by character or as a gopher client and a terminal would; the command
  line tool is watched at the process boundary (standard output, exit status,
  every file).  The interpreter itself provides the rest: executed lines
  (sys.monitoring) as a deterministic measure of work, and as the places where
  thread switches are injected.  No hooks in /repo were needed, so there is no
  guard variable, and code that is rearranged without changing its behaviour
  is judged by nothing but its behaviour.
* **what decides**: executable references written separately from the code
  (vlib/ref.py: tree builder, cascade, box layout, list and quotation layout,
  headings, links and entries; vlib/css.py: selector parser and matcher;
  vlib/sgr.py: terminal state machine; the standard library's textwrap),
  metamorphic pairs of real runs (split feeds, re-spaced sources, with and
  without theme, trimming, margins), goldens from fresh processes, and offline
  checkers over event logs (exactly once, order, one-to-one).  Several checks
  have a *direct* monitor besides the reference, so that a mistake in the
  reference that mirrors one in the code is still seen.
* **where reach comes from**: seeded generators (vlib/gen.py, vlib/words.py) of
  documents, configurations, widths, histories, schedules and faults, plus
  fixed cases at the boundaries and for every defect found.  A run is only
  accepted if its monitors saw enough: every check has REQUIRED counters
  (events, decisions, distinct switch sequences ...) below which it ends with
  exit code 2, and evidence/<id>.json gives all of them.
* **determinism**: workloads are counted, not timed; VERIF_SEED selects them. A
  case is a JSON value; a violation is written to replays/ and can be repeated
  with `bin/check <id> --replay FILE`.  `tools/shrink.py` makes it smaller.

`bin/check` imports the code from /repo's working tree (VERIF_REPO selects
another one) with bytecode caches in a directory of its own, so a stale .pyc is
never used.  All work is done by up to eight worker processes; quick checks take
10 to 40 s alone, thorough ones up to 14 minutes (a wall-clock net of 840 s
ends them after what has been explored by then).

"Finishes" in C01 is a liveness property; it is restated as bounds on CPU time
and on executed lines, the usual reduction for monitoring.  No property is out of
reach of the family, so not_applicable is empty.

## The checks
'''

WHY = {
 'C01': 'Tests render a few dozen well-formed snippets. The oracle here is the absence of an exception, a string as result, 25 s of CPU per case, and for 60 or more families of growing documents '
        'the number of executed lines and the size of the output under doubling (a factor of at most 9 for the fixed configurations, 40 for random ones, so cubic work passes and exponential does not). ',
 'C02': 'Words are numbered and unique, so a lost, repeated or moved word is seen by the conservation monitor alone; the reference accounts for every other visible character.',
 'C03': 'No model: one piece against many, fresh against used parser, both real. Splittings at every character of small documents are exhaustive for that document.',
 'C04': 'The goldens come from forks of a process that has rendered nothing, and from separately started interpreters with other hash seeds. Inputs (boxes, maps, settings, themes) and library defaults '
        'are snapshot before and after. Threads are switched at injected executed lines; distinct switch sequences are counted.',
 'C05': 'Every (rule, element) pair is a decision: each rule carries a setting of its own, which reaches the logging renderer exactly if the rule applied. 500000 decisions at least per quick run.',
 'C06': 'The settings and the class that reach each element are compared as a whole with the reference cascade; the counters show how many were decided by specificity, by order and by the class.',
 'C07': 'Untrimmed output is compared with the reference layout to the last space, so that right borders and the widths of margins are seen.',
 'C08': 'textwrap of the standard library on the text without escapes is the oracle; the tracker requires each sequence to stay between the same two visible characters.',
 'C09': 'Direct: line by line against the words of the standard library\'s wrapping, gap widths counted.',
 'C10': 'References and entries are parsed back out of the text and matched one to one with the links of the document tree.',
 'C11': 'A gopher client\'s view: every line with a tab is split into fields. Targets are built from components, so the expected fields are known without parsing URLs; odd ones go through a separate classification.',
 'C12': 'Unique tokens make the direct monitor (marker, column of every further line) independent of the layout model.',
 'C13': 'Direct: prefix per level on every line between margins; the model adds wrapping and margins.',
 'C14': 'Direct: the expected lines are the generated ones with the indent.',
 'C15': 'The composer needs no layout: templates over the element tree. Hostile data goes to every place that shows text or attributes.',
 'C16': 'Direct recomputation of text, underline and alignment, with and without styled words; headings inside other blocks by the model.',
 'C17': 'The terminal state machine knows only the ECMA-48 meaning of the sequences, not how the code composes them.',
 'C18': 'Same state machine; the expected style of each character is resolved from the recorded theme tables by an independent cascade.',
 'C19': 'Metamorphic, plus the model on the compact document so that a change common to all versions is seen.',
 'C20': 'The model linearizes the hierarchy itself (C3) and keeps plain dictionaries.',
 'C21': 'Metamorphic: optimised against trimmed, with margins against without.',
 'C22': 'Bracketing renderers spell out the tree; a stack machine over the standard tokenizer\'s events says what it has to be.',
 'C23': 'Runs in scratch directories as an unprivileged effect: every file is compared before and after; one in eight runs is a process of its own, started in each of the declared ways.',
 'C24': 'Outputs carry unique marks, so use, order and repetition are read off the contents received by the parents.',
}

LIMITS = '''
## Limits of the domain

Met while writing the checks, and left out of their workloads because the
behaviour there is either a matter of taste or one of the findings above; none
of this silences a check inside its domain.

* Nesting beyond the recursion limit (about 984 elements, 497 links): finding.
* drop_whitespace False, and underlined or letter-spaced headings that contain
  headings, are not crossed with nesting in C01.
* MarkdownHeaderRenderer is for h1 to h6, ImageRenderer for img; a two-argument
  line_template belongs to OrderedListItemRenderer; `(None, settings)` as the
  rule `''`, or in place of the built-in `a`/`img` entry rules, and a border of None are not
  supported configurations (margin and padding of None are).
* A link whose own renderer is NonRenderer keeps its entry (the caller chose both).
* Blocks that share a line with the text around them (`<li>a <span><div>b</div> c</span>`: an inline element does not break the line)
  are reflowed with it.
* Inside a style that a nested element also sets, the terminal shows the default
  after the inner one ends (C17 expects that); styled elements without content are
  not judged.
* White space inside inline elements at the edges of a block stays inside their
  template (C19 judges only bare and span text there, not inside links).
* Duplicate attributes: the last wins. Non-breaking spaces at the edges of
  paragraphs are stripped. Feeding after close without reset continues the document.
* The standard library's textwrap never returns for an indent as wide as the line before
  leading white space: C08 only requires an answer there.
* Relative targets that name a host (`//host/path`) are relative: configured host and port.
* max_lines and placeholder (not reachable from renderer settings) are judged only without escapes.

## False alarms met and corrected

* C01: the generator gave OrderedListItem's two-argument template to plain list
  items (a configuration error of the caller); growth bounds of fixed and random
  families were first the same; CPU limits replaced by executed lines and output size.
* C03: splittings that the standard tokenizer itself tokenizes differently are
  recognised by running it alone, and not judged.
* C08: the standard library hangs on some options; the oracle is skipped there.
* C09/C16: centring with an odd remainder may put the larger half on either side.
* C10: references inside an entry's description are not counted a second time.
* C17/C18: a line break at the edge of styled content stands outside the
  sequences; trailing spaces are not compared between themed and plain output
  (autumn's rule for the whole block makes the div inline).
* C19: white space inside inline elements with a template at the edge of a block.
* C21: the empty line before a gophermap menu may or may not carry the margin.
* C24: white space next to blocks is layout.

Changes that keep the behaviour were tried by hand (helpers extracted, dispatch
tables instead of chains, loops instead of recursion, comprehensions, properties
rewritten, one class's methods delegating to another's, a regular expression
instead of split/join, the command split into functions): all 24 checks stayed quiet.
'''

MISSED = {
 'flush-after-render': 'C03/C04 histories', 'skip-any-code': 'paragraphs with code and text', 'escape-parameters': 'escape parameters in odd forms',
 'match-memo': 'equal elements at different places', 'padding-none': 'None as margin or padding', 'same-title': 'repeated targets and titles',
 'font-zero': 'font number 0', 'attrs-lower': 'attribute values with white space at their ends', 'inline-title-blank': 'titles, texts and targets that are equal', 'line-break-lines': 'other elements rendered as line breaks', 'twice-rendered': 'empty links and many empty results',
 'dict-default-setting': 'dictionaries as values of class settings', 'negation-class': 'more than three classes, names that contain one another', 'sort-key-sum': 'selectors of up to five parts',
 'indent-blank': 'lines that begin with tabs, indents of 0, and the content without page margins compared with the model', 'type-by-query': 'queries and fragments on gopher URLs',
 'image-entry-inline-title': 'titles on images without alternative texts',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
    known = json.load(open(os.path.join(HERE, 'known-findings.json')))
    out = [INTRO]
    for p in props:
        m = importlib.import_module('checks.' + p['id'].lower())
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('*Decided by* %s.\n' % m.TECHNIQUE)
        out.append('*Workload.* %s Quick: %d cases, thorough: %d.\n' % (m.RULE, m.COUNT['quick'], m.COUNT['thorough']))
        out.append('*Oracle and reach.* %s %s\n' % (m.LEVEL_NOTE, WHY[p['id']]))
        out.append('*A run must have seen at least:* %s.\n' % ', '.join('%d %s' % (n, k) for k, n in m.REQUIRED.items()))
        if getattr(m, 'ASSUMPTIONS', None):
            out.append('*Assumptions.* %s\n' % ' '.join(m.ASSUMPTIONS))
    out.append('## Known findings (recorded, not repaired)\n')
    for f in known['findings']:
        out.append('* %s: %s' % (f['property'], f['what']))
    out.append('\nThe repair of each would be a redesign (iterative rendering) or a change to a theme\'s looks; '
               'the checks print KNOWN-FINDING for the recorded case and report any other.\n')
    out.append('## Defects repaired ("fix:" commits)\n')
    for f in known['fixed']:
        out.append('* ' + f[len('fixed: property='):])
    out.append(LIMITS)
    out.append('## Planted bugs\n')
    d = os.path.join(HERE, 'seeded')
    names = sorted(os.listdir(d))
    out.append('%d changes are kept in seeded/, each confirmed by tools/mkbug.py (applies, builds, passes the 48 tests, the demonstration fails with it and passes without it). '
               'Each is caught by the quick check of its property. "Missed at first" names what was added to the workload to catch it.\n' % len(names))
    out.append('| bug | caught by | needs | missed at first |\n|---|---|---|---|')
    for n in names:
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '\\|'), MISSED.get(n, '')))
    out.append('')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
