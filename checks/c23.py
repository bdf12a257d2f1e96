"""C23 the command line tool delivers exactly the library's rendering"""
import contextlib
import io
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from checks import c01, c18
from vlib import gen, real

ID = 'C23'
TECHNIQUE = 'runtime monitoring: the command run as a process and in-process over generated files and faults; its output, exit status and the files around it compared with an independent use of the library'
LEVEL_NOTE = ('Every case runs the real command in a scratch directory, one in eight as a process of its own; standard output, exit status and every file in the directory before and after are compared with '
              'what the markdown package and the library give for the source. Exploration of seeded sources, names, options and faults.')
RULE = ('HTML and Markdown sources (code blocks in many languages, tables, footnotes, metadata, links, images), damaged HTML, names with every kind of suffix, relative and absolute paths, existing destinations, '
        'source as destination, missing, undecodable and directory sources, missing arguments. Non-trivial: a source that was rendered and is not blank.')
COUNT = {'quick': 1500, 'thorough': 30000}
REQUIRED = {'processes': 120, 'in-process runs': 800, 'markdown sources': 300, 'html sources': 300, 'dumps': 250, 'unreadable sources': 60, 'replaced destinations': 150}
ASSUMPTIONS = ['The reference configuration is the one of the command: width 67 with an empty line above and below, footer links, inline images, the iced_gopher theme.',
               'Files are in UTF-8 and the command runs with an UTF-8 locale.']
NAMES = ['a.md', 'a.html', 'a.htm', 'a.txt', 'a', 'a.MD', 'a.md.html', 'a.html.md', 'b c.md', 'ä.md', '.md', 'x.mdown', 'x.markdown', 'd.md/a', 'd/a.md', 'a.', '-.md'.replace('-', '_'), 'a.md ', 'md', 'amd']
ENTRIES = ['module', 'cli', 'script', 'package']


def fixed():
    out = []
    for n in NAMES:
        for dump in (False, True):
            out.append(dict(name=n, text='# T\n\n<p>a *b* <em>c</em></p>\n\n    code\n', dump=dump, entry='module', process=dump))
    for e in ENTRIES:
        out.append(dict(name='a.md', text='*a*', dump=False, entry=e, process=True))
        out.append(dict(name='a.html', text='<p>a</p>', dump=True, entry=e, process=True))
    for f in ('missing', 'directory', 'bytes', 'noarg', 'nodest', 'badoption'):
        for n in ('a.md', 'a.html'):
            out.append(dict(name=n, text='x', dump=False, entry='module', process=True, fault=f, existing='old'))
            out.append(dict(name=n, text='x', dump=True, entry='module', process=True, fault=f, existing=None))
    out.append(dict(name='a.html', text='', dump=False, entry='module', process=True, existing='old old old'))
    out.append(dict(name='a.md', text='', dump=True, entry='module', process=True))
    out.append(dict(name='a.md', text='*a*\n', dump=False, entry='module', process=True, same=True))
    out.append(dict(name='a.html', text='<p>a</p>\r\n<pre>b\r\nc</pre>', dump=True, entry='module', process=True))
    return out


def inline(rng):
    words = [gen.word(rng) for _ in range(rng.randint(1, 25))]
    for k in range(len(words)):
        x = rng.random()
        if x < .15:
            w = words[k]
            words[k] = rng.choice(['*%s*', '**%s**', '`%s`', '[%s](http://h.org/x)', '[%s](/a/b.txt "t")', '![%s](i.png)', '<em>%s</em>', '%s[^1]', '&amp;%s', '\\*%s', '<%s>', '~~%s~~', 'http://%s', '%s  \n', 'HTML', '[%s][r]', '{%s}', '_%s_', '<http://%s.org>']).replace('%s', w)
    return ' '.join(words)


def markdown(rng):
    out = []
    if rng.random() < .15:
        out.append('title: x\nauthor: y z')
    for _ in range(rng.choice([1, 2, 4, 8])):
        x = rng.random()
        if x < .35:
            out.append(inline(rng))
        elif x < .45:
            out.append('#' * rng.randint(1, 6) + ' ' + inline(rng)[:40].replace('\n', ' '))
        elif x < .6:
            mark = rng.choice(['* ', '1. ', '- '])
            out.append('\n'.join(rng.choice(['', '', '    ']) + mark + inline(rng).replace('\n', ' ') for _ in range(rng.randint(1, 4))))
        elif x < .68:
            out.append('\n'.join('> ' + l for l in inline(rng).split('\n')))
        elif x < .8:
            lang, t = c18.source(rng)
            out.append(rng.choice(['```%s\n%s\n```' % (lang, t.replace('`', '')), '\n'.join('    ' + l for l in [':::' + lang] + t.split('\n')), '~~~\n%s\n~~~' % t.replace('~', '')]))
        elif x < .86:
            out.append('a | b\n--|--\n%s | d' % gen.word(rng))
        elif x < .9:
            out.append('term\n:   ' + inline(rng).replace('\n', ' '))
        elif x < .93:
            out.append('[^1]: note ' + gen.word(rng))
        elif x < .96:
            out.append('*[HTML]: abbr\n\n[r]: http://r.org "t"')
        else:
            out.append(rng.choice(['---', '<div markdown="1">\n*a*\n</div>', '<p>raw <b>x</b></p>', '<!-- c -->', '\ufeffx', '###', '* * *']))
    return '\n\n'.join(out) + rng.choice(['', '\n', '\n\n'])


def make(rng, i, tier):
    name = rng.choice(['a.md', 'a.html', rng.choice(NAMES)])
    x = rng.random()
    if name.endswith('.md') and x < .9 or x < .1:
        text = markdown(rng)
    elif x < .3:
        text = c01.damaged(rng)
    else:
        d = gen.Doc(rng, wrapped=.06, links=.2, images=.1, unknown=.05, special=.1, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, rng.choice([3, 20])), br=.05)
        text = gen.serialize(d.document(), rng, rng.choice([0, .5]))
        if rng.random() < .2:
            text += c18.tokens(rng).join(['<div class="highlight"><pre>', '</pre></div>'])
    text = ''.join(c for c in text if not '\ud800' <= c <= '\udfff')
    if rng.random() < .1:
        text = text.replace('\n', '\r\n')
    case = dict(name=name, text=text, dump=rng.random() < .3, entry=rng.choice(ENTRIES), process=i % 8 == 0)
    if rng.random() < .3:
        case['existing'] = rng.choice(['', 'old\n', 'x' * 20000])
    if rng.random() < .05:
        case['same'] = True
    if rng.random() < .3:
        case['absolute'] = True
    if rng.random() < .15:
        case['fault'] = rng.choice(['missing', 'directory', 'bytes', 'noarg', 'nodest', 'badoption'])
    case['order'] = rng.choice(['last', 'first', 'middle', 'long'])
    return case


def reference(text, is_markdown):
    """-> (html, rendering), straight from the packages"""
    real.load()
    from gopher_render import GopherHTMLParser, rendering
    from gopher_render.code_themes.iced_gopher import renderers
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    try:
        if is_markdown:
            import markdown as md
            text = md.Markdown(extensions=['markdown.extensions.codehilite', 'markdown.extensions.extra', 'markdown.extensions.meta'],
                               extension_configs={'markdown.extensions.codehilite': {'css_class': 'highlight'}}, output_format='html5').convert(text)
        p = GopherHTMLParser(output_format='text', gopher_host='my.gopher.com', box=rendering.Box(width=67, margin=[1, 0, 1, 0]), link_placement='footer', image_placement='inline', renderers=dict(renderers))
        with real.quiet():
            p.feed(text)
            p.close()
    except Exception as e:
        raise real.RealError(e)
    return text, p.parsed


def files(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for n in names:
            with open(os.path.join(base, n), 'rb') as f:
                out[os.path.relpath(os.path.join(base, n), d)] = f.read()
        for n in dirs:
            out.setdefault(os.path.relpath(os.path.join(base, n), d) + '/', b'')
    return out


ENTRY_CODE = {
    'script': 'from gopher_render.__main__ import main; main()',      # as setup.py names it
    'package': 'from gopher_render import main; main()',              # as pyproject.toml names it
}


def run(case, args, d, obs):
    """-> (exit status, standard output)"""
    if case.get('process'):
        obs.count('processes')
        if case['entry'] in ENTRY_CODE:
            cmd = [sys.executable, '-c', ENTRY_CODE[case['entry']]] + args
        else:
            cmd = [sys.executable, '-m', 'gopher_render' if case['entry'] == 'module' else 'gopher_render.cli'] + args
        env = dict(os.environ, PYTHONPATH=real.REPO)
        if env.get('PYTHONPYCACHEPREFIX'):
            env.pop('PYTHONDONTWRITEBYTECODE', None)   # the cache is this run's own, so never stale
        p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stdout
    obs.count('in-process runs')
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', newline='\n', write_through=True)
    argv, cwd = sys.argv, os.getcwd()
    os.chdir(d)
    status = 0
    try:
        sys.argv = ['gopher-render'] + args
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            if case['entry'] in ENTRY_CODE:
                exec(ENTRY_CODE[case['entry']], {})
            else:
                import warnings
                warnings.simplefilter('ignore')
                runpy.run_module('gopher_render' if case['entry'] == 'module' else 'gopher_render.cli', run_name='__main__', alter_sys=False)
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        from vlib.harness import TooLong
        if type(e).__name__ == TooLong.__name__:
            raise
        status = 1
    finally:
        sys.argv = argv
        os.chdir(cwd)
        out.flush()
    return status, raw.getvalue()


def judge(case, obs):
    real.load()
    d = tempfile.mkdtemp(prefix='verif-c23.')
    try:
        return inside(case, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inside(case, obs, d):
    name, fault = case['name'], case.get('fault')
    src = os.path.join(d, name)
    os.makedirs(os.path.dirname(src), exist_ok=True)
    data = case['text'].encode('utf-8', 'replace')
    if fault == 'bytes':
        data = data[:len(data) // 2] + b'\xff\xfe\x80' + data[len(data) // 2:]
    if fault == 'directory':
        os.makedirs(src)
    elif fault != 'missing':
        with open(src, 'wb') as f:
            f.write(data)
    with open(os.path.join(d, 'bystander.txt'), 'w') as f:
        f.write('untouched')
    dest = name if case.get('same') and not fault else 'out.txt'
    if case.get('existing') is not None and dest != name:
        with open(os.path.join(d, dest), 'w') as f:
            f.write(case['existing'])
        obs.count('replaced destinations')
    a, b = name, dest
    if case.get('absolute'):
        a, b = os.path.join(d, a), os.path.join(d, b)
    args = [a, b]
    if fault == 'noarg':
        args = []
    elif fault == 'nodest':
        args = [a]
    elif fault == 'badoption':
        args = [a, b, '--no-such-option']
    if case['dump']:
        flag = '--dump' if case.get('order') == 'long' else '-d'
        args.insert({'first': 0, 'middle': min(1, len(args))}.get(case.get('order'), len(args)), flag)
        obs.count('dumps')
    before = files(d)
    status, stdout = run(case, args, d, obs)
    after = files(d)
    if fault:
        obs.count('unreadable sources' if fault in ('missing', 'directory', 'bytes') else 'unusable command lines')
        if status == 0:
            return '%s source: the exit status is 0' % fault
        if after != before:
            return '%s source: the files have changed: %s' % (fault, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
        if fault in ('missing', 'directory', 'bytes') and stdout:
            return '%s source: something is printed: %r' % (fault, stdout[:200])
        return None
    is_md = os.path.splitext(os.path.basename(name))[1] == '.md'
    obs.count('markdown sources' if is_md else 'html sources')
    html, text = reference(data.decode('utf-8'), is_md)
    obs.nontrivial(text.strip() != '')
    if status != 0:
        return 'the exit status is %s for %r' % (status, case['text'][:300])
    want = ((html + '\n') if case['dump'] else '') + text + '\n'
    if stdout != want.encode('utf-8', 'replace'):
        from vlib import oracle
        return 'standard output: ' + str(oracle.first_difference(want, stdout.decode('utf-8', 'replace')))
    written = after.get(dest)
    if written != text.encode('utf-8', 'replace'):
        from vlib import oracle
        return 'destination file: ' + ('not written' if written is None else str(oracle.first_difference(text, written.decode('utf-8', 'replace'))))
    before[dest] = after[dest]
    if before != after:
        return 'other files have changed: %s' % sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    return None
