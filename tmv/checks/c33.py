"""C33: progress, time and plots show the data they are given."""
import contextlib
import io
import os
import re
import subprocess
import sys
import time

import numpy as np

from .. import core

PROPERTY = 'C33'
RULE = ('progress bars, belief plots, average and box plots are drawn for random data and options and read back from the '
        'printed text and from the drawn artists; the measured time of real processes is compared with the clock, and '
        'that of long-running ones is read through a stand-in for ps printing every format. Non-trivial: distinct data.')
ASSUMPTIONS = ['artists are read back through the public interface of matplotlib',
               'termcolor is not installed: bars are printed without colours']


def run(ctx):
    ctx.cases('bars', ctx.n(2000, 20000), bars)
    ctx.cases('elapsed', ctx.n(300, 3000), elapsed)
    ctx.cases('processes', ctx.n(6, 24), processes)
    ctx.cases('beliefs', ctx.n(100, 1000), beliefs)
    ctx.cases('averages', ctx.n(100, 1000), averages)
    ctx.cases('meshes', ctx.n(60, 600), meshes)
    ctx.cases('axes', ctx.n(60, 600), axes)
    for k in ('bars', 'elapsed', 'cells', 'averages'):
        ctx.require(k, 100)
    ctx.require('real processes', 4)


def printed(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **k)
    return out.getvalue()


def screen(texts):
    """What a terminal line shows after the texts (lines that were left, current line)."""
    lines, line, pos = [], [], 0
    for c in ''.join(texts):
        if c == '\r':
            pos = 0
        elif c == '\n':
            lines.append(''.join(line))
            line, pos = [], 0
        else:
            line[pos:pos + 1] = [c]
            pos += 1
    return lines, ''.join(line)


def bars(case):
    from task_models.utils.term import progress_bar, print_progress_bar, clear_progress_bar
    r = case.rng
    todo = r.choice([1, 2, 3, 7, 10, 12, 100, 999, 1000, 12345, 10 ** 6])
    done = r.choice([0, todo, r.randint(0, todo), r.randint(0, todo), max(0, todo - 1)])
    kw = {}
    if r.random() < .5:
        kw['size'] = r.choice([1, 10, 37, 50, 80])
    count = True
    if r.random() < .5:
        count = kw['count'] = r.random() < .5
    size = kw.get('size', 50)
    s = progress_bar(done, todo, **kw)
    case.note(done=done, todo=todo, bar=s, **kw)
    case.key(done, todo, size, count)
    m = re.match(r'^\[(#*)(\.*) +(\d+)%\] *(.*?) *$', s)
    case.check(m, 'not a progress bar: {!r}', s)
    case.equal(len(m.group(1)), size * done // todo, 'marks of a bar of size {} for {}/{}'.format(size, done, todo))
    case.equal(len(m.group(1)) + len(m.group(2)), size, 'size of the bar')
    case.equal(int(m.group(3)), 100 * done // todo, 'percentage for {}/{}'.format(done, todo))
    if count:
        n = re.match(r'^([\d,]+) */ *([\d,]+)$', m.group(4))
        case.check(n, 'no counts in {!r}', s)
        case.equal([int(x.replace(',', '')) for x in n.groups()], [done, todo], 'counts')
        # widths agree, so that the bar does not move, and are not larger than needed
        case.equal(len(s), len(progress_bar(todo, todo, **kw)), 'length of the bar')
        case.check(len(s) < size + 20 + 3 * len(str(todo)), 'the bar has {} characters', len(s))
    else:
        case.equal(m.group(4), '', 'counts')
    prefix = r.choice(['', 'Working: ', 'é'])
    if prefix or r.random() < .5:
        kw['prefix'] = prefix
    if r.random() < .3:
        kw['color'] = 'green'
    out = printed(print_progress_bar, done, todo, **kw)
    lines, line = screen([out])
    case.equal(([line] if done < todo else lines), [prefix + s], 'printed bar')
    case.check((lines == []) if done < todo else (line == ''), 'printed {!r} for {}/{}', out, done, todo)
    case.equal(printed(print_progress_bar, todo + r.randint(1, 5), todo, **kw), '', 'printed after the end')
    if done < todo:
        lines, line = screen([out, printed(clear_progress_bar, done, todo, **kw)])
        case.equal((lines, line.strip()), ([], ''), 'the line after clearing')
        lines, line = screen([out, printed(clear_progress_bar, done, todo, **kw), 'x'])
        case.equal(line.strip(), 'x', 'text written after clearing')
        case.event('cleared')
    case.event('bars')


FAKE_PS = '''#!/bin/sh
# stand-in: prints the elapsed time given in TMV_ETIME for the process asked for
echo "$@" >> "$TMV_PS_LOG"
case "$*" in
  *etimes*) echo "  $TMV_ETIMES" ;;
  *etime*) echo "$TMV_ETIME" ;;
  *) exit 1 ;;
esac
'''


def elapsed(case):
    from task_models.utils.multiprocess import get_process_elapsed_time
    r = case.rng
    d, h, m, s = (r.choice([0, 0, r.randint(1, 400)]), r.choice([0, r.randint(0, 23)]), r.randint(0, 59), r.randint(0, 59))
    text = '{:02d}:{:02d}'.format(m, s)
    if h or d:
        text = '{:02d}:'.format(h) + text
    if d:
        text = '{}-'.format(d) + text
    total = ((d * 24 + h) * 60 + m) * 60 + s
    base = os.path.join(case.ctx.scratch, 'ps{}'.format(os.getpid()))
    if not os.path.exists(base):
        os.mkdir(base)
        with open(os.path.join(base, 'ps'), 'w') as f:
            f.write(FAKE_PS)
        os.chmod(os.path.join(base, 'ps'), 0o755)
    log = os.path.join(base, 'log')
    open(log, 'w').close()
    before = dict(os.environ)
    pid = r.choice([None, os.getpid(), os.getppid()])
    try:
        os.environ.update(PATH=base + os.pathsep + before['PATH'], TMV_PS_LOG=log, TMV_ETIMES=str(total),
                          TMV_ETIME=text.rjust(r.choice([0, 11, 15])))
        t = get_process_elapsed_time(*([] if pid is None else [pid]))
    finally:
        os.environ.clear()
        os.environ.update(before)
    asked = open(log).read()
    if not asked:       # measured in another way: nothing to read
        case.event('elapsed')
        return
    case.check(re.search(r'\b{}\b'.format(pid or os.getpid()), asked), 'asked for {!r}, not for process {}', asked,
               pid or os.getpid())
    case.equal(t.total_seconds(), float(total), 'elapsed time of {!r}'.format(text))
    case.key(text)
    case.event('elapsed')


def processes(case):
    from task_models.utils.multiprocess import get_process_elapsed_time
    t0 = time.time()
    p = subprocess.Popen(['sleep', '60'])
    try:
        t1 = time.time()
        time.sleep(case.rng.choice([0., .5, 1.2, 2.3]))
        low = time.time() - t1
        t = get_process_elapsed_time(p.pid).total_seconds()
        high = time.time() - t0
        case.check(low - 1.1 <= t <= high + 1.1, 'process measured {} s when it has run for {:.2f}', t, low)
        t2 = time.time()
        mine = get_process_elapsed_time().total_seconds()
        case.check(mine >= t - 1.1, 'this process measured {} s, its child {}', mine, t)
        again = get_process_elapsed_time(os.getpid()).total_seconds()
        case.check(-1.1 <= again - mine <= time.time() - t2 + 1.1, 'this process measured {} s, then {} s', mine, again)
    finally:
        p.kill()
        p.wait()
    case.key(case.index)
    case.event('real processes')


def look(ax):
    return (len(ax.get_children()), ax.get_legend() is None, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
            ax.get_xlim(), ax.get_ylim(), ax.xaxis.get_ticks_position(), ax.yaxis.get_ticks_position(),
            [(k, v.get_visible(), v.get_linewidth()) for k, v in sorted(ax.spines.items())])


@contextlib.contextmanager
def figure(case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    fig = plt.figure()
    other = fig.add_subplot(1, 2, 1)
    ax = fig.add_subplot(1, 2, 2)
    current = ax if case.rng.random() < .5 else other
    plt.sca(current)
    kw = {} if current is ax else {'ax': ax}
    before = look(other)
    try:
        yield ax, kw
        case.equal(look(other), before, 'what is on the other axes')
    finally:
        plt.close(fig)


def mesh_cells(case, ax, mesh, array, what):
    case.check(mesh in ax.get_children(), '{} was drawn elsewhere', what)
    got = np.asarray(mesh.get_array(), dtype=float).reshape(array.shape)
    case.close(got, array, what, 1e-12)
    xy = np.asarray(mesh._coordinates if hasattr(mesh, '_coordinates') else mesh.get_coordinates())
    case.equal(xy.shape[:2], (array.shape[0] + 1, array.shape[1] + 1), 'grid of ' + what)
    case.close(xy[0, :, 0], np.arange(array.shape[1] + 1), 'columns of ' + what)
    case.close(xy[:, 0, 1], np.arange(array.shape[0] + 1), 'rows of ' + what)
    case.close(ax.get_xlim(), [0, array.shape[1]], 'horizontal limits of ' + what)
    case.close(ax.get_ylim(), [0, array.shape[0]], 'vertical limits of ' + what)
    case.event('cells', array.size)


def tick_labels(axis):
    return [(round(float(p), 6), t.get_text()) for p, t in zip(axis.get_ticklocs(), axis.get_ticklabels())]


def beliefs(case):
    from task_models.plot import plot_beliefs
    r = case.rng
    n, m = r.choice([(r.randint(1, 6), r.randint(1, 8)), (r.randint(7, 30), r.randint(1, 4)), (2, r.randint(9, 30))])
    array = case.np.dirichlet(np.ones(m), size=n)
    states = ['s-{}'.format(i) for i in case.np.permutation(m)]
    rows = ['b {}'.format(i) for i in case.np.permutation(n)]
    with figure(case) as (ax, kw):
        if r.random() < .6:
            kw['states'] = states
        if r.random() < .6:
            kw['ylabels'] = rows
        if r.random() < .3:
            kw['xlabels_rotation'] = 45
        if r.random() < .3:
            kw['cmap'] = 'viridis'
        given = array.copy()
        mesh = plot_beliefs(given, **kw)
        case.check((given == array).all(), 'the beliefs were changed')
        mesh_cells(case, ax, mesh, array, 'beliefs')
        case.equal(mesh.get_cmap().name, kw.get('cmap', 'Blues'), 'colours')
        case.equal(tick_labels(ax.xaxis), [(i + .5, str(x)) for i, x in enumerate(
            kw.get('states', list(range(m))))], 'labels of the states')
        case.equal(tick_labels(ax.yaxis), [(i + .5, str(x)) for i, x in enumerate(
            kw.get('ylabels', list(range(n))))], 'labels of the beliefs')
        if 'xlabels_rotation' in kw:
            case.equal({t.get_rotation() for t in ax.get_xticklabels()}, {45.}, 'rotation')
        case.key(array.tolist(), sorted(kw))
        case.raises((AssertionError, ValueError), lambda: plot_beliefs(array, **dict(kw, states=states + ['more'])),
                    'wrong number of states')
        case.raises((AssertionError, ValueError), lambda: plot_beliefs(array, **dict(kw, ylabels=rows[1:])),
                    'wrong number of labels')


def averages(case):
    from task_models.utils.plot import plot_var, plot
    import matplotlib.collections as mc
    r = case.rng
    n, k = r.randint(2, 8), r.choice([1, 2, 3, 4, 5, 6, 11, 30])
    y = case.np.randn(n, k) * r.choice([1., 100.])
    x = case.np.rand(n) * 10
    if r.random() < .7:
        x.sort()
    mean = [sum(map(float, row)) / k for row in y]
    std = [(sum((float(v) - m) ** 2 for v in row) / k) ** .5 for row, m in zip(y, mean)]
    case.key(y.tolist())
    with figure(case) as (ax, kw):
        style = r.choice(['fill', 'bar', 'both', None, 'none'])
        if r.random() < .6:
            kw['x'] = x
        if style == 'none':
            kw['var'] = False
        elif style is not None:
            kw['var_style'] = style
        if r.random() < .5:
            kw['color'] = '#ED1B23'
        if r.random() < .5:
            kw['label'] = 'curve'
        lines = plot_var(y, **kw)
        curve = [l for l in ax.get_lines() if len(l.get_xdata()) == n and np.allclose(l.get_ydata(), mean)]
        case.check(len(curve) >= 1, 'no curve of the means: {}', [l.get_ydata() for l in ax.get_lines()])
        case.close(curve[0].get_xdata(), kw.get('x', np.arange(n)), 'abscisses of the curve')
        case.check(lines[0] is curve[0], 'returned {}', lines)
        if 'color' in kw:
            case.equal(str(curve[0].get_color()).lower(), '#ed1b23', 'colour of the curve')
        areas = [c for c in ax.collections if isinstance(c, mc.PolyCollection)]
        bar = [c for c in ax.collections if isinstance(c, mc.LineCollection)]
        case.equal(len(areas), int(style in ('fill', 'both', None)), 'number of areas ({})'.format(style))
        case.equal(len(bar), int(style in ('bar', 'both')), 'number of error bars ({})'.format(style))
        ends = sorted((round(float(u), 7), round(float(v), 7)) for u, m, s in zip(kw.get('x', np.arange(n)), mean, std)
                      for v in (m - s, m + s))
        for a in areas:
            got = {(round(float(u), 7), round(float(v), 7)) for u, v in a.get_paths()[0].vertices}
            far = [e for e in ends if not any(abs(e[0] - g[0]) < 1e-6 and abs(e[1] - g[1]) < 1e-6 for g in got)]
            off = [g for g in got if not any(abs(e[0] - g[0]) < 1e-6 and abs(e[1] - g[1]) < 1e-6 for e in ends)]
            case.check(not far and not off, 'the area misses {} and includes {}', far[:3], off[:3])
        for b in bar:
            got = sorted((round(float(u), 7), round(float(v), 7)) for seg in b.get_segments() for u, v in seg)
            case.close(got, ends, 'error bars', 1e-6)
        hidden(case, ax, ['top', 'right'])
        case.event('averages')
    with figure(case) as (ax, kw):
        lines = plot(x, mean, **kw)
        case.close(lines[0].get_xdata(), x, 'plotted abscisses')
        case.close(lines[0].get_ydata(), mean, 'plotted values')
        case.check(lines[0] in ax.get_lines(), 'plotted elsewhere')
        hidden(case, ax, ['top', 'right'])


def hidden(case, ax, names):
    for s in ('top', 'right', 'bottom', 'left'):
        case.equal(ax.spines[s].get_visible(), s not in names, 'visibility of the {} side'.format(s))


def meshes(case):
    from task_models.utils.plot import pcolormesh, get_n_colors, boxplot
    r = case.rng
    n, m = r.randint(1, 6), r.randint(1, 6)
    sign = r.choice(['+', '-', '0'])
    array = case.np.rand(n, m) + .01
    if sign == '-':
        array = -array
    elif sign == '0':
        array = np.vstack([array, -array])
    case.key(array.tolist())
    with figure(case) as (ax, kw):
        labels = ['c{}'.format(i) for i in range(array.shape[1])]
        if r.random() < .5:
            kw['xticklabels'] = labels
        if r.random() < .5:
            kw['yticklabels'] = ['r{}'.format(i) for i in range(array.shape[0])]
        mesh = pcolormesh(array, **kw)
        mesh_cells(case, ax, mesh, array, 'mesh')
        case.equal(mesh.get_cmap().name, {'+': 'Reds', '-': 'Blues', '0': 'Blues_r'}[sign], 'colours')
        for k, axis in (('xticklabels', ax.xaxis), ('yticklabels', ax.yaxis)):
            if k in kw:
                case.equal(tick_labels(axis), [(i + .5, x) for i, x in enumerate(kw[k])], k)
        hidden(case, ax, ['top', 'right', 'bottom', 'left'])
    k = r.randint(1, 7)
    import matplotlib.pyplot as plt
    got = get_n_colors(k, color_map=plt.cm.viridis)
    case.equal(got, [plt.cm.viridis(i / float(k)) for i in range(k)], 'colours of {}'.format(k))
    with figure(case) as (ax, kw):
        data = [case.np.randn(r.randint(3, 12)) for _ in range(r.randint(1, 4))]
        names = ['box {}'.format(i) for i in range(len(data))]
        if r.random() < .6:
            kw['xticklabels'] = names
        if r.random() < .5:
            kw['color'] = '#00ff00'
        bp = boxplot(data, **kw)
        case.equal(len(bp['medians']), len(data), 'number of boxes')
        for d, line in zip(data, bp['medians']):
            s = sorted(map(float, d))
            h = len(s) // 2
            case.close(line.get_ydata(), [s[h] if len(s) % 2 else (s[h - 1] + s[h]) / 2.] * 2, 'median of {}'.format(s))
            case.equal(str(line.get_color()).lower(), '#ed1b23', 'colour of the medians')
        case.equal({str(b.get_color()).lower() for b in bp['boxes']}, {kw.get('color', '#2463a4').lower()},
                   'colour of the boxes')
        if 'xticklabels' in kw:
            case.equal([t.get_text() for t in ax.get_xticklabels()], names, 'labels of the boxes')
        hidden(case, ax, ['top', 'right', 'bottom'])


def axes(case):
    from task_models.utils.plot import remove_chartjunk, legend
    r = case.rng
    spines = [s for s in ('top', 'right', 'bottom', 'left') if r.random() < .5]
    case.key(spines, case.index)
    with figure(case) as (ax, kw):
        ax.plot([0, 1, 2], [3, 4, 5], label='first')
        ax.set_xticks([0, 1])
        ax.set_xticklabels(['a', 'b'])
        ax.set_yticks([3, 4])
        ax.set_yticklabels(['c', 'd'])
        opts = {}
        for k in ('ticks', 'ticklabels', 'grid'):
            if r.random() < .6:
                opts[k] = r.choice(['x', 'y', ['x', 'y'], ['x'], ['y']])
        remove_chartjunk(ax, spines, **opts)
        hidden(case, ax, spines)
        for axis, name, was in ((ax.xaxis, 'x', ['a', 'b']), (ax.yaxis, 'y', ['c', 'd'])):
            texts = [t.get_text() for t in axis.get_ticklabels()]
            if name in opts.get('ticklabels', []):
                case.check(not any(texts), 'labels left on {}: {} ({})', name, texts, opts)
            else:
                case.equal(texts, was, 'labels of {} ({})'.format(name, opts))
            if 'ticks' in opts:
                shown = any(l.get_visible() for t in axis.get_major_ticks() for l in (t.tick1line, t.tick2line))
                case.equal(shown, name not in opts['ticks'], 'ticks of {} shown ({})'.format(name, opts))
            shown = any(t.gridline.get_visible() for t in axis.get_major_ticks())
            case.equal(shown, name in opts.get('grid', []), 'grid lines along {} shown ({})'.format(name, opts))
        case.event('axes')
        if r.random() < .5:
            if kw and r.random() < .5:
                kw['fig'] = ax.figure       # the axes are preferred
            l = legend(**kw)
            case.equal([t.get_text() for t in l.get_texts()], ['first'], 'legend')
            case.check(ax.get_legend() is l, 'legend drawn elsewhere')
