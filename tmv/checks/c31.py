"""C31: independent uses of the library do not interfere."""
from .. import sessions
from .c30 import compare

PROPERTY = 'C31'
RULE = ('several sessions (planners of every kind of belief, simulations, filters, policy runners, evaluations, '
        'conversions, expansions, graph searches), some of them over the very same model object, are interleaved step '
        'by step in a random order, each with its own random stream; each must show exactly what it shows when run '
        'alone over its own models. Non-trivial: distinct (sessions, order).')


def run(ctx):
    ctx.cases('interleaved', ctx.n(110, 4000), interleaved)
    ctx.cases('planners', ctx.n(110, 4000), planners)
    ctx.require('steps compared', 4000)
    ctx.require('switches', 2500)
    ctx.require('models used by several sessions', 80)


def together(case, todo, world):
    r = case.rng

    def run():
        running = [sessions.Running(k, n, world) for k, n in todo]
        order = []
        live = list(range(len(running)))
        while live:
            i = r.choice(live)
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                running[i].advance()
                order.append(i)
                if running[i].done:
                    live.remove(i)
                    break
        return [order, [s.trace for s in running], len(world.models or ())]

    order, traces, models = sessions.isolated(run)
    case.event('switches', sum(a != b for a, b in zip(order, order[1:])))
    if models:
        case.event('models used by several sessions', models)
    case.key(todo, order)
    case.note(sessions=todo, order=order)
    for (k, n), trace in zip(todo, traces):
        compare(case, k, n, trace, sessions.isolated(lambda: sessions.alone(k, n)), 'interleaved with others')


def interleaved(case):
    r = case.rng
    kinds = sorted(sessions.KINDS)
    shared = r.random() < .5
    base = 100 * r.randrange(10 ** 4)
    todo = [(r.choice(kinds), (base if shared else 100 * r.randrange(10 ** 4)) + r.randrange(100))
            for _ in range(r.randint(2, 5))]
    together(case, todo, sessions.World({} if shared else None))


def planners(case):
    """Several users of one model."""
    r = case.rng
    base = 100 * r.randrange(10 ** 4)
    kinds = r.choice([['plan', 'plan_shared', 'plan_particles', 'simulate', 'filter', 'runner'],
                      ['plan_supportive', 'supportive', 'evaluation'], ['plan_collaboration', 'collaboration'],
                      ['plan_shared'], ['plan_particles'], ['plan_supportive'], ['scripted'],
                      ['plan', 'plan_particles'], ['runner'], ['runner', 'simulate', 'filter'],
                      ['expand', 'convert'], ['supportive', 'plan_supportive', 'repeat']])
    todo = [(r.choice(kinds), base + r.randrange(100)) for _ in range(r.randint(2, 4))]
    together(case, todo, sessions.World({}))
