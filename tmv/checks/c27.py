"""C27: the scripted supportive policy completes the task."""

PROPERTY = 'C27'
RULE = ('the scripted policy (and the variants of the shipped experiments) driven by random admissible and unexpected '
        'observation sequences with resets at any time, against a pointer in the list of phases; several policies of one '
        'model are interleaved; and played on the simulator until the final state. Non-trivial: distinct (task, sequence).')
ASSUMPTIONS = []

TOOLS = ['screws', 'screwdriver', 'joints']


def run(ctx):
    ctx.cases('scripts', ctx.n(6000, 40000), scripts)
    ctx.cases('simulated', ctx.n(1600, 8000), simulated)
    for e, m in (('steps', 20000), ('observed none', 5000), ('observed fail', 3000), ('observed not-found', 2000),
                 ('unexpected', 1000), ('unknown observation', 200), ('too early', 300), ('reset', 1000),
                 ('script finished', 200), ('simulated to the end', 300), ('simulated failures', 300),
                 ('variant length', 100), ('asked again', 500), ('failure in a tail', 300)):
        ctx.require(e, m if not ctx.only else 0)


def task(case, n, simulated=False):
    """A task of n steps which involve the tools and the leg."""
    from task_models.supportive import (SupportivePOMDP, AssembleLeg, AssembleFoot, AssembleTopJoint,
                                        AssembleLegToTop, BringTop)
    from task_models.task import LeafCombination, SequentialCombination, AlternativeCombination, ParallelCombination
    r = case.rng
    makers = [lambda: AssembleLeg('leg-{}'.format(r.randrange(9))), lambda: AssembleFoot('leg'),
              lambda: AssembleTopJoint('leg'), lambda: AssembleLegToTop('leg', bring_top=r.random() < .5), BringTop]
    steps = [makers[r.choice([0, 0, 0, 1, 2, 3, 4])]() for _ in range(n)]
    steps[r.randrange(n)] = makers[r.choice([0, 1])]()       # so that all tools and the leg matter
    leaves = [LeafCombination(s) for s in steps]
    if n == 1:
        htm = leaves[0]
    elif simulated or r.random() < .7:
        htm = SequentialCombination(leaves, name='all')
        if n > 2 and r.random() < .4:
            htm = SequentialCombination([leaves[0], SequentialCombination(leaves[1:], name='rest')], name='all')
    else:
        k = r.randint(1, n - 1)
        htm = r.choice([AlternativeCombination, SequentialCombination])(
            [SequentialCombination(leaves[:k], name='x') if k > 1 else leaves[0],
             ParallelCombination(leaves[k:], name='y') if 1 < n - k < 4 else
             (SequentialCombination(leaves[k:], name='y') if n - k > 1 else leaves[k])], name='all')
    return SupportivePOMDP(htm)


class Script(object):
    """Reference: a pointer in the list of phases."""

    def __init__(self, n, support):
        self.phases = [['bring ' + t] for t in TOOLS]
        for _ in range(n):
            self.phases += [['bring leg'], support]
        self.phases += [['clear ' + t] for t in TOOLS]
        self.support = support
        self.first_support = len(TOOLS) + 1
        self.at = 0

    def offered(self):
        return self.phases[self.at] if self.at < len(self.phases) else ['wait']

    def in_support(self):
        return self.at < len(self.phases) and self.phases[self.at] is self.support

    def expected(self, o):
        """Whether the observation may occur now."""
        if o == 'fail' or o == 'none':
            return True
        if o == 'not-found':
            return not self.in_support()
        return False

    def observe(self, o):
        if o != 'fail' and self.at < len(self.phases):
            self.at += 1

    def finished(self):
        return self.at >= len(self.phases)


def policy(case, model):
    """(policy, supporting actions, number of steps)"""
    from task_models.policy import PolicyLongSupportiveSequence
    kind = case.rng.choice(['plain', 'plain', 'both', 'wait', 'length'])
    pol = PolicyLongSupportiveSequence(model)
    if not hasattr(pol, '_a_next_list') and kind in ('both', 'wait'):
        kind = 'plain'      # the attribute the shipped jobs set has another name: nothing to vary
    n = model.n_htm_states - 2
    support = ['hold H']
    if kind == 'both':
        pol._a_next_list = [model.actions.index('hold H'), model.actions.index('hold V')]
        support = ['hold H', 'hold V']
    elif kind == 'wait':
        pol._a_next_list = [model.actions.index('wait')]
        support = ['wait']
    elif kind == 'length':
        n = pol.n_tasks = case.rng.randint(0, 5)
    case.event('variant ' + kind)
    return pol, support, n


class Player(object):

    def __init__(self, case, model):
        self.case, self.model = case, model
        self.pol, self.support, self.n = policy(case, model)
        self.log = []
        self.restart()

    def restart(self):
        self.ref = Script(self.n, self.support)
        self.history = []
        self.last = None

    def get(self, *args, **kw):
        case = self.case
        a = self.pol.get_action(*args, **kw)
        case.check(a in self.model.actions, 'unknown action {} is offered', a)
        case.check(a in self.ref.offered(), 'offered {} instead of {} after {}', a, self.ref.offered(), self.log[-60:])
        self.last = a
        return a

    def tell(self, o):
        case, ref = self.case, self.ref
        self.log.append((self.last, o))
        if o not in self.model.observations:
            case.raises(ValueError, lambda: self.pol.step(o), 'unknown observation {}'.format(o))
            case.event('unknown observation')
        elif ref.expected(o):
            self.pol.step(o)
            if self.history is not None:
                self.history += [self.model.actions.index(self.last), self.model.observations.index(o)]
                case.equal([int(x) for x in self.pol.history], self.history, 'history')
            ref.observe(o)
            case.event('observed ' + o)
            if o == 'fail' and ref.at > len(TOOLS) + 2 * self.n:
                case.event('failure in a tail')
        else:
            case.raises(self.pol.UnexpectedObservation, lambda: self.pol.step(o),
                        'observation {} after {}'.format(o, self.last))
            self.history = None
            case.event('unexpected')
        case.event('steps')

    def reset(self):
        self.pol.reset()
        self.restart()
        self.log.append('reset')
        self.case.event('reset')


def scripts(case):
    r = case.rng
    model = task(case, r.choice([1, 1, 2, 3, 4, 6, 6, r.randint(7, 25)]))
    case.reseed_global('play')
    players = [Player(case, model) for _ in range(r.choice([1, 1, 2]))]
    case.note(task=[n.name for n in model.htm_nodes], lengths=[p.n for p in players],
              supports=[p.support for p in players])
    case.equal(players[0].pol.model, model, 'model of the policy')
    case.equal(list(players[0].pol.actions), list(model.actions), 'actions of the policy')
    case.equal(list(players[0].pol.observations), list(model.observations), 'observations of the policy')
    weights = r.choice([(8, 1, 1, 0, 0), (4, 4, 1, 0, 0), (3, 1, 4, 0, 0), (6, 1, 1, 1, 1), (6, 2, 1, .3, .1), (1, 0, 0, 0, 0)])
    p_reset = r.choice([0., 0., .02, .1])
    for p in players:
        if r.random() < .4:
            case.raises(ValueError, lambda: p.pol.step(r.choice(model.observations)), 'observation before any action')
            case.event('too early')
    for _ in range(r.choice([10, 40, 80, 80, 200])):
        p = r.choice(players)
        if r.random() < p_reset:
            p.reset()
            if r.random() < .5:
                case.raises(ValueError, lambda: p.pol.step('none'), 'observation before any action of the episode')
                case.event('too early')
        p.get(*([] if r.random() < .7 else [r.choice([None, 10])]))
        if r.random() < .1:
            p.get()
            case.event('asked again')
        o = r.choices(['none', 'fail', 'not-found', 'yes/no', 'unknown'], weights)[0]
        if o == 'yes/no':
            o = r.choice(['yes', 'no'])
        elif o == 'not-found' and p.last == 'wait':
            o = 'none'          # never observed after waiting
        elif o == 'unknown':
            o = r.choice(['bogus', 'None', '', 'no-ne'])
        p.tell(o)
    for p in players:
        if p.ref.finished():
            case.event('script finished')
    case.key([n.name for n in model.htm_nodes], [p.log for p in players])


def simulated(case):
    r = case.rng
    model = task(case, r.choice([1, 2, 3, 5, r.randint(6, 20)]), simulated=True)
    model.p_preferences = [r.choice([1., 1., 0., .5])]
    model.p_changed_by_human = r.choice([0., 0., .01, .1])
    model.p_change_preference = r.choice([0., 0., .05])
    model.p_fail = r.choice([0., .01, .3])
    case.reseed_global('play')
    pl = Player(case, model)
    if pl.n < model.n_htm_states - 2:
        # A script of fewer steps than the task cannot complete it; one of more steps goes on failing
        pl.pol.n_tasks = pl.n = model.n_htm_states - 2
        pl.pol.reset()
        pl.restart()
    if pl.n != model.n_htm_states - 2:
        return
    case.note(task=[n.name for n in model.htm_nodes], support=pl.support, p=[model.p_preferences,
              model.p_changed_by_human, model.p_change_preference, model.p_fail])
    s = int(model.sample_start())
    trace = []
    for i in range(60000):
        a = model.actions.index(pl.get())
        s, o, _ = model.sample_transition(a, s)
        trace.append((a, o))
        o = model.observations[o]
        if o == 'fail':
            case.event('simulated failures')
        pl.tell(o) if i < 300 else (pl.pol.step(o), pl.ref.observe(o))
        if model.is_final(s):
            break
    case.check(model.is_final(s), 'the task is not completed after {} steps: {}', len(trace), trace[-10:])
    case.check(pl.ref.finished(), 'the task is complete before the end of the script')
    case.check(trace.count((model.actions.index('wait'), 0)) >= 1, 'the task is complete without a final wait')
    leftover = [o for k, o in enumerate(model.objects) if o in TOOLS and model._int_to_state(s).has_object(k)]
    if model.p_changed_by_human == 0:
        case.equal(leftover, [], 'tools left after the task')
    for _ in range(3):       # and nothing happens any more
        case.equal(pl.get(), 'wait', 'action in the final state')
        s, o, _ = model.sample_transition(model.A_WAIT, s)
        pl.pol.step(model.observations[o])
        case.check(model.is_final(s), 'the final state is left')
    case.event('simulated to the end')
    case.key([n.name for n in model.htm_nodes], trace)
