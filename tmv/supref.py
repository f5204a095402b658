"""Independent reference of the supportive human-robot process, in terms of names and plain tuples.

A described state is (step, prefs, body, objs): step is a step name, 'clean' or 'final'; prefs and objs are tuples of
0/1, body is 0/1 as well. outcomes() enumerates the exact distribution of (described state, observation name, reward).
"""
import itertools

CONSUMES, USES, SOME = 'consumes', 'uses', 'consumes-some'


class Process(object):

    def __init__(self, steps, succs, objects, clearable, params, n_prefs=1):
        """steps: {name: (hold, [(condition, object)])}, succs: {name: {name or 'clean': probability}}"""
        self.steps, self.succs, self.objects, self.clearable = steps, succs, list(objects), set(clearable)
        self.p = params
        self.n_prefs = n_prefs
        self.cache = {}

    def actions(self):
        out = ['wait', 'hold H', 'hold V', 'ask hold']
        for o in self.objects:
            out.append('bring ' + o)
            if o in self.clearable:
                out.append('clear ' + o)
        return out

    def outcomes(self, action, state, random):
        """{(state, observation, reward rounded to 9 digits): probability}"""
        k = (action, state, random)
        if k not in self.cache:
            if len(self.cache) > 5000:
                self.cache.clear()
            self.cache[k] = self._outcomes(*k)
        return self.cache[k]

    def _outcomes(self, action, state, random):
        step, prefs, body, objs = state
        out = {}
        if random:
            pc, pp = self.p['p_changed_by_human'], self.p['p_change_preference']
        else:
            pc = pp = 0.
        flips = list(zip(prefs + objs, [pp] * len(prefs) + [pc] * len(objs)))
        for bits in itertools.product(*[[f for f in ((b, 1 - q), (1 - b, q)) if f[1] > 0] for b, q in flips]):
            w = 1.
            for _, q in bits:
                w *= q
            if w <= 0:
                continue
            v = tuple(b for b, _ in bits)
            for res, q in self._act(action, step, v[:len(prefs)], body, v[len(prefs):], random):
                if q > 0:
                    s, o, r = res
                    key = (s, o, round(float(r), 9) + 0.)
                    out[key] = out.get(key, 0.) + w * q
        return out

    def _act(self, action, step, prefs, body, objs, random):
        P = self.p
        same = (step, prefs, body, objs)
        if action == 'ask hold':
            r = -P['cost_intrinsic']
            ans, q = ('yes', .9) if prefs[0] else ('no', .95)
            if not random:
                q = 1.
            return [((same, ans, r), q), ((same, 'none', r), 1 - q)]
        if action.startswith(('bring ', 'clear ')):
            verb, o = action.split(' ', 1)
            i = self.objects.index(o)
            want = 1 if verb == 'bring' else 0
            r = -P['cost_intrinsic']
            if objs[i] == want:
                return [((same, 'not-found', r), 1.)]
            f = P['p_fail'] if random else 0.
            new = objs[:i] + (want,) + objs[i + 1:]
            return [((same, 'fail', r), f), (((step, prefs, body, new), 'none', r), 1 - f)]
        r = 0. if action == 'wait' else -P['cost_hold']
        if step == 'final':
            return [((same, 'none', r), 1.)]
        if step == 'clean':
            if action != 'wait':
                return [((same, 'fail', r), 1.)]
            r += P['r_final'] - P['cost_get'] * sum(objs)
            return [((('final', prefs, body, objs), 'none', r), 1.)]
        hold, conditions = self.steps[step]
        out = []
        go = 1.
        if action != 'wait':
            if prefs[0] and {'h': 'hold H', 'v': 'hold V', None: None}[hold] == action:
                r += P['r_preference']
            else:
                go = .02 if random else 0.
                out.append(((same, 'fail', r), 1 - go))
        if go > 0:
            r += P['r_subtask']
            if P['reward_independent_preference'] and not prefs[0]:
                r += P['r_preference'] - P['cost_hold']
            branches = [(objs, r, go)]
            for c, o in conditions:
                i = self.objects.index(o)
                nxt = []
                for ob, rr, q in branches:
                    rr -= 0. if ob[i] else P['cost_get']
                    keep = ob[:i] + (1,) + ob[i + 1:]
                    lose = ob[:i] + (0,) + ob[i + 1:]
                    if c == USES:
                        nxt.append((keep, rr, q))
                    elif c == CONSUMES:
                        nxt.append((lose, rr, q))
                    else:
                        nxt.append((keep, rr, q * (1 - P['p_consume_all'])))
                        nxt.append((lose, rr, q * P['p_consume_all']))
                branches = nxt
            for ob, rr, q in branches:
                for s2, p2 in self.succs[step].items():
                    out.append((((s2, prefs, body, ob), 'none', rr), q * p2))
        return out
