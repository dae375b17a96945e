PROPERTY = 'C13'
NEEDS = 'two L# runs with adaptive distinguishing sequences at the same time, one preempted in the middle of an adaptive query'
BREAKS = 'the position in the adaptive distinguishing sequence is shared by all sequences of the process, so concurrent learners send inputs of the sequence of another learner'
EDITS = [('aalpy/learning_algs/deterministic/ADS.py',
"""        self.initial_node = self.construct_ads(ob_tree, current_block)
        self.current_node = self.initial_node
""",
"""        self.initial_node = self.construct_ads(ob_tree, current_block)
        Ads.current_node = self.initial_node
"""), ('aalpy/learning_algs/deterministic/ADS.py',
"""            self.current_node = child
        return self.current_node.get_input()
""",
"""            Ads.current_node = child
        return self.current_node.get_input()
"""), ('aalpy/learning_algs/deterministic/ADS.py',
"""        # Resets the current ADS node to the initial root node
        self.current_node = self.initial_node""",
"""        # Resets the current ADS node to the initial root node
        Ads.current_node = self.initial_node"""),
]
DEMO = '''
import random, threading
from aalpy.base import SUL, Oracle
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_Lsharp
from aalpy.utils import bisimilar

def machine(seed, n):
    r = random.Random(seed)
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for a in 'abc':
            s.transitions[a] = r.choice(st); s.output_fun[a] = r.randint(0, 1)
        s.transitions['a'] = st[(i + 1) % n]
    m = MealyMachine(st[0], st)
    m.minimize()
    return m

class Turns:
    """hands control to the other thread after every step (two threads, strictly alternating while both live)"""
    def __init__(self):
        self.c = threading.Condition(); self.turn = 0; self.live = {0, 1}
    def wait(self, k):
        with self.c:
            while self.turn != k: self.c.wait()
    def pass_on(self, k):
        with self.c:
            if (1 - k) in self.live: self.turn = 1 - k
            self.c.notify_all()
            while self.turn != k: self.c.wait()
    def end(self, k):
        with self.c:
            self.live.discard(k); self.turn = 1 - k; self.c.notify_all()

class S(SUL):
    def __init__(self, m, turns, k, log): super().__init__(); self.m, self.t, self.k, self.log = m, turns, k, log
    def pre(self): self.m.reset_to_initial(); self.log.append([])
    def post(self): pass
    def step(self, x):
        if self.t: self.t.pass_on(self.k)
        self.log[-1].append(x)
        return self.m.step(x)

class E(Oracle):
    def __init__(self, al, sul, m): super().__init__(al, sul); self.m = m
    def find_cex(self, h):
        c = bisimilar(self.m, h, return_cex=True)
        return None if c is None else tuple(c)

def session(seed, turns, k):
    m = machine(seed, 12)
    log = []
    sul = S(m.copy(), turns, k, log)
    try:
        h = run_Lsharp(list('abc'), sul, E(list('abc'), sul, m), 'mealy', extension_rule='SepSeq' if False else None, separation_rule='ADS', print_level=0, cache_and_non_det_check=False)
        return log, h.size
    except Exception as e:
        return log, repr(e)

for seed in range(10):
    alone = [session(seed + 100 * k, None, k) for k in range(2)]
    t = Turns(); res = {}
    def run(k):
        t.wait(k)
        try: res[k] = session(seed + 100 * k, t, k)
        finally: t.end(k)
    ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(2)]
    [x.start() for x in ts]
    [x.join(60) for x in ts]
    for k in range(2):
        if res.get(k) != alone[k]:
            print('seed', seed, 'session', k, 'differs when another session runs'); sys.exit(1)
'''
