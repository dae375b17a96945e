PROPERTY = 'C16'
NEEDS = 'an adaptive query of a system whose experiment ends before it asked anything'
BREAKS = 'the steps of the prefix are not counted if the adaptive part is empty, and are counted twice otherwise for an empty prefix'
EDITS = [('aalpy/base/SUL.py', """            outputs_received.append(output)

        self.num_steps += len(word)

        while True:
            next_input = ads.next_input(last_output)
            if next_input is None:
                break
""", """            outputs_received.append(output)

        prefix_len = len(word)

        while True:
            next_input = ads.next_input(last_output)
            if next_input is None:
                break
            if prefix_len:
                self.num_steps += prefix_len
                prefix_len = 0
""")]
DEMO = '''
from aalpy.base import SUL
class S(SUL):
    n = 0
    def pre(self): pass
    def post(self): pass
    def step(self, x):
        self.n += 1
        return 0
class Ads:
    def __init__(self, todo): self.todo = list(todo)
    def next_input(self, last): return self.todo.pop(0) if self.todo else None
s = S()
s.adaptive_query(['a', 'b'], Ads(['a']))
s.adaptive_query(['a', 'b', 'a'], Ads([]))
s.adaptive_query([], Ads(['b', 'b']))
if s.num_steps != s.n:
    print(s.num_steps, s.n)
    sys.exit(1)
'''
