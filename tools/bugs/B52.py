PROPERTY = 'C26'
NEEDS = 'a 1-SEVPA that accepts nothing, so that its initial state is left by no transition'
BREAKS = 'the initial state is reported as the error state; deleting it leaves a model without initial state'
EDITS = [('aalpy/automata/Sevpa.py', 'if state.is_accepting or state == self.initial_state:', 'if state.is_accepting:')]
DEMO = "\nfrom aalpy.automata import Sevpa, SevpaState, SevpaAlphabet\ns = SevpaState('q0', False)\ns.prefix = ()\nm = Sevpa.create_daisy_hypothesis(s, SevpaAlphabet(['a'], ['('], [')']))\nassert m.get_error_state() is None\nm.delete_state(m.get_error_state())\nassert m.initial_state in m.states\n"
