PROPERTY = 'C24'
NEEDS = 'a session that was abandoned without post before the next one starts'
BREAKS = 'the word of an abandoned session becomes the beginning of the next one'
EDITS = [('aalpy/SULs/TomitaSUL.py', '    def pre(self):\n        self.string = ""\n        pass\n', '    def pre(self):\n        pass\n')]
DEMO = '\nfrom aalpy.SULs import TomitaSUL\ns = TomitaSUL(4)\ns.pre()\nfor x in (0, 0): s.step(x)\ns.pre()                       # the first session was given up\nassert s.step(0) is True\n'
