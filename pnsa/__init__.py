"""pnsa -- static analyses for probabilistic-numerics/probnum.

Everything in this package works on the syntax trees of /repo/src/probnum.  Nothing from
probnum is imported or executed.
"""
