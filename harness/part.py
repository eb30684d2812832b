"""A part of a check: a generator of cases, and a function which decides the property for a case"""


class Part:
    def __init__(self, name, strategy, run, quick, thorough):
        self.name = name
        self.strategy = strategy  # tier -> Hypothesis strategy of JSON-able cases
        self.run = run  # (case, ctx) -> None, raises Violation
        self.examples = {'quick': quick, 'thorough': thorough}  # Total over all shards
