"""Harness shared by all monitors.

A monitor module (monitors/<id>.py) defines

    ID      property id
    RULE    how cases are made and what makes one non-trivial
    KINDS   {kind: (quick_count, thorough_count)}
    def run_case(kind, rng, obs)   -> executes the real code and its oracle

`run_case` raises `Violation` when the oracle refutes the property, `Skip`
when the generated case is outside the property's domain, and calls
`obs.saw(signature)` for every distinct situation in which the deciding
oracle was actually evaluated.  Everything in a case derives from its own
integer seed, so (property, kind, seed) replays it.
"""
import hashlib
import json
import os
import random


class Violation(Exception):
    """The oracle observed an execution that breaks the property."""

    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class Skip(Exception):
    """The generated case turned out to be outside the property's domain."""


class Obs:
    """What the oracle observed during one case."""

    def __init__(self):
        self.checks = 0
        self.signatures = []
        self.sample = None
        self.events = {}

    def saw(self, *signature):
        self.signatures.append("|".join(str(s) for s in signature))

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def describe(self, text):
        self.sample = text

    def require(self, cond, msg, key=None, detail=None):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key=key, detail=detail)


def case_seed(prop, kind, index, base):
    h = hashlib.sha256(f"{prop}/{kind}/{index}/{base}".encode()).hexdigest()
    return int(h[:15], 16)


def case_rng(seed):
    return random.Random(seed)


def known_findings(prop):
    path = os.path.join(os.environ["VERIF_ROOT"], "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        doc = json.load(f)
    return {d["key"]: d["what"] for d in doc.get("findings", []) if d["property"] == prop}
