"""Featurizers which the command line applies by their importable names."""
import pandas as pd

from beep.features.base import BEEPFeaturizer


class Throughput(BEEPFeaturizer):
    """features of the summary, scaled"""
    DEFAULT_HYPERPARAMETERS = {"factor": 1.0, "columns": ["discharge_capacity"]}

    def validate(self):
        return True, None

    def create_features(self):
        s = self.datapath.structured_summary
        self.features = pd.DataFrame({"sum " + c: [float(s[c].sum()) * self.hyperparameters["factor"]] for c in self.hyperparameters["columns"]})


class Picky(BEEPFeaturizer):
    """only accepts runs of enough cycles"""
    DEFAULT_HYPERPARAMETERS = {"cycles": 3}

    def validate(self):
        n = len(self.datapath.structured_summary)
        return (True, None) if n >= self.hyperparameters["cycles"] else (False, f"only {n} cycles, isn't enough")

    def create_features(self):
        self.features = pd.DataFrame({"n": [len(self.datapath.structured_summary)], "first": [float(self.datapath.structured_summary.charge_capacity.iloc[0])]})


class Fragile(BEEPFeaturizer):
    """fails while featurizing runs of an odd number of cycles, and spoils what it was given"""
    DEFAULT_HYPERPARAMETERS = {"odd": 1}

    def validate(self):
        return True, None

    def create_features(self):
        if len(self.datapath.structured_summary) % 2 == self.hyperparameters["odd"]:
            raise ZeroDivisionError("fragile")
        self.features = pd.DataFrame({"even": [1]})


class NotOne:
    """does what featurizers do, without being one"""
    DEFAULT_HYPERPARAMETERS = {}

    def __init__(self, structured_datapath, hyperparameters=None):
        self.features, self.hyperparameters, self.metadata, self.paths = pd.DataFrame({"even": [1]}), hyperparameters, {}, {}

    def validate(self):
        return True, None

    def create_features(self):
        pass
