"""helper: add(id, title, statement, over, text, why, files, mech, observe, technique, note) writes meta/props/<id>.json"""
import json
import os


def add(id, title, statement, over, text, why, files, mech, observe, technique, note):
    doc = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
                       "hook_needed": None},
           "technique": technique, "level_note": note}
    json.dump(doc, open(os.path.join(os.path.dirname(__file__), "props", id + ".json"), "w"), indent=1)
