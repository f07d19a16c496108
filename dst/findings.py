"""Genuine defects recorded in known_findings.json instead of repaired."""
import json
import os

from . import build


def load(prop):
    """{kind: description} of the unrepaired findings of a property."""
    path = os.path.join(build.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {k['kind']: k['what'] for k in data['known']
            if k['property'] == prop}
