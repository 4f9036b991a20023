"""Loads the JSON module written by irdump."""
import json
from core import *


class Function:
    def __init__(self, j):
        self.name = j['name']
        self.dem = j['dem']
        self.ret = j['ret']
        self.args = j['args']
        self.va = j['va']
        self.blocks = j.get('blocks')
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.loops = {}
        self.loop_of = {}
        for l in j.get('loops', []):
            l['b'] = set(l['b'])
            self.loops[l['h']] = l


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.funcs = {f['name']: Function(f) for f in j['funcs']}
        self.globals = {g['name']: g for g in j['globals']}


def size_of(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    if k == 'p':
        return 8
    if k == 'f':
        return {32: 4, 64: 8, 80: 16}[t[1]]
    if k == 's':
        return t[3]
    if k in ('a', 'vec'):
        return t[1] * t[3]
    raise ToolLimit('size of type %r' % t)


def width(t):
    if t[0] == 'i' or t[0] == 'f':
        return t[1]
    if t[0] == 'p':
        return 64
    raise ToolLimit('width of type %r' % t)
