"""Loads the real scxml2gen module of the tree under test with its environment (files, messages, process exit) replaced."""
import importlib.util, os, sys, warnings
import xml.etree.ElementTree as ET
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
REPO = os.environ.get('VF_REPO', '/repo')
DIR = os.path.join(REPO, 'tools', 'scxml2gen')
_s = importlib.util.spec_from_file_location('scxml2gen_under_test', os.path.join(DIR, 'scxml2gen.py'))
g = importlib.util.module_from_spec(_s)
_s.loader.exec_module(g)


class Rejected(Exception):
    pass


def _exit(*a):
    raise Rejected()


g.exit = _exit
g.quit = _exit
g.print = lambda *a, **k: None
TEMPLATES = {n: open(os.path.join(DIR, n)).read() for n in ('template.hpp', 'template.cpp')}
FILES = {}     # virtual .scxml documents: path -> root element
OUT = {}       # generated files: path -> text


class _R:
    def __init__(self, text):
        self.lines = []
        for l in text.splitlines(True):     # lines without any marker are handed over in one piece
            if self.lines and not any(c in l + self.lines[-1] for c in '@%~'):
                self.lines[-1] += l
            else:
                self.lines.append(l)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.lines)

    def read(self):
        return ''.join(self.lines)

    def readlines(self):
        return list(self.lines)

    def close(self):
        pass


class _W:
    def __init__(self, path):
        self.path, self.parts = path, []
        OUT[path] = ''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def write(self, s):
        self.parts.append(s)

    def writelines(self, s):
        self.parts.append(s if isinstance(s, str) else ''.join(s))

    def close(self):
        OUT[self.path] = ''.join(self.parts)


_READERS = {n: _R(t) for n, t in TEMPLATES.items()}


def _open(path, mode='r', *a, **k):
    return _W(path) if 'w' in mode else _READERS[os.path.basename(path)]


class _Tree:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root


class _ET:
    Element, SubElement, ParseError = ET.Element, ET.SubElement, ET.ParseError

    @staticmethod
    def parse(path, *a, **k):
        return _Tree(FILES[path])

    @staticmethod
    def tostring(e, *a, **k):
        return b'<element/>'


class _Path:
    join, dirname, basename, splitext = os.path.join, os.path.dirname, os.path.basename, os.path.splitext

    @staticmethod
    def exists(p):
        return p in FILES
    isfile = exists


class _OS:
    path = _Path
    sep = os.sep


g.open, g.ET, g.os = _open, _ET, _OS


def el(tag, attrib=None, text=None, children=()):
    e = ET.Element(tag)
    for k, v in (attrib or {}).items():
        e.set(k, v)
    if text is not None:
        e.text = text
    for c in children:
        e.append(c)
    return e
