"""Loads the code under test from /repo's working tree."""

import hashlib
import importlib
import importlib.util
import os
import shutil
import subprocess
import sys
import zlib
import tempfile

REPO = os.environ.get('DST_REPO', '/repo')
BASE = None            # directory the translator is loaded from
SCRATCH = []           # directories to be removed at exit


class NoBuild(Exception):
    pass


def _grammar_in_sync():
    """as DHParser's grammar_changed(): the parser records a hash of the grammar"""
    try:
        with open(os.path.join(REPO, 'ts2python.ebnf'), encoding='utf-8') as f:
            ebnf = f.read()
        sys.path.insert(0, REPO)
        try:
            from DHParser.ebnf import grammar_changed
            import ts2pythonParser as t
            return not grammar_changed(t.ts2pythonGrammar, ebnf)
        finally:
            sys.path.remove(REPO)
    except Exception:
        return True


def prepare():
    """Decides where to load from: /repo itself, or - only if the grammar file has
    been changed without regenerating the parser - a build of it in a scratch
    directory, made the way the project's own build makes it."""
    global BASE
    if BASE:
        return BASE
    preset = os.environ.get('DST_BASE')
    if preset:
        BASE = preset
        return BASE
    BASE = REPO
    code = ('import sys; sys.path.insert(0, %r); from dst import target; '
            'sys.exit(0 if target._grammar_in_sync() else 7)' % os.path.dirname(os.path.dirname(__file__)))
    r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'),
                       cwd='/', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode == 7:
        d = tempfile.mkdtemp(prefix='dst_build_')
        SCRATCH.append(d)
        for n in ('ts2pythonParser.py', 'ts2python.ebnf'):
            shutil.copy(os.path.join(REPO, n), d)
        shutil.copytree(os.path.join(REPO, 'ts2python'), os.path.join(d, 'ts2python'))
        if os.path.isdir(os.path.join(REPO, 'demo')):
            shutil.copytree(os.path.join(REPO, 'demo'), os.path.join(d, 'demo'))
        code = ('import sys; sys.path.insert(0, %r); from DHParser import dsl; '
                'dsl.recompile_grammar(%r, %r, force=False)' %
                (d, d + '/ts2python.ebnf', d + '/ts2pythonParser.py'))
        subprocess.run([sys.executable, '-c', code], cwd=d, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        BASE = d
    os.environ['DST_BASE'] = BASE
    return BASE


def cleanup():
    for d in SCRATCH:
        shutil.rmtree(d, ignore_errors=True)


_mod = None
_seq = [0]


def _hash_of_parser(self):
    try:
        return self.__dict__['_dst_hash']
    except KeyError:
        _seq[0] += 1
        self.__dict__['_dst_hash'] = h = hash(_seq[0])
        return h


def _hash_of_junction(self):
    return zlib.crc32(('%s %s' % (self[0], self[2])).encode())


def repeatable_sets():
    """DHParser keeps parsers and junctions in sets; by default their order depends on memory addresses"""
    from DHParser.parse import Parser
    if '__hash__' not in Parser.__dict__:
        Parser.__hash__ = _hash_of_parser
    try:
        from DHParser.pipeline import Junction
        Junction.__hash__ = _hash_of_junction
    except ImportError:
        pass


def translator():
    """The translator module, freshly imported from BASE, nothing translated yet."""
    global _mod
    if _mod is None:
        base = prepare()
        if base not in sys.path:
            sys.path.insert(0, base)
        repeatable_sets()
        try:
            _mod = importlib.import_module('ts2pythonParser')
        except BaseException as e:
            raise NoBuild('cannot import the translator: %r' % e)
        assert os.path.realpath(_mod.__file__).startswith(os.path.realpath(base) + '/'), _mod.__file__
        # modules that are otherwise imported in the middle of a run
        for n in ('DHParser.toolkit', 'concurrent.futures', 'concurrent.futures.process',
                  'concurrent.futures.thread', 'multiprocessing.queues', 'argparse', 'linecache', 'traceback',
                  'html', 'tokenize', 'DHParser.dsl', 'DHParser.testing', 'encodings.ascii',
                  'encodings.latin_1', 'encodings.cp1252', 'encodings.utf_8', 'encodings.utf_8_sig',
                  'encodings.idna', 'unicodedata', 'tempfile', 'shutil', 'glob', 'pathlib', 'fcntl',
                  'uuid', 'secrets', 'hashlib', 'configparser', 'gettext', 'locale', 'importlib.metadata'):
            try:
                importlib.import_module(n)
            except Exception:
                pass
    return _mod


def validation():
    base = prepare()
    if base not in sys.path:
        sys.path.insert(0, base)
    return importlib.import_module('ts2python.json_validation')


def dispatch_shim():
    base = prepare()
    if base not in sys.path:
        sys.path.insert(0, base)
    return importlib.import_module('ts2python.singledispatch_shim')


def load_variant(path, name='ts2pythonParser'):
    """loads another version of the translator script (a simulated upgrade)"""
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    saved = sys.modules.get(name)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
    except BaseException:
        if saved is not None:
            sys.modules[name] = saved
        raise
    return mod


def tree_digest():
    h = hashlib.sha256()
    base = prepare()
    for rel in ('ts2pythonParser.py', 'ts2python.ebnf', 'ts2python/json_validation.py',
                'ts2python/singledispatch_shim.py', 'ts2python/typeddict_shim.py',
                'demo/extract_ts_from_lsp_specs.py'):
        try:
            with open(os.path.join(base, rel), 'rb') as f:
                h.update(f.read())
        except OSError:
            h.update(b'-')
    return h.hexdigest()[:16]
