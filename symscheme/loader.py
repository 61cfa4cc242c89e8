"""Loads the code under analysis, and the pure-Python libraries it runs on, instrumented.

Everything under analysis is read from its source at every run: scheme from the repository, the
standard library modules from PyPy's library directory, PyYAML and Jinja2 from the interpreter's
site-packages.  C-implemented modules are replaced by the models in symscheme/models.
"""
import builtins
import os
import sys
import types
import linecache

from . import rt, symre
from .rewrite import instrument
from .values import SymStr, is_str

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SCHEME_REPO', '/repo')
PYPYLIB = '/usr/lib/pypy3.9'
SITE = '/opt/venv-pypy/lib/pypy3.9/site-packages'
MODELS = os.path.join(HERE, 'models')

STDLIB = {
    'datetime': 'datetime.py', '_strptime': '_strptime.py', 'decimal': '_pydecimal.py',
    'textwrap': 'textwrap.py', 'copy': 'copy.py', 'base64': 'base64.py',
    'json': 'json/__init__.py', 'json.decoder': 'json/decoder.py', 'json.encoder': 'json/encoder.py',
    'json.scanner': 'json/scanner.py', 'urllib.parse': 'urllib/parse.py',
    'xml.etree.ElementTree': 'xml/etree/ElementTree.py',
    'xml.etree.ElementPath': 'xml/etree/ElementPath.py',
    'xml.etree.cElementTree': 'xml/etree/cElementTree.py',
    'csv': 'csv.py', 'string': 'string.py',
}
NAMESPACES = ('urllib', 'xml', 'xml.etree', 'xml.parsers', '__pypy__')
MODELLED = ('time', 'binascii', '_csv', 'io', 'xml.parsers.expat', '__pypy__.builders')
BLOCKED = ('_pypyjson', '_json', '_elementtree', '_datetime', '__pypy__._pypydatetime',
    'cStringIO', 'yaml._yaml', 'cgi', 'org')


class Loader(object):
    def __init__(self, repo=REPO, extra=()):
        self.repo = repo
        self.modules = {}
        self.extra = list(extra)
        self.files = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self.import_
        rt.generated_builtins = self.builtins
        self.modules['re'] = symre.make_module()
        self.modules['collections'] = self._collections()
        self.modules['functools'] = self._functools()

    def _collections(self):
        import collections
        m = types.ModuleType('collections')
        m.__dict__.update((k, v) for k, v in collections.__dict__.items()
            if not k.startswith('__'))
        m.__path__ = collections.__path__
        m.OrderedDict = rt.EngineOrderedDict
        m.__rt__ = rt
        return m

    def _functools(self):
        import functools
        m = types.ModuleType('functools')
        m.__dict__.update((k, v) for k, v in functools.__dict__.items()
            if not k.startswith('__'))
        m.partial = rt.Partial
        m.reduce = rt.reduce_
        m.lru_cache = lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f))
        return m

    def locate(self, name):
        """(path, is_package, label) of a managed module, or None."""
        if name == 'scheme' or name.startswith('scheme.'):
            base = os.path.join(self.repo, *name.split('.'))
            if os.path.isdir(base):
                return os.path.join(base, '__init__.py'), True, 'scheme'
            if os.path.exists(base + '.py'):
                return base + '.py', False, 'scheme'
            return None
        if name in MODELLED:
            return os.path.join(MODELS, name.replace('.', '_') + '.py'), False, None
        if name in STDLIB:
            return os.path.join(PYPYLIB, STDLIB[name]), STDLIB[name].endswith('__init__.py'), None
        top = name.split('.')[0]
        if top in ('yaml', 'jinja2', 'markupsafe'):
            base = os.path.join(SITE, *name.split('.'))
            if os.path.isdir(base):
                return os.path.join(base, '__init__.py'), True, None
            if os.path.exists(base + '.py'):
                return base + '.py', False, None
            return None
        for root in self.extra:
            base = os.path.join(root, *name.split('.'))
            if os.path.exists(base + '.py'):
                return base + '.py', False, None
            if os.path.exists(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True, None
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in BLOCKED:
            raise ImportError('No module named %r' % name)
        if name in NAMESPACES:
            m = types.ModuleType(name)
            m.__path__ = []
            self.modules[name] = m
            return m
        found = self.locate(name)
        if found is None:
            return None
        path, package, label = found
        with open(path, encoding='utf-8') as f:
            source = f.read()
        rel = None
        if label:
            rel = os.path.relpath(path, self.repo)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__rt__ = rt
        m.__builtins__ = self.builtins
        if package:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.modules[name] = m
        try:
            code = instrument(source, path, rel)
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        hook = getattr(self, 'after_' + name.replace('.', '_'), None)
        if hook:
            hook(m)
        if label:
            self.files[rel] = source
        parent, _, child = name.rpartition('.')
        if parent and parent in self.modules:
            setattr(self.modules[parent], child, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals.get('__package__') or ''
            parts = package.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            name = base + '.' + name if name else base
        if isinstance(name, rt.Sym):
            name = self.named(name)
        if not isinstance(name, str):
            name = str(name)
        if name.startswith('_real_'):
            return builtins.__import__(name[6:])
        # symbolic names in it are those of loaded modules, if of any: there is nothing to import
        if fromlist:
            fromlist = [item for item in fromlist if not isinstance(item, rt.Sym)] or ['__name__']
        if not self._managed(name):
            return builtins.__import__(name, globals, locals, fromlist or (), 0)
        parts = name.split('.')
        m = None
        for i in range(len(parts)):
            sub = '.'.join(parts[:i + 1])
            m = self.load(sub)
            if m is None:
                if not self._managed(sub) and i == 0:
                    raise ImportError('No module named %r' % name)
                raise ModuleNotFoundError('No module named %r' % name)
            if i:
                parent = self.modules['.'.join(parts[:i])]
                if not hasattr(parent, parts[i]):
                    setattr(parent, parts[i], m)
        if not fromlist:
            return self.modules[parts[0]]
        for item in fromlist:
            if item != '*' and not hasattr(m, item):
                sub = name + '.' + item
                if self._managed(sub):
                    try:
                        self.load(sub)
                    except ModuleNotFoundError:
                        pass
        if '*' in fromlist and hasattr(m, '__path__'):
            for item in getattr(m, '__all__', ()):
                if not hasattr(m, item):
                    self.load(name + '.' + item)
        return m

    def named(self, name):
        """A symbolic module name, as one of those of loaded modules (a harness keeps to alphabets which make no other)."""
        for candidate in sorted(set(self.modules) | set(sys.modules)):
            if name == candidate:
                return candidate
        if name == '':
            return ''
        raise ModuleNotFoundError("No module named ''")

    def _managed(self, name):
        if name in self.modules or name in BLOCKED:
            return True
        top = name.split('.')[0]
        if top in ('scheme', 'yaml', 'jinja2', 'markupsafe'):
            return True
        if name in NAMESPACES or name in MODELLED or name in STDLIB:
            return True
        return self.locate(name) is not None

    def fresh(self, name, **stand_ins):
        """A further instance of a module, for which stand-ins replace some of the modules it imports."""
        path, package, label = self.locate(name)
        saved = {k: self.modules.get(k) for k in stand_ins}
        self.modules.update(stand_ins)
        m = types.ModuleType(name)
        m.__dict__.update(__file__=path, __rt__=rt, __builtins__=self.builtins, __package__=name.rpartition('.')[0])
        try:
            with open(path, encoding='utf-8') as f:
                exec(instrument(f.read(), path, os.path.relpath(path, self.repo) if label else None), m.__dict__)
        finally:
            for k, v in saved.items():
                if v is None:
                    del self.modules[k]
                else:
                    self.modules[k] = v
        return m

    # -- adjustments ----------------------------------------------------------------------------

    def after_datetime(self, m):
        # summaries: the same functions of the same arguments, without case splits
        m._cmp = rt.cmp3
        m._days_in_month = rt.days_in_month(m._days_in_month)
        m._days_before_month = rt.days_before_month(m._days_before_month)

    def after_urllib_parse(self, m):
        path = os.path.join(MODELS, 'urllib_parse_summary.py')
        with open(path, encoding='utf-8') as f:
            summary = self.run_source('urllib_parse_summary', f.read(), path)
        m.quote_from_bytes = summary.quote_from_bytes
        m.unquote_to_bytes = summary.unquote_to_bytes

    def after_jinja2_compiler(self, m):
        # the text around the references may be symbolic: generated code refers to it by number
        plain = m.CodeGenerator._output_const_repr

        def output_const_repr(generator, group):
            group = list(group)
            if any(isinstance(x, rt.Sym) for x in group):
                return rt.stash(rt.callm('', 'join', group))
            return plain(generator, group)
        m.CodeGenerator._output_const_repr = output_const_repr

    def run_source(self, name, source, path):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__rt__ = rt
        m.__builtins__ = self.builtins
        m.__package__ = ''
        exec(instrument(source, path, None), m.__dict__)
        return m
