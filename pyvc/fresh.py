"""Import converter21 from /repo's working tree, never from cached byte code."""
import importlib.machinery as M
import sys


class _Loader(M.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] != 'converter21':
            return None
        spec = M.PathFinder.find_spec(name, ['/repo'] if path is None else path)
        if spec is not None and type(spec.loader) is M.SourceFileLoader:
            spec.loader = _Loader(name, spec.loader.path)
            spec.cached = None
        return spec


def install():
    sys.meta_path.insert(0, _Finder)
